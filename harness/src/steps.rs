//! Nodes built step by step, see HclBuild.tla.

use crate::build::txt;
use crate::gen::Gen;
use crate::rs;
use crate::unrs;
use crate::Out;
use hcl::expr::*;
use hcl::structure::*;
use hcl::template::{Directive, Element, ForDirective, IfDirective, Interpolation, Template};
use hcl::Identifier;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Made {
    For(ForExpr),
    Call(FuncCall),
    CallB(FuncCallBuilder),
    Trv(Expression, Vec<TraversalOperator>),
    TrvB(TraversalBuilder),
    Hd(Heredoc),
    Tpl(Template),
    If(IfDirective),
    Fod(ForDirective),
    Attr(Attribute),
    Blk(Block),
    BlkB(BlockBuilder),
    Bdy(hcl::Body),
    BdyB(BodyBuilder),
    Done(Vec<Expression>),
}
use Made::*;

fn text(v: &Value) -> String {
    txt(v)
}
fn attrs(ss: Vec<Structure>) -> Option<Vec<Attribute>> {
    ss.into_iter().map(Structure::into_attribute).collect()
}
fn blocks(ss: Vec<Structure>) -> Option<Vec<Block>> {
    ss.into_iter().map(Structure::into_block).collect()
}

fn start(s: &Value) -> Made {
    let e = |f: &str| unrs::expr(&s[f]);
    let id = |f: &str| unrs::ident(&s[f]);
    let w = s["w"].as_str().unwrap_or("");
    match s["o"].as_str().unwrap() {
        "for" => For(ForExpr::new(id("vv"), e("coll"), e("ve"))),
        "fn" => {
            let ns: Vec<Identifier> = s["ns"].as_array().unwrap().iter().map(unrs::ident).collect();
            match (w, ns.is_empty()) {
                ("new", true) => Call(FuncCall::new(text(&s["name"]))),
                (_, true) => CallB(FuncCall::builder(text(&s["name"]).as_str())),
                ("new", _) => Call(FuncCall::new(FuncName::new(id("name")).with_namespace(ns))),
                // the namespace is the last one which is given
                _ => CallB(FuncCall::builder(FuncName::new(id("name")).with_namespace(["x", "y"]).with_namespace(ns))),
            }
        }
        "trv" if w == "new" => Trv(e("e"), vec![]),
        "trv" => TrvB(Traversal::builder(e("e"))),
        "cond" => Done(vec![Conditional::new(e("ce"), e("te"), e("fe")).into()]),
        "un" => {
            let u = UnaryOp::new(unrs::unary(s["op"].as_str().unwrap()), e("e"));
            Done(vec![u.clone().into(), Operation::from(u.clone()).into(), Operation::Unary(u).into()])
        }
        "bin" => {
            let b = BinaryOp::new(e("l"), unrs::binary(s["op"].as_str().unwrap()), e("r"));
            Done(vec![b.clone().into(), Operation::from(b.clone()).into(), Operation::Binary(b).into()])
        }
        "var" => {
            let n = text(&s["name"]);
            Done(vec![
                Variable::new(n.as_str()).unwrap().into(),
                Variable::from(Identifier::from(n.clone())).into(),
                Variable::sanitized(&n).into(),
                Variable::unchecked(n.clone()).into(),
                Variable::from(Identifier::from(Variable::from(id("name")))).into(),
                Variable::from(Variable::new(n).unwrap().into_inner()).into(),
            ])
        }
        "quoted" => {
            let t = text(&s["txt"]);
            Done(vec![TemplateExpr::from(t.as_str()).into(), TemplateExpr::from(t.clone()).into(), TemplateExpr::QuotedString(t).into()])
        }
        "hd" => Hd(Heredoc::new(id("delim"), text(&s["txt"]))),
        "tpl" => Tpl(Template::new()),
        "ifd" => If(IfDirective::new(e("ic"), unrs::template(&s["it"]))),
        "fod" => Fod(ForDirective::new(id("vv"), e("coll"), unrs::template(&s["ft"]))),
        "attr" => Attr(match w {
            "new" => Attribute::new(text(&s["name"]), e("e")),
            _ => Attribute::from((text(&s["name"]).as_str(), e("e"))),
        }),
        "block" => {
            let ss = unrs::structures(&s["ss"]);
            let labels = s["labels"].as_array().unwrap().iter().map(unrs::label);
            match w {
                "triple" => Blk(Block::from((text(&s["name"]).as_str(), labels, ss))),
                "pair" => Blk(Block::from((id("name"), ss))),
                _ => BlkB(Block::builder(text(&s["name"]))),
            }
        }
        "body" => {
            let mut ss = unrs::structures(&s["ss"]);
            match w {
                "vec" => Bdy(hcl::Body::from(ss)),
                "slice" => Bdy(hcl::Body::from(&ss[..])),
                "mut" => Bdy(hcl::Body::from(&mut ss[..])),
                "array" => Bdy(match <[Structure; 3]>::try_from(ss) {
                    Ok(ss) => hcl::Body::from(ss),
                    Err(ss) => hcl::Body::from(ss),
                }),
                "iter" => Bdy(ss.into_iter().collect()),
                // structure by structure, each from its part
                "one" => {
                    let mut b = hcl::Body::default();
                    for s in ss {
                        b.extend(hcl::Body::from_iter([s]));
                    }
                    Bdy(b)
                }
                _ => BdyB(hcl::Body::builder()),
            }
        }
        o => panic!("start {o}"),
    }
}

fn step(m: Made, s: &Value) -> Made {
    let e = || unrs::expr(&s["e"]);
    let id = || unrs::ident(&s["name"]);
    let w = s["w"].as_str().unwrap_or("");
    let st = || unrs::strip(&s["st"]);
    match (m, s["o"].as_str().unwrap()) {
        (For(f), "kvar") => For(f.with_key_var(id())),
        (For(f), "kexpr") => For(f.with_key_expr(e())),
        (For(f), "if") => For(f.with_cond_expr(e())),
        (For(f), "group") => For(f.with_grouping(s["b"] == true)),
        (CallB(f), "arg") => CallB(f.arg(e())),
        (CallB(f), "expand") => CallB(f.expand_final(s["b"] == true)),
        (TrvB(t), "get") => TrvB(t.attr(text(&s["name"]))),
        (TrvB(t), "asp") => TrvB(t.attr_splat()),
        (TrvB(t), "fsp") => TrvB(t.full_splat()),
        (TrvB(t), "idx") => TrvB(t.index(e())),
        (Trv(x, mut ops), o) => {
            ops.push(match o {
                "get" => TraversalOperator::from(text(&s["name"]).as_str()),
                "asp" => TraversalOperator::AttrSplat,
                "fsp" => TraversalOperator::FullSplat,
                "idx" => TraversalOperator::from(e()),
                _ => TraversalOperator::from(text(&s["digs"]).parse::<u64>().unwrap()),
            });
            Trv(x, ops)
        }
        (Hd(h), "flush") => Hd(h.with_strip_mode(if s["b"] == true { HeredocStripMode::Indent } else { HeredocStripMode::None })),
        (Tpl(t), "lit") => {
            let l = text(&s["txt"]);
            Tpl(match t.elements().len() % 3 {
                0 => t.add_literal(l),
                1 => t.add_element(l.as_str()),
                _ => t.add_element(Element::Literal(l)),
            })
        }
        (Tpl(t), "itp") => Tpl(match s["st"][0] == false && s["st"][1] == false {
            true => t.add_interpolation(e()),
            false => t.add_interpolation(Interpolation::new(e()).with_strip(st())),
        }),
        (Tpl(mut t), "els") => {
            for el in s["els"].as_array().unwrap() {
                t = match unrs::element(el) {
                    Element::Literal(l) => t.add_element(l),
                    Element::Interpolation(i) => t.add_element(i),
                    Element::Directive(d) => match *d {
                        Directive::If(d) => t.add_directive(d),
                        Directive::For(d) => t.add_element(Directive::from(d)),
                    },
                };
            }
            Tpl(t)
        }
        (If(d), "else") => If(d.with_false_template(unrs::template(&s["els"]))),
        (If(d), "st1") => If(d.with_if_strip(st())),
        (If(d), "stelse") => If(d.with_else_strip(st())),
        (If(d), "st2") => If(d.with_endif_strip(st())),
        (Fod(d), "kvar") => Fod(d.with_key_var(id())),
        (Fod(d), "st1") => Fod(d.with_for_strip(st())),
        (Fod(d), "st2") => Fod(d.with_endfor_strip(st())),
        (BlkB(b), "labels") => {
            let ls: Vec<BlockLabel> = s["labels"].as_array().unwrap().iter().map(unrs::label).collect();
            BlkB(match (w, &ls[..]) {
                ("one", [BlockLabel::String(l)]) => b.add_label(l),
                ("one", [BlockLabel::Identifier(l)]) => b.add_label(l.clone()),
                _ => b.add_labels(ls),
            })
        }
        (BlkB(b), "add") => {
            let mut ss = unrs::structures(&s["ss"]);
            BlkB(match (w, attrs(ss.clone()), blocks(ss.clone())) {
                ("one", Some(mut a), _) => b.add_attribute(a.remove(0)),
                ("one", _, Some(mut k)) => b.add_block(k.remove(0)),
                ("many", Some(a), _) => b.add_attributes(a),
                ("many", _, Some(k)) => b.add_blocks(k),
                _ if ss.len() == 1 => b.add_structure(ss.remove(0)),
                _ => b.add_structures(ss),
            })
        }
        (BdyB(b), "add") => {
            let mut ss = unrs::structures(&s["ss"]);
            BdyB(match (w, attrs(ss.clone()), blocks(ss.clone())) {
                ("one", Some(mut a), _) => b.add_attribute(a.remove(0)),
                ("one", _, Some(mut k)) => b.add_block(k.remove(0)),
                ("many", Some(a), _) => b.add_attributes(a),
                ("many", _, Some(k)) => b.add_blocks(k),
                _ if ss.len() == 1 => b.add_structure(ss.remove(0)),
                _ => b.add_structures(ss),
            })
        }
        (Bdy(mut b), "add") => {
            b.extend(unrs::structures(&s["ss"]));
            Bdy(b)
        }
        (_, o) => panic!("step {o}"),
    }
}

fn element(d: Directive) -> Value {
    rs::element(&Element::from(d))
}

fn end(m: Made) -> Vec<Value> {
    match m {
        For(f) => vec![rs::expr(&f.into())],
        Call(f) => vec![rs::expr(&f.into())],
        CallB(f) => vec![rs::expr(&f.build().into())],
        Trv(e, ops) => vec![rs::expr(&Traversal::new(e, ops).into())],
        TrvB(t) => vec![rs::expr(&t.build().into())],
        Hd(h) => vec![rs::expr(&h.clone().into()), rs::expr(&TemplateExpr::from(h).into())],
        Tpl(t) => vec![rs::template(&t), rs::template(&t.elements().iter().cloned().collect())],
        If(d) => vec![element(d.into())],
        Fod(d) => vec![element(d.into())],
        Attr(a) => vec![rs::attr(&a), rs::structure(&a.into())],
        Blk(b) => vec![rs::block(&b), rs::structure(&b.into())],
        BlkB(b) => vec![rs::block(&b.build())],
        Bdy(b) => vec![rs::body(&b), rs::body(&b.clone().into_inner().into())],
        BdyB(b) => vec![rs::body(&b.build())],
        Done(es) => es.iter().map(rs::expr).collect(),
    }
}

fn perform(out: &mut Out, steps: &[Value]) {
    out.current(&json!(steps).to_string());
    let got = catch_unwind(AssertUnwindSafe(|| {
        let mut m = start(&steps[0]);
        for s in &steps[1..] {
            m = step(m, s);
        }
        end(m)
    }));
    out.put(&json!({"k": "steps", "steps": steps, "got": got.unwrap_or_else(|_| vec![json!("panic")])}));
}

pub fn run(out: &mut Out, seed: u64, tier: &str, file: &str) {
    if !file.is_empty() {
        for l in std::fs::read_to_string(file).unwrap().lines() {
            let v: Value = serde_json::from_str(l).unwrap();
            perform(out, v["steps"].as_array().unwrap());
        }
        return;
    }
    let n = if tier == "thorough" { 30000 } else { 2500 };
    let mut g = Gen::new(seed ^ 0xb01d, 0);
    for i in 0..n {
        g.noise = [0, 5][i % 2];
        let steps = random(&mut g);
        perform(out, &steps);
    }
}

fn parsed<T: std::str::FromStr>(g: &mut Gen, f: impl Fn(&mut Gen) -> String) -> T {
    loop {
        let s = f(g);
        if s.chars().count() <= 60 {
            if let Ok(x) = s.parse() {
                return x;
            }
        }
    }
}
fn rexpr(g: &mut Gen) -> Value {
    rs::expr(&parsed(g, |g| g.expr(1, false)))
}
fn rels(g: &mut Gen) -> Value {
    rs::template(&parsed(g, |g| g.elements(1, false, false)))
}
fn rname(g: &mut Gen) -> Value {
    crate::dump::t(g.r.pick(&["a", "b", "k", "v", "é", "a-b", "null", "for", "if"]))
}
fn rtext(g: &mut Gen) -> Value {
    crate::dump::t(&crate::format::text(&mut g.r))
}
fn rstrip(g: &mut Gen) -> Value {
    json!([g.r.chance(50), g.r.chance(50)])
}
fn rss(g: &mut Gen, n: usize, of: usize) -> Value {
    let mut ss = vec![];
    while ss.len() < n {
        let b: hcl::Body = parsed(g, |g| g.body(1, true));
        ss.extend(b.into_inner().into_iter().filter(|s| of == 0 || s.is_attribute() == (of == 1)));
    }
    ss.truncate(n);
    ss.iter().map(rs::structure).collect()
}
fn rlabels(g: &mut Gen, n: usize) -> Value {
    (0..n)
        .map(|_| {
            let l = if g.r.chance(50) { BlockLabel::from(crate::format::text(&mut g.r)) } else { Identifier::from(txt(&rname(g))).into() };
            rs::label(&l)
        })
        .collect()
}

fn random(g: &mut Gen) -> Vec<Value> {
    let b = |g: &mut Gen| json!(g.r.chance(50));
    let pick = |g: &mut Gen, xs: &[&str]| json!(g.r.pick(xs));
    let kind = ["for", "fn", "trv", "cond", "un", "bin", "hd", "tpl", "ifd", "fod", "attr", "block", "body", "var"][g.r.below(14)];
    let first = match kind {
        "for" => json!({"vv": rname(g), "coll": rexpr(g), "ve": rexpr(g)}),
        "fn" => {
            let ns: Vec<Value> = (0..g.r.below(3)).map(|_| rname(g)).collect();
            json!({"ns": ns, "name": rname(g), "w": pick(g, &["new", "builder", "builder"])})
        }
        "trv" => json!({"e": rexpr(g), "w": pick(g, &["new", "builder"])}),
        "cond" => json!({"ce": rexpr(g), "te": rexpr(g), "fe": rexpr(g)}),
        "un" => json!({"op": pick(g, &["!", "-"]), "e": rexpr(g)}),
        "bin" => json!({"l": rexpr(g), "op": pick(g, &["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]), "r": rexpr(g)}),
        "hd" => json!({"delim": rname(g), "txt": rtext(g)}),
        "ifd" => json!({"ic": rexpr(g), "it": rels(g)}),
        "fod" => json!({"vv": rname(g), "coll": rexpr(g), "ft": rels(g)}),
        "attr" => json!({"name": rname(g), "e": rexpr(g), "w": pick(g, &["new", "pair"])}),
        "var" => json!({"name": rname(g)}),
        "block" => match g.r.below(4) {
            0 => { let n = g.r.below(3); json!({"name": rname(g), "labels": [], "ss": rss(g, n, 0), "w": "pair"}) }
            1 => { let n = g.r.below(3); let l = g.r.below(3); json!({"name": rname(g), "labels": rlabels(g, l), "ss": rss(g, n, 0), "w": "triple"}) }
            _ => json!({"name": rname(g), "labels": [], "ss": [], "w": "builder"}),
        },
        "body" => match g.r.below(2) {
            0 => { let n = g.r.below(5); json!({"ss": rss(g, n, 0), "w": pick(g, &["vec", "slice", "array", "iter", "mut", "one"])}) }
            _ => json!({"ss": [], "w": "builder"}),
        },
        _ => json!({}),
    };
    let w = first["w"].as_str().unwrap_or("").to_owned();
    let of = |o: &str, mut v: Value| {
        v["o"] = json!(o);
        v
    };
    let mut steps = vec![of(kind, first)];
    for _ in 0..g.r.below(7) {
        let k = g.r.below(8);
        let s = match (kind, w.as_str()) {
            ("for", _) => match k % 4 {
                0 => of("kvar", json!({"name": rname(g)})),
                1 => of("kexpr", json!({"e": rexpr(g)})),
                2 => of("if", json!({"e": rexpr(g)})),
                _ => of("group", json!({"b": b(g)})),
            },
            ("fn", "builder") if k < 6 => of("arg", json!({"e": rexpr(g)})),
            ("fn", "builder") => of("expand", json!({"b": b(g)})),
            ("trv", _) => match k {
                0 | 1 => of("get", json!({"name": rname(g)})),
                2 => of("asp", json!({})),
                3 => of("fsp", json!({})),
                4 if w == "new" => of("leg", json!({"digs": crate::dump::t(&g.r.below(1000).to_string())})),
                _ => of("idx", json!({"e": rexpr(g)})),
            },
            ("hd", _) => of("flush", json!({"b": b(g)})),
            ("tpl", _) => match k % 3 {
                0 => of("lit", json!({"txt": rtext(g)})),
                1 => of("itp", json!({"st": rstrip(g), "e": rexpr(g)})),
                _ => of("els", json!({"els": rels(g)})),
            },
            ("ifd", _) => match k % 4 {
                0 => of("else", json!({"els": rels(g)})),
                j => of(["st1", "stelse", "st2"][j - 1], json!({"st": rstrip(g)})),
            },
            ("fod", _) => match k % 3 {
                0 => of("kvar", json!({"name": rname(g)})),
                j => of(["st1", "st2"][j - 1], json!({"st": rstrip(g)})),
            },
            ("block", "builder") if k < 3 => {
                let n = g.r.below(3);
                if k == 0 { of("labels", json!({"w": "one", "labels": rlabels(g, 1)})) } else { of("labels", json!({"w": "many", "labels": rlabels(g, n)})) }
            }
            ("block" | "body", "builder") => {
                let n = g.r.below(4);
                match k % 3 {
                    0 => { let a = g.r.below(2) + 1; of("add", json!({"w": "one", "ss": rss(g, 1, a)})) }
                    1 => { let a = g.r.below(2) + 1; of("add", json!({"w": "many", "ss": rss(g, n, a)})) }
                    _ => of("add", json!({"w": "structures", "ss": rss(g, n, 0)})),
                }
            }
            ("body", _) if w != "builder" => { let n = g.r.below(3); of("add", json!({"w": "extend", "ss": rss(g, n, 0)})) }
            _ => break,
        };
        steps.push(s);
    }
    steps
}
