//! Observations of hcl-rs trees: how they are formatted and converted.

use crate::dump::{t, Dump};
use crate::gen::{Gen, Rng};
use crate::{rs, Out};
use hcl::expr::{Expression, ObjectKey, Operation, TraversalOperator};
use hcl::format::{Format, Formatter, FormatterBuilder};
use hcl::structure::{Body, Structure};
use hcl::template::{Directive, Element, Template};
use hcl::{Map, Value as HclValue};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const TEXTS: &[&str] = &[
    "", "x", "a\"b", "\\", "\\n", "${x}", "a ${x} b", "%{ if a }b%{ endif }", "$${", "%%{", "a\nb", "\t", "\u{7f}", "\u{1}\u{1f}", "é",
    "for", "in", "x y", "x-1", "1x", "$", "%", "%{", "${", "${\"", "$$${", "$${a}${b}", "\r\n", "\u{8}\u{c}", "😀", "}", "null", "-", "_", "#",
    "${a.b[0]}\n", "\"${a}\"", "%{~ for x in y ~}\n${x}\n%{ endfor }", "true", "~",
];

pub fn text(r: &mut Rng) -> String {
    let mut s = r.pick(TEXTS).to_string();
    if r.chance(20) {
        s.push_str(r.pick(TEXTS));
    }
    s
}

/// Replaces strings by ones which a parsed text would rarely contain.
pub fn shake(e: &mut Expression, r: &mut Rng) {
    match e {
        Expression::String(s) => {
            if r.chance(60) {
                *s = text(r);
            }
        }
        Expression::Array(a) => a.iter_mut().for_each(|e| shake(e, r)),
        Expression::Object(o) => {
            let old = std::mem::take(o);
            for (k, mut v) in old {
                let k = match k {
                    ObjectKey::Expression(mut e) => {
                        shake(&mut e, r);
                        ObjectKey::Expression(e)
                    }
                    k if r.chance(20) => {
                        let _ = k;
                        ObjectKey::Expression(Expression::String(text(r)))
                    }
                    k => k,
                };
                shake(&mut v, r);
                o.insert(k, v);
            }
        }
        Expression::Parenthesis(e) => shake(e, r),
        Expression::Conditional(c) => {
            shake(&mut c.cond_expr, r);
            shake(&mut c.true_expr, r);
            shake(&mut c.false_expr, r);
        }
        Expression::FuncCall(f) => f.args.iter_mut().for_each(|e| shake(e, r)),
        Expression::Traversal(v) => {
            shake(&mut v.expr, r);
            for o in &mut v.operators {
                if let TraversalOperator::Index(e) = o {
                    shake(e, r);
                }
            }
        }
        Expression::Operation(o) => match &mut **o {
            Operation::Unary(u) => shake(&mut u.expr, r),
            Operation::Binary(b) => {
                shake(&mut b.lhs_expr, r);
                shake(&mut b.rhs_expr, r);
            }
        },
        Expression::ForExpr(f) => {
            shake(&mut f.collection_expr, r);
            shake(&mut f.value_expr, r);
        }
        _ => {}
    }
}

pub fn shake_body(b: &mut Body, r: &mut Rng) {
    for s in b.iter_mut() {
        match s {
            Structure::Attribute(a) => shake(&mut a.expr, r),
            Structure::Block(b) => {
                for l in &mut b.labels {
                    if let hcl::structure::BlockLabel::String(s) = l {
                        *s = text(r);
                    }
                }
                shake_body(&mut b.body, r);
            }
        }
    }
}

fn shake_template(x: &mut Template, r: &mut Rng) {
    for e in x.elements_mut() {
        match e {
            // A literal which ends in a marker character would merge with what follows.
            Element::Literal(l) if r.chance(30) => {
                let s = text(r);
                if !s.ends_with(['$', '%']) && !s.is_empty() {
                    *l = s;
                }
            }
            Element::Literal(_) => {}
            Element::Interpolation(i) => shake(&mut i.expr, r),
            Element::Directive(d) => match &mut **d {
                Directive::If(d) => {
                    shake_template(&mut d.true_template, r);
                    if let Some(x) = &mut d.false_template {
                        shake_template(x, r);
                    }
                }
                Directive::For(d) => shake_template(&mut d.template, r),
            },
        }
    }
}

pub fn number(r: &mut Rng) -> hcl::Number {
    match r.below(4) {
        0 => hcl::Number::from(r.below(3)),
        1 => hcl::Number::from(-(r.below(1000) as i64)),
        2 => hcl::Number::from_f64(r.below(100000) as f64 / 64.0).unwrap(),
        _ => hcl::Number::from(r.below(1 << 40) as u64),
    }
}

pub fn value(r: &mut Rng, d: usize) -> HclValue {
    match r.below(if d == 0 { 4 } else { 7 }) {
        0 => HclValue::Null,
        1 => HclValue::Bool(r.chance(50)),
        2 => HclValue::Number(number(r)),
        3 | 4 => HclValue::String(text(r)),
        5 => (0..r.below(4)).map(|_| value(r, d - 1)).collect::<Vec<_>>().into(),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(4) {
                m.insert(text(r), value(r, d - 1));
            }
            HclValue::Object(m)
        }
    }
}

pub struct Cfg {
    indent: &'static str,
    dense: bool,
    arrays: bool,
    objects: bool,
    idents: bool,
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Option<Cfg> {
        if r.chance(20) {
            return None;
        }
        Some(Cfg {
            indent: r.pick(&["", " ", "  ", "    ", "\t"]),
            dense: r.chance(50),
            arrays: r.chance(50),
            objects: r.chance(50),
            idents: r.chance(50),
        })
    }
    pub fn builder(&self) -> FormatterBuilder<'static> {
        let b = Formatter::builder().indent(self.indent.as_bytes()).dense(self.dense).prefer_ident_keys(self.idents);
        if self.arrays == self.objects {
            b.compact(self.arrays)
        } else {
            b.compact_arrays(self.arrays).compact_objects(self.objects)
        }
    }
    pub fn json(c: &Option<Cfg>) -> Value {
        match c {
            None => json!({"indent": [32, 32], "dense": false, "arrays": false, "objects": false, "idents": false}),
            Some(c) => json!({"indent": t(c.indent), "dense": c.dense, "arrays": c.arrays, "objects": c.objects, "idents": c.idents}),
        }
    }
}

/// Formats in one of several ways which have to agree.
fn fmt<T: Format>(v: &T, c: &Option<Cfg>, how: usize) -> String {
    match (c, how) {
        (None, 0) => hcl::format::to_string(v).unwrap(),
        (None, 1) => String::from_utf8(hcl::format::to_vec(v).unwrap()).unwrap(),
        (None, 2) => {
            let mut b = Vec::new();
            hcl::format::to_writer(&mut b, v).unwrap();
            String::from_utf8(b).unwrap()
        }
        (None, _) => v.format_string(&mut Formatter::default()).unwrap(),
        (Some(c), 0) => {
            let mut b = Vec::new();
            v.format(&mut c.builder().build(&mut b)).unwrap();
            String::from_utf8(b).unwrap()
        }
        (Some(c), 1) => v.format_string(&mut c.builder().build_vec()).unwrap(),
        (Some(c), _) => {
            // A formatter can be used again, also after something else was written.
            let mut f = c.builder().build_vec();
            let _ = hcl::Block::builder("x").add_attribute(("a", 1)).build().format_string(&mut f);
            let _ = hcl::Attribute::new("x", vec![1]).format_vec(&mut f);
            v.format_string(&mut f).unwrap()
        }
    }
}

fn put(out: &mut Out, m: &str, src: &str, cfg: &Option<Cfg>, tree: Value, r: std::thread::Result<(String, Value)>) {
    out.put(&match r {
        Ok((s, re)) => json!({"m": m, "src": t(src), "cfg": Cfg::json(cfg), "tree": tree, "out": t(&s), "re": re}),
        Err(_) => json!({"m": m, "src": t(src), "cfg": Cfg::json(cfg), "tree": tree, "out": [-1], "re": {"r": "panic"}}),
    });
}

fn ok<T, E>(r: Result<T, E>, f: impl Fn(&T) -> Value) -> Value {
    match r {
        Ok(v) => json!({"r": "ok", "tree": f(&v)}),
        Err(_) => json!({"r": "err"}),
    }
}

fn tpl(v: &Template) -> Value {
    json!({"k": "template", "els": rs::template(v)})
}

pub fn run(out: &mut Out, seed: u64, tier: &str) {
    let n = if tier == "thorough" { 20000 } else { 3000 };
    let mut g = Gen::new(seed ^ 0xF0, 5);
    for i in 0..n {
        g.noise = [0, 10][i % 2];
        let d = 1 + i % 3;
        let m = ["body", "expr", "tpl", "body", "val"][i % 5];
        let cfg = Cfg::random(&mut g.r);
        let how = g.r.below(4);
        let shaken = g.r.chance(40);
        let s = match m {
            "body" => g.body(d, true),
            "expr" => g.expr(d, false),
            "tpl" => g.elements(d, false, true),
            _ => String::new(),
        };
        if s.chars().count() > 400 {
            continue;
        }
        out.current(&s);
        match m {
            "body" => {
                let Ok(mut b) = s.parse::<Body>() else { continue };
                if shaken {
                    shake_body(&mut b, &mut g.r);
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let f = fmt(&b, &cfg, how);
                    let re = ok(f.parse::<Body>(), rs::body);
                    (f, re)
                }));
                put(out, m, &s, &cfg, rs::body(&b), r);
            }
            "expr" => {
                let Ok(mut b) = s.parse::<Expression>() else { continue };
                if shaken {
                    shake(&mut b, &mut g.r);
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let f = if cfg.is_none() && how == 3 { b.to_string() } else { fmt(&b, &cfg, how) };
                    let re = ok(f.parse::<Expression>(), rs::expr);
                    (f, re)
                }));
                put(out, m, &s, &cfg, rs::expr(&b), r);
            }
            "tpl" => {
                let Ok(mut b) = s.parse::<Template>() else { continue };
                if shaken {
                    shake_template(&mut b, &mut g.r);
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let f = if cfg.is_none() && how == 3 { b.to_string() } else { fmt(&b, &cfg, how) };
                    let re = ok(f.parse::<Template>(), tpl);
                    (f, re)
                }));
                put(out, m, &s, &cfg, tpl(&b), r);
            }
            _ => {
                let b = value(&mut g.r, d);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let f = if cfg.is_none() && how == 3 { b.to_string() } else { fmt(&b, &cfg, how) };
                    let re = ok(f.parse::<Expression>(), rs::expr);
                    (f, re)
                }));
                put(out, m, &s, &cfg, rs::value(&b), r);
            }
        }
    }
}

const FULL: Dump = Dump { bare: false, unset: true, spans: false };

/// Conversions between the trees of hcl-edit and hcl-rs.
pub fn convert(out: &mut Out, seed: u64, tier: &str) {
    let n = if tier == "thorough" { 20000 } else { 3000 };
    let mut g = Gen::new(seed ^ 0xC0, 5);
    let put = |out: &mut Out, m: &str, s: &str, a: Option<Value>, r: std::thread::Result<(Value, Value, String, Value)>| {
        let mut v = match r {
            Ok((tree, fresh, enc, re)) => json!({"r": "ok", "tree": tree, "fresh": fresh, "enc": t(&enc), "re": re}),
            Err(_) => json!({"r": "panic"}),
        };
        v["m"] = json!(m);
        v["s"] = t(s);
        // The tree before it was modified, if it was.
        v["shaken"] = json!(a.is_some());
        out.put(&v);
    };
    for i in 0..n {
        g.noise = [0, 10, 30][i % 3];
        let d = 1 + i % 3;
        let shaken = g.r.chance(40);
        let m = ["body", "expr", "tpl"][i % 3];
        let s = match m {
            "body" => g.body(d, true),
            "expr" => g.expr(d, false),
            _ => g.elements(d, false, true),
        };
        if s.chars().count() > 400 {
            continue;
        }
        out.current(&s);
        match m {
            "body" => {
                let Ok(e) = s.parse::<hcl::edit::structure::Body>() else { continue };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut b = Body::from(e);
                    if shaken {
                        shake_body(&mut b, &mut g.r);
                    }
                    let tree = rs::body(&b);
                    let back = hcl::edit::structure::Body::from(b);
                    let enc = back.to_string();
                    let re = ok(enc.parse::<Body>(), rs::body);
                    (tree, FULL.body(&back), enc, re)
                }));
                put(out, m, &s, shaken.then_some(json!(0)), r);
            }
            "expr" => {
                let Ok(e) = s.parse::<hcl::edit::expr::Expression>() else { continue };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut b = Expression::from(e);
                    if shaken {
                        shake(&mut b, &mut g.r);
                    }
                    let tree = rs::expr(&b);
                    let back = hcl::edit::expr::Expression::from(b);
                    let enc = back.to_string();
                    let re = ok(enc.parse::<Expression>(), rs::expr);
                    (tree, FULL.expr(&back), enc, re)
                }));
                put(out, m, &s, shaken.then_some(json!(0)), r);
            }
            _ => {
                let Ok(e) = s.parse::<hcl::edit::template::Template>() else { continue };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut b = Template::from(e);
                    if shaken {
                        shake_template(&mut b, &mut g.r);
                    }
                    let tree = tpl(&b);
                    let back = hcl::edit::template::Template::from(b);
                    let enc = back.to_string();
                    let re = ok(enc.parse::<Template>(), tpl);
                    (tree, json!({"k": "template", "els": FULL.template(&back)}), enc, re)
                }));
                put(out, m, &s, shaken.then_some(json!(0)), r);
            }
        }
    }
}
