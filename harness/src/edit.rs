//! Histories of modifications of documents, through the public editing interface.
//!
//! An operation is a record {o, path, ...}; the same operations are transitions of the
//! specification (HclEdit.tla). The path leads from the document to the node that is modified.

use crate::build;
use crate::build::txt;
use crate::dump::{t, Dump};
use crate::gen::Gen;
use crate::Out;
use hcl_edit::expr::*;
use hcl_edit::structure::*;
use hcl_edit::template::*;
use hcl_edit::Decorate;
use serde_json::{json, Value};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

const FULL: Dump = Dump { bare: false, unset: true, spans: false };
const BARE: Dump = Dump { bare: true, unset: false, spans: false };

enum Node<'a> {
    Body(&'a mut Body),
    St(&'a mut Structure),
    Ex(&'a mut Expression),
    El(&'a mut Element),
}

/// The templates inside of a directive.
fn inner(e: &mut Element, w: usize) -> Option<&mut Template> {
    match e {
        Element::Directive(d) => match &mut **d {
            Directive::If(IfDirective { if_expr, else_expr, .. }) => match w {
                1 => Some(&mut if_expr.template),
                _ => else_expr.as_mut().map(|e| &mut e.template),
            },
            Directive::For(d) => (w == 1).then_some(&mut d.for_expr.template),
        },
        _ => None,
    }
}

fn child<'a>(n: Node<'a>, k: usize) -> Option<Node<'a>> {
    Some(match n {
        Node::Body(b) => Node::St(b.get_mut(k - 1)?),
        Node::St(Structure::Attribute(a)) => Node::Ex(&mut a.value),
        Node::St(Structure::Block(b)) => Node::Body(&mut b.body),
        Node::Ex(e) => Node::Ex(match e {
            Expression::Array(a) => a.get_mut(k - 1)?,
            Expression::Object(o) => o.iter_mut().nth(k - 1)?.1.expr_mut(),
            Expression::FuncCall(f) => f.args.get_mut(k - 1)?,
            Expression::Parenthesis(p) => p.inner_mut(),
            Expression::Conditional(c) => match k {
                1 => &mut c.cond_expr,
                2 => &mut c.true_expr,
                _ => &mut c.false_expr,
            },
            Expression::UnaryOp(u) => &mut u.expr,
            Expression::BinaryOp(b) => match k {
                1 => &mut b.lhs_expr,
                _ => &mut b.rhs_expr,
            },
            Expression::Traversal(t) => &mut t.expr,
            Expression::ForExpr(f) => match k {
                1 => &mut f.intro.collection_expr,
                _ => &mut f.value_expr,
            },
            Expression::StringTemplate(t) => return Some(Node::El(t.get_mut(k - 1)?)),
            Expression::HeredocTemplate(h) => return Some(Node::El(h.template.get_mut(k - 1)?)),
            _ => return None,
        }),
        // Beyond 100 and 200 are the elements of the templates of a directive.
        Node::El(e) if k > 100 => Node::El(inner(e, k / 100)?.get_mut(k % 100 - 1)?),
        Node::El(Element::Interpolation(i)) => Node::Ex(&mut i.expr),
        Node::El(Element::Directive(d)) => Node::Ex(match &mut **d {
            Directive::If(d) => &mut d.if_expr.cond_expr,
            Directive::For(d) => &mut d.for_expr.collection_expr,
        }),
        Node::El(_) => return None,
    })
}

fn elements(v: &Value) -> Vec<Element> {
    v.as_array().unwrap().iter().map(build::element).collect()
}

fn exprs(v: &Value) -> Vec<Expression> {
    v.as_array().unwrap().iter().map(build::expr).collect()
}

fn entries(v: &Value) -> Vec<(ObjectKey, ObjectValue)> {
    v.as_array().unwrap().iter().map(|e| (build::key(&e["key"]), build::object_value(e))).collect()
}

fn template_op(t: &mut Template, op: &Value) -> Value {
    let idx = || op["idx"].as_u64().unwrap() as usize - 1;
    let el = || build::element(&op["el"]);
    let n1 = |x: Option<&Element>| nodes(x.iter().map(|s| FULL.element(s)));
    match op["o"].as_str().unwrap() {
        "xpush" => t.push(el()),
        "xins" => t.insert(idx(), el()),
        "xpop" => return n1(t.pop().as_ref()),
        "xrem" => return n1(Some(&t.remove(idx()))),
        "xclr" => t.clear(),
        "xext" => t.extend(elements(&op["els"])),
        "xget" => return n1(t.get(idx())),
        "xlen" => {
            assert_eq!(t.is_empty(), t.len() == 0);
            assert_eq!(t.iter().count(), t.len());
            return json!({"t": "num", "n": t.len()});
        }
        "xone" => return n1(t.as_single_element()),
        "xset" => match t.as_single_element_mut() {
            Some(e) => *e = el(),
            None => return yes(false),
        },
        "xall" => {
            for e in &mut *t {
                if let Element::Literal(l) = e {
                    *l.value_mut() = txt(&op["txt"]);
                }
            }
        }
        "xfrom" => {
            let all = std::mem::take(t).into_iter().chain(elements(&op["els"]));
            *t = if op["flag"].as_bool().unwrap() { Template::from(all.collect::<Vec<_>>()) } else { all.collect() };
        }
        x => panic!("unknown operation {x}"),
    }
    none()
}

/// One body out of structures, in different ways.
fn body_of(sts: Vec<Structure>, way: u64) -> Body {
    match way {
        1 => Body::from(sts),
        2 => sts.into_iter().collect(),
        3 => Body::builder().structures(sts).build(),
        4 => sts.into_iter().fold(Body::builder(), BodyBuilder::structure).into(),
        5 => sts.into_iter().fold(Body::builder(), |b, s| match s {
            Structure::Attribute(a) => b.attribute(a),
            Structure::Block(x) => b.block(x),
        }).build(),
        _ => sts.into_iter().fold(Body::builder(), |b, s| match s {
            Structure::Attribute(a) => b.attributes([a]),
            Structure::Block(x) => b.blocks([x]),
        }).build(),
    }
}

fn block_of(b: &Block, way: u64) -> Block {
    let x = Block::builder(b.ident.clone());
    match way {
        1 => x.labels(b.labels.clone()).structures(b.body.clone()).build(),
        2 => b.body.clone().into_iter().fold(b.labels.iter().cloned().fold(x, BlockBuilder::label), BlockBuilder::structure).into(),
        3 => b.body.clone().into_iter().fold(x.labels(b.labels.clone()), |x, s| match s {
            Structure::Attribute(a) => x.attribute(a),
            Structure::Block(b) => x.block(b),
        }).into(),
        _ => {
            let x = b.body.clone().into_iter().fold(x, |x, s| match s {
                Structure::Attribute(a) => x.attributes([a]),
                Structure::Block(b) => x.blocks([b]),
            });
            x.labels(b.labels.clone()).build()
        }
    }
}

fn resolve<'a>(root: Node<'a>, path: &Value) -> Node<'a> {
    path.as_array().unwrap().iter().fold(root, |n, k| child(n, k.as_u64().unwrap() as usize).expect("path"))
}

fn none() -> Value {
    json!({"t": "none"})
}

fn nodes<'a>(it: impl Iterator<Item = Value>) -> Value {
    json!({"t": "nodes", "ns": it.collect::<Vec<_>>()})
}

fn yes(b: bool) -> Value {
    json!({"t": "bool", "b": b})
}

fn dec<T: Decorate + ?Sized>(n: &mut T, op: &Value) {
    n.decor_mut().set_prefix(txt(&op["pre"]));
    n.decor_mut().set_suffix(txt(&op["suf"]));
}

/// Carries the operation out and returns what the interface returned.
fn apply(root: Node<'_>, op: &Value) -> Value {
    let idx = || op["idx"].as_u64().unwrap() as usize - 1;
    let st = || build::structure(&op["st"]);
    let ex = || build::expr(&op["ex"]);
    let key = || txt(&op["key"]);
    let fl = || op["flag"].as_bool().unwrap();
    let text = || txt(&op["txt"]);
    let o = op["o"].as_str().unwrap();
    let s1 = |x: Option<Structure>| nodes(x.iter().map(|s| FULL.structure(s)));
    let e1 = |x: Option<Expression>| nodes(x.iter().map(|s| FULL.expr(s)));
    match resolve(root, &op["path"]) {
        Node::Body(b) => match o {
            "push" => b.push(st()),
            "tpush" => return nodes(b.try_push(st()).err().iter().map(|a| FULL.attr(a))),
            "ins" => b.insert(idx(), st()),
            "tins" => return nodes(b.try_insert(idx(), st()).err().iter().map(|a| FULL.attr(a))),
            "pop" => return s1(b.pop()),
            "rem" => return s1(Some(b.remove(idx()))),
            "rema" => return nodes(b.remove_attribute(&key()).iter().map(|a| FULL.attr(a))),
            "remb" => return nodes(b.remove_blocks(&key()).iter().map(|a| FULL.block(a))),
            "clr" => b.clear(),
            "one" => b.set_prefer_oneline(fl()),
            "omit" => b.set_prefer_omit_trailing_newline(fl()),
            "ext" => b.extend(op["sts"].as_array().unwrap().iter().map(build::structure)),
            "dec" => dec(b, op),
            "get" => return nodes(b.get(idx()).iter().map(|s| FULL.structure(s))),
            "prefs" => return json!({"t": "bools", "bs": [b.prefer_oneline(), b.prefer_omit_trailing_newline()]}),
            "bfrom" => {
                let more = op["sts"].as_array().unwrap().iter().map(build::structure);
                *b = body_of(std::mem::take(b).into_iter().chain(more).collect(), op["way"].as_u64().unwrap());
            }
            "hasa" => return yes(b.has_attribute(&key())),
            "hasb" => return yes(b.has_blocks(&key())),
            "geta" => return nodes(b.get_attribute(&key()).iter().map(|a| FULL.attr(a))),
            "getb" => return nodes(b.get_blocks(&key()).map(|a| FULL.block(a))),
            "attrs" => return nodes(b.attributes().map(|a| FULL.attr(a))),
            "blocks" => return nodes(b.blocks().map(|a| FULL.block(a))),
            "intoa" => return nodes(b.clone().into_attributes().map(|a| FULL.attr(&a))),
            "intob" => return nodes(b.clone().into_blocks().map(|a| FULL.block(&a))),
            "len" => {
                assert_eq!(b.is_empty(), b.len() == 0);
                assert_eq!(b.iter().count(), b.len());
                return json!({"t": "num", "n": b.len()});
            }
            "vala" => match b.get_attribute_mut(&key()) {
                Some(mut a) => *a.value_mut() = ex(),
                None => return yes(false),
            },
            "deca" => match b.get_attribute_mut(&key()) {
                Some(mut a) => {
                    dec(&mut a, op);
                    a.key_decor_mut().set_suffix(txt(&op["suf"]));
                }
                None => return yes(false),
            },
            "allv" => b.attributes_mut().for_each(|mut a| *a.value_mut() = ex()),
            "alld" => b.iter_mut().for_each(|mut s| dec(&mut s, op)),
            "blab" => b.get_blocks_mut(&key()).for_each(|x| x.labels.push(build::label(&op["lab"]))),
            "bone" => b.blocks_mut().for_each(|x| x.body.set_prefer_oneline(fl())),
            x => panic!("unknown operation {x}"),
        },
        Node::St(s) => match (o, s) {
            ("dec", s) => dec(s, op),
            ("undec", s) => s.decor_mut().clear(),
            ("kdec", Structure::Attribute(a)) => dec(&mut a.key, op),
            ("hask", Structure::Attribute(a)) => return yes(a.has_key(&key())),
            ("bid", Structure::Block(b)) => b.ident = build::id(&op["id"]),
            ("lpush", Structure::Block(b)) => b.labels.push(build::label(&op["lab"])),
            ("lpop", Structure::Block(b)) => {
                b.labels.pop();
            }
            ("bbld", Structure::Block(b)) => *b = block_of(b, op["way"].as_u64().unwrap()),
            ("anew", Structure::Attribute(a)) => *a = Attribute::new(a.key.clone(), a.value.clone()),
            ("haslab", Structure::Block(b)) => {
                let ls: Vec<String> = op["labs"].as_array().unwrap().iter().map(txt).collect();
                assert_eq!(b.is_labeled(), !b.labels.is_empty());
                return json!({"t": "bools", "bs": [b.has_labels(&ls), b.has_exact_labels(&ls), b.has_ident(&key())]});
            }
            (x, _) => panic!("unknown operation {x}"),
        },
        Node::Ex(e) => match (o, e) {
            ("set", e) => *e = ex(),
            ("dec", e) => dec(e, op),
            ("undec", e) => e.decor_mut().clear(),
            ("nval", Expression::Number(n)) => *n.value_mut() = build::number(&op["num"]),
            ("nfmt", Expression::Number(n)) => n.format(),
            ("apush", Expression::Array(a)) => a.push(ex()),
            ("ains", Expression::Array(a)) => a.insert(idx(), ex()),
            ("apop", Expression::Array(a)) => return e1(a.pop()),
            ("arem", Expression::Array(a)) => return e1(Some(a.remove(idx()))),
            ("aclr", Expression::Array(a)) => a.clear(),
            ("atc", Expression::Array(a)) => a.set_trailing_comma(fl()),
            ("atr", Expression::Array(a)) => a.set_trailing(text()),
            ("aall", Expression::Array(a)) => a.iter_mut().for_each(|e| dec(e, op)),
            ("apush", Expression::FuncCall(f)) => f.args.push(ex()),
            ("ains", Expression::FuncCall(f)) => f.args.insert(idx(), ex()),
            ("apop", Expression::FuncCall(f)) => return e1(f.args.pop()),
            ("arem", Expression::FuncCall(f)) => return e1(Some(f.args.remove(idx()))),
            ("aclr", Expression::FuncCall(f)) => f.args.clear(),
            ("atc", Expression::FuncCall(f)) => f.args.set_trailing_comma(fl()),
            ("atr", Expression::FuncCall(f)) => f.args.set_trailing(text()),
            ("aexp", Expression::FuncCall(f)) => f.args.set_expand_final(fl()),
            ("aall", Expression::FuncCall(f)) => f.args.iter_mut().for_each(|e| dec(e, op)),
            ("aext", Expression::Array(a)) => a.extend(exprs(&op["exs"])),
            ("aget", Expression::Array(a)) => return nodes(a.get(idx()).iter().map(|e| FULL.expr(e))),
            ("ainfo", Expression::Array(a)) => {
                assert_eq!(a.iter().count(), a.len());
                return json!({"t": "info", "n": a.len(), "bs": [a.is_empty(), a.trailing_comma(), false], "tr": t(a.trailing())});
            }
            ("afrom", Expression::Array(a)) => {
                let all = std::mem::take(a).into_iter().chain(exprs(&op["exs"]));
                *a = if fl() { Array::from(all.collect::<Vec<_>>()) } else { all.collect() };
            }
            ("aext", Expression::FuncCall(f)) => f.args.extend(exprs(&op["exs"])),
            ("aget", Expression::FuncCall(f)) => return nodes(f.args.get(idx()).iter().map(|e| FULL.expr(e))),
            ("ainfo", Expression::FuncCall(f)) => {
                let a = &f.args;
                assert_eq!(a.iter().count(), a.len());
                return json!({"t": "info", "n": a.len(), "bs": [a.is_empty(), a.trailing_comma(), a.expand_final()], "tr": t(a.trailing())});
            }
            ("afrom", Expression::FuncCall(f)) => {
                let all = std::mem::take(&mut f.args).into_iter().chain(exprs(&op["exs"]));
                f.args = if fl() { FuncArgs::from(all.collect::<Vec<_>>()) } else { all.collect() };
            }
            ("fns", Expression::FuncCall(f)) => f.name.set_namespace(op["ids"].as_array().unwrap().iter().map(build::id).collect::<Vec<_>>()),
            ("isns", Expression::FuncCall(f)) => return yes(f.name.is_namespaced()),
            ("oext", Expression::Object(x)) => x.extend(entries(&op["ents"])),
            ("ofrom", Expression::Object(x)) => {
                let all = std::mem::take(x).into_iter().chain(entries(&op["ents"]));
                let mut items = vecmap::VecMap::new();
                *x = if fl() {
                    all.for_each(|(k, v)| match items.get_mut(&k) {
                        Some(old) => *old = v,
                        None => drop(items.insert(k, v)),
                    });
                    Object::from(items)
                } else {
                    all.collect()
                };
            }
            ("oinfo", Expression::Object(x)) => {
                assert_eq!(x.iter().count(), x.len());
                assert_eq!(x.iter().zip(x.clone()).filter(|(a, b)| a.0 == &b.0 && a.1 == &b.1).count(), x.len());
                return json!({"t": "info", "n": x.len(), "bs": [x.is_empty(), false, false], "tr": t(x.trailing())});
            }
            ("oins", Expression::Object(x)) => {
                let old = x.insert(build::key(&op["ent"]["key"]), build::object_value(&op["ent"]));
                return e1(old.map(ObjectValue::into_expr));
            }
            ("orem", Expression::Object(x)) => return e1(x.remove(&build::key(&op["key"])).map(ObjectValue::into_expr)),
            ("oreme", Expression::Object(x)) => {
                let r = x.remove_entry(&build::key(&op["key"]));
                return nodes(r.iter().flat_map(|(k, v)| [FULL.key(k), FULL.expr(v.expr())]));
            }
            ("oclr", Expression::Object(x)) => x.clear(),
            ("otr", Expression::Object(x)) => x.set_trailing(text()),
            ("oget", Expression::Object(x)) => {
                let k = build::key(&op["key"]);
                let r: Vec<Value> = x.get(&k).iter().map(|v| FULL.expr(v.expr())).collect();
                assert_eq!(x.contains_key(&k), !r.is_empty());
                assert_eq!(x.get_key_value(&k).is_some(), !r.is_empty());
                return nodes(r.into_iter());
            }
            ("okdec", Expression::Object(x)) => match x.get_key_value_mut(&build::key(&op["key"])) {
                Some((mut k, _)) => dec(&mut k, op),
                None => return yes(false),
            },
            ("oval", Expression::Object(x)) => match x.get_mut(&build::key(&op["key"])) {
                Some(v) => *v.expr_mut() = ex(),
                None => return yes(false),
            },
            ("oall", Expression::Object(x)) => {
                for (mut k, v) in x.iter_mut() {
                    dec(&mut k, op);
                    v.set_assignment(if fl() { ObjectValueAssignment::Equals } else { ObjectValueAssignment::Colon });
                    v.set_terminator(match op["term"].as_str().unwrap() {
                        "comma" => ObjectValueTerminator::Comma,
                        "nl" => ObjectValueTerminator::Newline,
                        _ => ObjectValueTerminator::None,
                    });
                }
            }
            ("hind", Expression::HeredocTemplate(h)) => h.set_indent(op["ind"].as_u64().unwrap() as usize),
            ("hdelim", Expression::HeredocTemplate(h)) => h.delimiter = build::ident(&op["key"]),
            ("htr", Expression::HeredocTemplate(h)) => h.set_trailing(text()),
            ("hded", Expression::HeredocTemplate(h)) => h.dedent(),
            ("hinfo", Expression::HeredocTemplate(h)) => {
                return json!({"t": "hinfo", "n": h.indent().map_or(-1, |i| i as i64), "tr": t(h.trailing())});
            }
            ("xfrom", Expression::StringTemplate(x)) => {
                let all = std::mem::take(x).into_iter().chain(elements(&op["els"]));
                *x = if fl() { StringTemplate::from(all.collect::<Vec<_>>()) } else { all.collect() };
            }
            ("xconv", Expression::StringTemplate(x)) => *x = StringTemplate::from(Template::from(std::mem::take(x))),
            ("xext", Expression::StringTemplate(x)) => x.extend(elements(&op["els"])),
            (_, Expression::StringTemplate(x)) => return template_op(x, op),
            (_, Expression::HeredocTemplate(h)) => return template_op(&mut h.template, op),
            (x, _) => panic!("unknown operation {x}"),
        },
        Node::El(e) => match (o, e) {
            ("est", Element::Interpolation(i)) => i.strip = build::strip(&op["st"]),
            ("lset", Element::Literal(l)) => *l.value_mut() = text(),
            ("dnew", Element::Directive(d)) => match &mut **d {
                Directive::If(d) => *d = IfDirective::new(d.if_expr.clone(), d.else_expr.clone(), d.endif_expr.clone()),
                Directive::For(d) => *d = ForDirective::new(d.for_expr.clone(), d.endfor_expr.clone()),
            },
            ("dels", Element::Directive(d)) => match &mut **d {
                Directive::If(d) if fl() => d.else_expr = Some(ElseTemplateExpr::new(elements(&op["els"]).into())),
                Directive::If(d) => d.else_expr = None,
                Directive::For(_) => return yes(false),
            },
            ("dpre", Element::Directive(d)) => {
                let w = op["w"].as_u64().unwrap();
                match &mut **d {
                    Directive::If(d) => match (w, &mut d.else_expr) {
                        (1, _) => {
                            d.if_expr.set_preamble(txt(&op["pre"]));
                            d.if_expr.strip = build::strip(&op["st"]);
                        }
                        (2, Some(e)) => {
                            e.set_preamble(txt(&op["pre"]));
                            e.set_trailing(txt(&op["suf"]));
                            e.strip = build::strip(&op["st"]);
                        }
                        (2, None) => return yes(false),
                        _ => {
                            d.endif_expr.set_preamble(txt(&op["pre"]));
                            d.endif_expr.set_trailing(txt(&op["suf"]));
                            d.endif_expr.strip = build::strip(&op["st"]);
                        }
                    },
                    Directive::For(d) => match w {
                        1 => {
                            d.for_expr.set_preamble(txt(&op["pre"]));
                            d.for_expr.strip = build::strip(&op["st"]);
                        }
                        2 => return yes(false),
                        _ => {
                            d.endfor_expr.set_preamble(txt(&op["pre"]));
                            d.endfor_expr.set_trailing(txt(&op["suf"]));
                            d.endfor_expr.strip = build::strip(&op["st"]);
                        }
                    },
                }
            }
            (x, e) if x.starts_with('x') => match inner(e, op["w"].as_u64().unwrap() as usize) {
                Some(t) => return template_op(t, op),
                None => return yes(false),
            },
            (x, _) => panic!("unknown operation {x}"),
        },
    }
    none()
}

/// Carries out the history and records every step.
fn replay(s: &str, ops: &[Value]) -> Value {
    let mut b: Body = s.parse().unwrap();
    let (init, enc) = (FULL.body(&b), t(&b.to_string()));
    let mut steps = vec![];
    for op in ops {
        let res = catch_unwind(AssertUnwindSafe(|| apply(Node::Body(&mut b), op))).unwrap_or_else(|_| json!({"t": "panic"}));
        let enc = catch_unwind(AssertUnwindSafe(|| b.to_string())).unwrap_or_else(|_| "PANIC".into());
        let re = match enc.parse::<Body>() {
            Ok(r) => BARE.body(&r),
            Err(_) => json!({"k": "error"}),
        };
        steps.push(json!({"op": op, "res": res, "tree": FULL.body(&b), "enc": t(&enc), "bare": BARE.body(&b), "re": re}));
    }
    json!({"s": t(s), "enc": enc, "init": init, "steps": steps})
}

/// Makes all decor (and the spelling of integers) unset.
pub fn fresh(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(fresh).collect(),
        Value::Object(m) => {
            let k = m.get("k").and_then(Value::as_str).unwrap_or("").to_string();
            let mut r = serde_json::Map::new();
            for (n, x) in m {
                let plain = |x: &Value| x.as_array().unwrap().iter().all(|c| (48..58).contains(&c.as_u64().unwrap()));
                let x = match n.as_str() {
                    "pre" | "suf" => json!([-1]),
                    "opre" => json!([-1]),
                    "ipre" if k == "for" => json!([-1]),
                    "cpre" if m["hasc"] == true => json!([-1]),
                    "repr" if plain(x) && x.as_array().unwrap().len() < 19 => json!([-1]),
                    "ipre" | "epre" | "npre" | "fpre" | "etr" | "ntr" => json!([]),
                    "kv" if m["hask"] == false => x.clone(),
                    "ke" if m["haskey"] == false => x.clone(),
                    "cond" if m["hasc"] == false => x.clone(),
                    "tr" if k != "hd" => json!([]),
                    "tc" => json!(false),
                    "asg" => json!("="),
                    "term" => json!("comma"),
                    "sp" | "tsp" | "isp" | "osp" | "esp" | "csp" | "fsp" => json!([]),
                    "val" if k == "num" => x.clone(),
                    _ => fresh(x),
                };
                r.insert(n.clone(), x);
            }
            r.into()
        }
        x => x.clone(),
    }
}

fn has_hidden(s: &str) -> bool {
    // The decor between `...` and `}` cannot be observed.
    s.match_indices("...").any(|(i, _)| !s[i + 3..].starts_with(['}', ')']))
}

struct Hist {
    g: Gen,
    exprs: Vec<Value>,
}

const KEYS: &[&str] = &["a", "b", "foo", "zz", "block", "x"];

impl Hist {
    fn ident(&mut self) -> &'static str {
        KEYS[self.g.r.below(KEYS.len())]
    }

    fn expr(&mut self) -> Value {
        loop {
            let s = if self.g.r.chance(40) {
                ["1", "\"v\"", "a", "[1, 2]", "{ a = 1 }", "f(x)", "\"x${y}\"", "null", "12", "true"][self.g.r.below(10)].to_string()
            } else {
                self.g.expr(1, false)
            };
            if has_hidden(&s) {
                continue;
            }
            if let Ok(e) = s.parse::<Expression>() {
                let v = FULL.expr(&e);
                let v = if self.g.r.chance(50) { fresh(&v) } else { v };
                self.exprs.push(v.clone());
                return v;
            }
        }
    }

    fn structure(&mut self) -> Value {
        loop {
            let key = self.ident();
            let s = match self.g.r.below(4) {
                0 => self.g.body(1, true),
                1 => format!("{key} \"l\" {{\n}}"),
                _ => format!("{key} = {}", self.g.number()),
            };
            if has_hidden(&s) {
                continue;
            }
            if let Ok(b) = s.parse::<Body>() {
                if let Some(s) = b.get(0) {
                    let v = FULL.structure(s);
                    return if self.g.r.chance(50) { fresh(&v) } else { v };
                }
            }
        }
    }

    fn label(&mut self) -> Value {
        if self.g.r.chance(50) {
            json!({"k": "lstr", "sp": [], "pre": [-1], "suf": [-1], "lsv": t(["l", "a b", "\"", "${x}", "é"][self.g.r.below(5)])})
        } else {
            json!({"k": "lid", "sp": [], "pre": [-1], "suf": [-1], "id": t(self.ident())})
        }
    }

    /// Whitespace and comments which can stand anywhere in a line.
    fn blank(&mut self) -> Value {
        t(["", " ", "  ", "\t", "/* c */", " /**/ "][self.g.r.below(6)])
    }

    fn element(&mut self) -> Value {
        let lit = |s: &str| json!({"k": "lit", "sp": [], "lv": t(s)});
        match self.g.r.below(6) {
            0 | 1 | 2 => lit(["v", "$", "${x}", "\n", "é\"", "  y"][self.g.r.below(6)]),
            3 | 4 => json!({"k": "itp", "sp": [], "st": [self.g.r.chance(30), self.g.r.chance(30)], "e": self.expr()}),
            _ => {
                let s = ["\"%{ if a }x%{ endif }\"", "\"%{ if a ~}x%{~else}${y}%{endif ~}\"", "\"%{ for a, b in c }${a}%{ endfor }\"", "\"%{for a in c~} %{~ endfor}\""];
                match s[self.g.r.below(4)].parse::<Expression>() {
                    Ok(Expression::StringTemplate(x)) => FULL.element(x.get(0).unwrap()),
                    _ => lit("z"),
                }
            }
        }
    }

    fn template_op(&mut self, n: usize) -> Value {
        match self.g.r.below(13) {
            0 | 1 => json!({"o": "xpush", "el": self.element()}),
            2 => json!({"o": "xins", "idx": 1 + self.g.r.below(n + 2), "el": self.element()}),
            3 => json!({"o": "xpop"}),
            4 => json!({"o": "xrem", "idx": 1 + self.g.r.below(n + 1)}),
            5 if self.g.r.chance(30) => json!({"o": "xclr"}),
            6 => json!({"o": "xext", "els": [self.element(), self.element()]}),
            7 => json!({"o": "xget", "idx": 1 + self.g.r.below(n + 1)}),
            8 => json!({"o": "xlen"}),
            9 => json!({"o": "xone"}),
            10 => json!({"o": "xset", "el": self.element()}),
            11 => json!({"o": "xall", "txt": t(["", "a b", "\n", "$"][self.g.r.below(4)])}),
            _ => json!({"o": "xfrom", "els": [self.element()], "flag": self.g.r.chance(50)}),
        }
    }

    fn entry(&mut self) -> Value {
        json!({"key": self.key_node(), "asg": (["=", ":"][self.g.r.below(2)]), "val": self.expr(),
            "term": (["comma", "nl", "none"][self.g.r.below(3)])})
    }

    /// Structures among which several have the same name.
    fn structures(&mut self) -> Value {
        let key = self.ident();
        let n = self.g.r.below(6);
        (0..n)
            .map(|k| {
                if self.g.r.chance(40) {
                    return self.structure();
                }
                let s = [format!("{key} {{\n}}"), format!("{key} \"l\" {{\n}}"), format!("{key} x \"l\" {{ a = {k} }}"), format!("{key} = {k}")];
                fresh(&FULL.structure(s[self.g.r.below(4)].parse::<Body>().unwrap().get(0).unwrap()))
            })
            .collect()
    }

    fn key_node(&mut self) -> Value {
        let k = t(self.ident());
        match self.g.r.below(4) {
            0 => json!({"k": "str", "sp": [], "pre": [-1], "suf": [-1], "sv": k}),
            _ => json!({"k": "id", "sp": [], "pre": [-1], "suf": [-1], "id": k}),
        }
    }

    /// The path of a random node.
    fn walk(&mut self, b: &mut Body, what: &str) -> Vec<usize> {
        let mut path: Vec<usize> = vec![];
        let stop = if what == "body" { 60 } else { 25 };
        loop {
            let p = json!(path);
            let n = match resolve(Node::Body(b), &p) {
                Node::El(e @ Element::Directive(_)) => {
                    let w = 1 + self.g.r.below(2);
                    match inner(e, w).map_or(0, |t| t.len()) {
                        0 => 1,
                        _ if self.g.r.chance(30) => 1,
                        n => {
                            path.push(100 * w + 1 + self.g.r.below(n));
                            if self.g.r.chance(stop) {
                                break;
                            }
                            continue;
                        }
                    }
                }
                Node::El(_) => 1,
                Node::Body(b) => b.len(),
                Node::St(Structure::Attribute(_)) if what == "body" && self.g.r.chance(70) => 0,
                Node::St(_) => 1,
                Node::Ex(e) => match e {
                    Expression::Array(a) => a.len(),
                    Expression::Object(o) => o.len(),
                    Expression::FuncCall(f) => f.args.len(),
                    Expression::Parenthesis(_) | Expression::UnaryOp(_) | Expression::Traversal(_) => 1,
                    Expression::Conditional(_) => 3,
                    Expression::BinaryOp(_) | Expression::ForExpr(_) => 2,
                    Expression::StringTemplate(t) => t.len(),
                    Expression::HeredocTemplate(h) => h.template.len(),
                    _ => 0,
                },
            };
            if n == 0 || self.g.r.chance(stop) {
                break;
            }
            path.push(1 + self.g.r.below(n));
            if child(resolve(Node::Body(b), &p), *path.last().unwrap()).is_none() {
                path.pop();
                break;
            }
        }
        path
    }

    fn op(&mut self, b: &mut Body, what: &str) -> Value {
        let mut path = self.walk(b, what);
        for _ in 0..12 {
            let leaf = match resolve(Node::Body(b), &json!(path)) {
                Node::Body(_) | Node::St(_) => true,
                Node::El(e) => !matches!(e, Element::Directive(_)),
                Node::Ex(e) => !(e.is_array() || e.is_object() || e.is_func_call() || e.is_template()),
            };
            if what == "body" || !leaf || self.g.r.chance(15) {
                break;
            }
            path = self.walk(b, what);
        }
        let pj = json!(path);
        let mut op = match resolve(Node::Body(b), &pj) {
            Node::Body(b) => {
                let n = b.len() + 1;
                let at = 1 + self.g.r.below(n);
                match self.g.r.below(34) {
                    0 | 1 => json!({"o": "push", "st": self.structure()}),
                    2 | 3 => json!({"o": "tpush", "st": self.structure()}),
                    4 => json!({"o": "ins", "idx": at, "st": self.structure()}),
                    5 => json!({"o": "tins", "idx": at + self.g.r.below(2), "st": self.structure()}),
                    6 => json!({"o": "pop"}),
                    7 => json!({"o": "rem", "idx": at}),
                    8 | 9 => json!({"o": "rema", "key": t(self.ident())}),
                    10 | 11 => json!({"o": "remb", "key": t(self.ident())}),
                    12 if self.g.r.chance(20) => json!({"o": "clr"}),
                    13 => json!({"o": "one", "flag": self.g.r.chance(60)}),
                    14 => json!({"o": "omit", "flag": self.g.r.chance(50)}),
                    15 => json!({"o": "ext", "sts": self.structures()}),
                    16 => json!({"o": "dec", "pre": self.blank(), "suf": self.blank()}),
                    17 => json!({"o": "hasa", "key": t(self.ident())}),
                    18 => json!({"o": "getb", "key": t(self.ident())}),
                    19 => json!({"o": "geta", "key": t(self.ident())}),
                    20 => json!({"o": (["attrs", "blocks", "intoa", "intob"][self.g.r.below(4)])}),
                    21 => json!({"o": "len"}),
                    22 | 23 => json!({"o": "vala", "key": t(self.ident()), "ex": self.expr()}),
                    24 => json!({"o": "deca", "key": t(self.ident()), "pre": self.blank(), "suf": self.blank()}),
                    25 => json!({"o": "allv", "ex": self.expr()}),
                    26 => json!({"o": "alld", "pre": self.blank(), "suf": self.blank()}),
                    27 => json!({"o": "blab", "key": t(self.ident()), "lab": self.label()}),
                    28 => json!({"o": "hasb", "key": t(self.ident())}),
                    29 => json!({"o": "get", "idx": at}),
                    30 => json!({"o": "prefs"}),
                    31 | 32 => json!({"o": "bfrom", "way": 1 + self.g.r.below(6), "sts": self.structures()}),
                    _ => json!({"o": "bone", "flag": self.g.r.chance(60)}),
                }
            }
            Node::El(e) => {
                let n = (1..3).map(|w| inner(e, w).map_or(0, |t| t.len())).collect::<Vec<_>>();
                let st = json!([self.g.r.chance(30), self.g.r.chance(30)]);
                match e {
                    Element::Literal(_) => json!({"o": "lset", "txt": t(["", "a b", "\n", "$", "é${"][self.g.r.below(5)])}),
                    Element::Interpolation(_) => json!({"o": "est", "st": st}),
                    Element::Directive(_) => match self.g.r.below(7) {
                        0 => json!({"o": "dnew"}),
                        1 => json!({"o": "dels", "flag": self.g.r.chance(60), "els": [self.element(), self.element()]}),
                        2 | 3 => json!({"o": "dpre", "w": 1 + self.g.r.below(3), "pre": self.blank(), "suf": self.blank(), "st": st}),
                        _ => {
                            let w = self.g.r.below(2);
                            let mut op = self.template_op(n[w]);
                            op["w"] = json!(w + 1);
                            op
                        }
                    },
                }
            }
            Node::St(Structure::Attribute(_)) => match self.g.r.below(5) {
                4 => json!({"o": "anew"}),
                0 => json!({"o": "dec", "pre": self.blank(), "suf": self.blank()}),
                1 => json!({"o": "undec"}),
                2 => json!({"o": "hask", "key": t(self.ident())}),
                _ => json!({"o": "kdec", "pre": self.blank(), "suf": self.blank()}),
            },
            Node::St(Structure::Block(_)) => match self.g.r.below(8) {
                6 | 7 => json!({"o": "bbld", "way": 1 + self.g.r.below(4)}),
                0 => json!({"o": "dec", "pre": self.blank(), "suf": self.blank()}),
                1 => json!({"o": "undec"}),
                2 => json!({"o": "bid", "id": {"k": "id", "sp": [], "pre": self.blank(), "suf": [32], "id": t(self.ident())}}),
                3 => json!({"o": "lpush", "lab": self.label()}),
                4 => json!({"o": "lpop"}),
                _ => {
                    let n = self.g.r.below(3);
                    let labs: Vec<Value> = (0..n).map(|_| t(["l", "a b", self.ident()][self.g.r.below(3)])).collect();
                    json!({"o": "haslab", "labs": labs, "key": t(self.ident())})
                }
            },
            Node::Ex(e) => {
                let any = match self.g.r.below(10) {
                    0 | 1 => Some(json!({"o": "set", "ex": self.expr()})),
                    2 => Some(json!({"o": "dec", "pre": self.blank(), "suf": self.blank()})),
                    3 => Some(json!({"o": "undec"})),
                    _ => None,
                };
                match (any, e) {
                    (Some(o), _) => o,
                    (_, Expression::Number(_)) => match self.g.r.below(2) {
                        0 => json!({"o": "nval", "num": crate::dump::decimal(["0", "7", "42", "100", "-3"][self.g.r.below(5)])}),
                        _ => json!({"o": "nfmt"}),
                    },
                    (_, Expression::Array(Array { .. })) | (_, Expression::FuncCall(_)) => {
                        let n = match resolve(Node::Body(b), &pj) {
                            Node::Ex(Expression::Array(a)) => a.len(),
                            Node::Ex(Expression::FuncCall(f)) => f.args.len(),
                            _ => 0,
                        };
                        let call = matches!(resolve(Node::Body(b), &pj), Node::Ex(Expression::FuncCall(_)));
                        match self.g.r.below(17) {
                            10 | 11 => json!({"o": "aext", "exs": [self.expr(), self.expr()]}),
                            12 => json!({"o": "aget", "idx": 1 + self.g.r.below(n + 1)}),
                            13 => json!({"o": "ainfo"}),
                            14 => json!({"o": "afrom", "exs": [self.expr()], "flag": self.g.r.chance(50)}),
                            15 if call => json!({"o": "isns"}),
                            16 if call => {
                                let n = self.g.r.below(3);
                                let ids: Vec<Value> = (0..n).map(|_| json!({"k": "id", "sp": [], "pre": [-1], "suf": [-1], "id": t(self.ident())})).collect();
                                json!({"o": "fns", "ids": ids})
                            }
                            0 | 1 => json!({"o": "apush", "ex": self.expr()}),
                            2 | 3 => json!({"o": "ains", "idx": 1 + self.g.r.below(n + 1), "ex": self.expr()}),
                            4 => json!({"o": "apop"}),
                            5 => json!({"o": "arem", "idx": 1 + self.g.r.below(n + 1)}),
                            6 if self.g.r.chance(30) => json!({"o": "aclr"}),
                            7 => json!({"o": "atr", "txt": self.blank()}),
                            8 => json!({"o": "aall", "pre": self.blank(), "suf": self.blank()}),
                            9 if call => json!({"o": "aexp", "flag": self.g.r.chance(50)}),
                            _ => json!({"o": "atc", "flag": self.g.r.chance(50)}),
                        }
                    }
                    (_, Expression::Object(_)) => match self.g.r.below(17) {
                        0 | 1 | 2 => json!({"o": "oins", "ent": self.entry()}),
                        12 | 13 => json!({"o": "oext", "ents": [self.entry(), self.entry(), self.entry()]}),
                        14 => json!({"o": "ofrom", "ents": [self.entry(), self.entry()], "flag": self.g.r.chance(50)}),
                        15 => json!({"o": "oinfo"}),
                        3 => json!({"o": "orem", "key": self.key_node()}),
                        4 => json!({"o": "oreme", "key": self.key_node()}),
                        5 if self.g.r.chance(30) => json!({"o": "oclr"}),
                        6 => json!({"o": "otr", "txt": self.blank()}),
                        7 => json!({"o": "okdec", "key": self.key_node(), "pre": self.blank(), "suf": self.blank()}),
                        8 | 9 => json!({"o": "oval", "key": self.key_node(), "ex": self.expr()}),
                        10 => json!({"o": "oall", "pre": self.blank(), "suf": self.blank(), "flag": self.g.r.chance(50),
                            "term": (["comma", "nl", "none"][self.g.r.below(3)])}),
                        _ => json!({"o": "oget", "key": self.key_node()}),
                    },
                    (_, Expression::HeredocTemplate(h)) => match self.g.r.below(7) {
                        0 => json!({"o": "hind", "ind": self.g.r.below(5)}),
                        1 => json!({"o": "htr", "txt": t(["", "  ", "\t"][self.g.r.below(3)])}),
                        2 => json!({"o": "hinfo"}),
                        3 | 4 => json!({"o": "hded"}),
                        _ => self.template_op(h.template.len()),
                    },
                    (_, Expression::StringTemplate(x)) => match self.g.r.below(10) {
                        0 => json!({"o": "xconv"}),
                        _ => self.template_op(x.len()),
                    },
                    _ => json!({"o": "dec", "pre": self.blank(), "suf": self.blank()}),
                }
            }
        };
        op["path"] = pj;
        op
    }
}

pub fn run(out: &mut Out, seed: u64, tier: &str, what: &str, input: &str) {
    if !input.is_empty() {
        let f = std::io::BufReader::new(std::fs::File::open(input).unwrap());
        for line in f.lines() {
            let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
            out.current(&v.to_string());
            out.put(&replay(&txt(&v["s"]), v["ops"].as_array().unwrap()));
        }
        return;
    }
    let n = if tier == "thorough" { 6000 } else { 900 };
    let mut h = Hist { g: Gen::new(seed ^ 0xed17, 15), exprs: vec![] };
    let mut i = 0;
    while i < n {
        h.g.noise = [0, 10, 30][i % 3];
        let mut s = h.g.body(1 + i % 2, true);
        if i % 6 == 5 && what == "body" {
            s = format!("b x {{\n}}\na = 1\nb {{}}\nb \"y\" z {{\n  c = 2\n}}\nc {{}}\nb y {{\n}}\nb {{ a = 1 }}\n{s}");
        } else if i % 5 != 4 && what == "expr" {
            s.clear();
            for k in 0..1 + i % 3 {
                s += &format!("k{k} = {}\n", h.g.compound(1 + i % 2));
            }
        } else if i % 5 == 4 && what == "expr" {
            s = format!("t = \"x${{a}}%{{ if b ~}} y %{{ else }}${{c}}%{{ endif }}\"\nu = <<-E\n    a ${{b}}\n      %{{ for k, v in d }}${{v}}\n    %{{~ endfor }}\n    E\n{s}");
        }
        if s.len() > 300 || has_hidden(&s) {
            continue;
        }
        let Ok(mut b) = s.parse::<Body>() else { continue };
        i += 1;
        let mut ops = vec![];
        for _ in 0..3 + i % 5 {
            let op = h.op(&mut b, what);
            out.current(&format!("{s}\n{ops:?}\n{op}"));
            let _ = catch_unwind(AssertUnwindSafe(|| apply(Node::Body(&mut b), &op)));
            ops.push(op);
        }
        let v = replay(&s, &ops);
        out.put(&v);
    }
}
