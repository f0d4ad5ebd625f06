//! Projects hcl-rs values onto the records the specification works with: the abstract syntax of
//! `dump.rs` without decor, except that template expressions are texts.

use crate::dump::{decimal, t};
use hcl::expr::*;
use hcl::structure::*;
use hcl::template::{Directive, Element, Strip, Template};
use hcl::{Identifier, Map, Value as HclValue};
use serde_json::{json, Value};

fn node(k: &str) -> serde_json::Map<String, Value> {
    let mut m = serde_json::Map::new();
    m.insert("k".into(), json!(k));
    for f in ["sp", "pre", "suf"] {
        m.insert(f.into(), json!([]));
    }
    m
}

fn with<const N: usize>(k: &str, fs: [(&str, Value); N]) -> Value {
    let mut m = node(k);
    for (f, v) in fs {
        m.insert(f.into(), v);
    }
    m.into()
}

pub fn id(k: &str, i: &Identifier) -> Value {
    with(k, [("id", t(i.as_str()))])
}

fn no_id() -> Value {
    with("id", [("id", json!([]))])
}

fn strip(s: Strip) -> Value {
    json!([s.strip_start(), s.strip_end()])
}

pub fn expr(e: &Expression) -> Value {
    match e {
        Expression::Null => with("null", []),
        Expression::Bool(b) => with("bool", [("b", json!(b))]),
        Expression::Number(n) => with("num", [("repr", json!([])), ("val", decimal(&n.to_string()))]),
        Expression::String(s) => with("str", [("sv", t(s))]),
        Expression::Array(a) => with(
            "arr",
            [("items", a.iter().map(expr).collect()), ("tc", json!(false)), ("tr", json!([]))],
        ),
        Expression::Object(o) => with(
            "obj",
            [
                (
                    "ents",
                    o.iter()
                        .map(|(k, v)| json!({"key": key(k), "asg": "=", "val": expr(v), "term": "none"}))
                        .collect(),
                ),
                ("tr", json!([])),
            ],
        ),
        Expression::TemplateExpr(te) => match &**te {
            TemplateExpr::QuotedString(s) => with("tpl", [("txt", t(s))]),
            TemplateExpr::Heredoc(h) => with(
                "hd",
                [
                    ("delim", t(h.delimiter.as_str())),
                    ("flush", json!(h.strip == HeredocStripMode::Indent)),
                    ("txt", t(&h.template)),
                ],
            ),
        },
        Expression::Parenthesis(e) => with("par", [("e", expr(e))]),
        Expression::Variable(v) => id("var", v),
        Expression::Conditional(c) => with(
            "cond",
            [("ce", expr(&c.cond_expr)), ("te", expr(&c.true_expr)), ("fe", expr(&c.false_expr))],
        ),
        Expression::FuncCall(f) => with(
            "fn",
            [
                ("ns", f.name.namespace.iter().map(|i| id("id", i)).collect()),
                ("name", id("id", &f.name.name)),
                ("args", f.args.iter().map(expr).collect()),
                ("exp", json!(f.expand_final)),
                ("tc", json!(false)),
                ("tr", json!([])),
            ],
        ),
        Expression::Traversal(v) => with(
            "trv",
            [("e", expr(&v.expr)), ("tops", v.operators.iter().map(top).collect())],
        ),
        Expression::Operation(o) => match &**o {
            Operation::Unary(u) => with(
                "un",
                [("uop", json!(u.operator.as_str())), ("osp", json!([])), ("e", expr(&u.expr))],
            ),
            Operation::Binary(b) => with(
                "bin",
                [
                    ("l", expr(&b.lhs_expr)),
                    ("op", with("op", [("o", json!(b.operator.as_str()))])),
                    ("r", expr(&b.rhs_expr)),
                ],
            ),
        },
        Expression::ForExpr(f) => with(
            "for",
            [
                ("isp", json!([])),
                ("ipre", json!([])),
                ("hask", json!(f.key_var.is_some())),
                ("kv", f.key_var.as_ref().map_or(no_id(), |i| id("id", i))),
                ("vv", id("id", &f.value_var)),
                ("coll", expr(&f.collection_expr)),
                ("haskey", json!(f.key_expr.is_some())),
                ("ke", f.key_expr.as_ref().map_or(with("null", []), expr)),
                ("ve", expr(&f.value_expr)),
                ("grp", json!(f.grouping)),
                ("hasc", json!(f.cond_expr.is_some())),
                ("cond", f.cond_expr.as_ref().map_or(with("null", []), expr)),
                ("csp", json!([])),
                ("cpre", json!([])),
                ("tr", json!([])),
            ],
        ),
        _ => unreachable!(),
    }
}

pub fn key(k: &ObjectKey) -> Value {
    match k {
        ObjectKey::Identifier(i) => id("id", i),
        ObjectKey::Expression(e) => expr(e),
        _ => unreachable!(),
    }
}

fn top(o: &TraversalOperator) -> Value {
    let inner = |tk: &str, id: Value| {
        json!({"tk": tk, "k": "top", "opre": [], "osp": [], "sp": [], "pre": [], "suf": [], "id": id})
    };
    match o {
        TraversalOperator::AttrSplat => inner("asp", json!([])),
        TraversalOperator::FullSplat => inner("fsp", json!([])),
        TraversalOperator::GetAttr(i) => inner("attr", t(i.as_str())),
        TraversalOperator::LegacyIndex(i) => inner("leg", t(&i.to_string())),
        TraversalOperator::Index(e) => json!({"tk": "idx", "k": "top", "opre": [], "osp": [], "ix": expr(e)}),
    }
}

pub fn template(v: &Template) -> Value {
    v.elements().iter().map(element).collect()
}

pub fn element(e: &Element) -> Value {
    match e {
        Element::Literal(l) => json!({"k": "lit", "sp": [], "lv": t(l)}),
        Element::Interpolation(i) => json!({"k": "itp", "sp": [], "st": strip(i.strip), "e": expr(&i.expr)}),
        Element::Directive(d) => match &**d {
            Directive::If(d) => json!({"k": "ifd", "sp": [],
                "ist": strip(d.if_strip), "ipre": [], "ic": expr(&d.cond_expr),
                "it": template(&d.true_template), "isp": [],
                "hase": d.false_template.is_some(), "est": strip(d.else_strip), "epre": [], "etr": [],
                "et": d.false_template.as_ref().map_or(json!([]), template), "esp": [],
                "nst": strip(d.endif_strip), "npre": [], "ntr": []}),
            Directive::For(d) => json!({"k": "fod", "sp": [],
                "fst": strip(d.for_strip), "fpre": [], "hask": d.key_var.is_some(),
                "kv": d.key_var.as_ref().map_or(no_id(), |i| id("id", i)), "vv": id("id", &d.value_var),
                "coll": expr(&d.collection_expr), "ft": template(&d.template), "fsp": [],
                "nst": strip(d.endfor_strip), "npre": [], "ntr": []}),
        },
    }
}

pub fn body(b: &Body) -> Value {
    with(
        "body",
        [("ss", b.iter().map(structure).collect()), ("one", json!(false)), ("omit", json!(false))],
    )
}

pub fn structure(s: &Structure) -> Value {
    match s {
        Structure::Attribute(a) => attr(a),
        Structure::Block(b) => block(b),
    }
}

pub fn attr(a: &Attribute) -> Value {
    with("attr", [("key", id("id", &a.key)), ("val", expr(&a.expr))])
}

pub fn label(l: &BlockLabel) -> Value {
    match l {
        BlockLabel::String(s) => with("lstr", [("lsv", t(s))]),
        BlockLabel::Identifier(i) => id("lid", i),
    }
}

pub fn block(b: &Block) -> Value {
    let labels = b.labels.iter().map(label).collect();
    with(
        "block",
        [("bid", id("id", &b.identifier)), ("labels", labels), ("body", body(&b.body))],
    )
}

/// Values, with objects as lists of key/value pairs.
pub fn value(v: &HclValue) -> Value {
    match v {
        HclValue::Null => json!({"t": "null"}),
        HclValue::Bool(b) => json!({"t": "bool", "v": b}),
        HclValue::Number(n) => json!({"t": "num", "v": decimal(&n.to_string())}),
        HclValue::String(s) => json!({"t": "str", "v": t(s)}),
        HclValue::Array(a) => json!({"t": "arr", "v": a.iter().map(value).collect::<Vec<_>>()}),
        HclValue::Object(o) => json!({"t": "obj", "v": map(o)}),
    }
}

pub fn map(o: &Map<String, HclValue>) -> Value {
    o.iter().map(|(k, v)| json!([t(k), value(v)])).collect()
}
