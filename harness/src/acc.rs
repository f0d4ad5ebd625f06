//! What nodes say they are and give access to, see HclAccess.tla.


use crate::dump::{t, Dump};
use crate::gen::Gen;
use crate::rs;
use crate::Out;
use hcl_edit::expr::*;
use hcl_edit::structure::*;
use hcl_edit::template::*;
use hcl_edit::{Decorate, Ident, Span};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

const BARE: Dump = Dump { bare: true, unset: false, spans: false };
const FULL: Dump = Dump { bare: false, unset: false, spans: false };

/// The names of what holds.
fn names(xs: &[(&str, bool)]) -> Value {
    xs.iter().filter(|x| x.1).map(|x| json!(x.0)).collect()
}
fn given(xs: Vec<(&str, Option<Value>)>) -> Value {
    xs.into_iter().filter_map(|(n, v)| v.map(|v| json!({"n": n, "v": v}))).collect()
}
fn put(out: &mut Out, k: &str, f: impl FnOnce() -> Value) {
    let mut o = catch_unwind(AssertUnwindSafe(f)).unwrap_or(json!({"fine": false}));
    o["k"] = json!(k);
    if o["fine"].is_null() {
        o["fine"] = json!(true);
    }
    out.put(&o);
}
fn maybe(v: Option<Value>) -> Value {
    v.into_iter().collect()
}

fn expr(e: &Expression) -> Value {
    let d = |e: Expression| BARE.expr(&e);
    let mut pushed = e.clone();
    let arr = pushed.as_array_mut().map(|a| a.push(Expression::null())).is_some();
    let mut put = e.clone();
    let obj = put.as_object_mut().map(|o| o.clear()).is_some();
    json!({
        "node": BARE.expr(e),
        "is": names(&[
            ("null", e.is_null()), ("bool", e.is_bool()), ("number", e.is_number()), ("str", e.is_str()), ("array", e.is_array()),
            ("object", e.is_object()), ("template", e.is_template()), ("string_template", e.is_string_template()),
            ("heredoc_template", e.is_heredoc_template()), ("parenthesis", e.is_parenthesis()), ("variable", e.is_variable()),
            ("conditional", e.is_conditional()), ("func_call", e.is_func_call()), ("traversal", e.is_traversal()),
            ("unary_op", e.is_unary_op()), ("binary_op", e.is_binary_op()), ("for_expr", e.is_for_expr()),
        ]),
        "as": given(vec![
            ("bool", e.as_bool().map(|x| d(x.into()))),
            ("number", e.as_number().map(|x| d(x.clone().into()))),
            ("str", e.as_str().map(|x| d(x.into()))),
            ("array", e.as_array().map(|x| d(x.clone().into()))),
            ("object", e.as_object().map(|x| d(x.clone().into()))),
            ("string_template", e.as_string_template().map(|x| d(x.clone().into()))),
            ("heredoc_template", e.as_heredoc_template().map(|x| d(x.clone().into()))),
            ("parenthesis", e.as_parenthesis().map(|x| d(x.clone().into()))),
            ("variable", e.as_variable().map(|x| d(x.clone().into()))),
            ("conditional", e.as_conditional().map(|x| d(x.clone().into()))),
            ("func_call", e.as_func_call().map(|x| d(x.clone().into()))),
            ("traversal", e.as_traversal().map(|x| d(x.clone().into()))),
            ("unary_op", e.as_unary_op().map(|x| d(x.clone().into()))),
            ("binary_op", e.as_binary_op().map(|x| d(x.clone().into()))),
            ("for_expr", e.as_for_expr().map(|x| d(x.clone().into()))),
        ]),
        "els": maybe(e.as_template().map(|x| BARE.template(x))),
        "ns": maybe(e.as_func_call().map(|f| json!(f.name.is_namespaced()))),
        "pushed": maybe(arr.then(|| BARE.expr(&pushed))),
        "cleared": maybe(obj.then(|| BARE.expr(&put))),
    })
}

fn struc(s: &Structure) -> Value {
    let a = |a: &Attribute| BARE.attr(a);
    let b = |b: &Block| BARE.block(b);
    let s_ = |s: &Structure| BARE.structure(s);
    let res = |ok: bool, v: Value| json!({"ok": ok, "v": v});
    let mut via = s.clone();
    if let Some(a) = via.as_attribute_mut() {
        a.value = Expression::null();
    }
    if let Some(b) = via.as_block_mut() {
        b.labels.clear();
    }
    // the same by way of the view of a mutable iterator, with new decor
    let mut body = Body::from(vec![s.clone()]);
    let (mut is, mut as_, mut spans) = (json!(null), json!(null), vec![]);
    for mut m in &mut body {
        is = names(&[("attribute", m.is_attribute()), ("block", m.is_block())]);
        as_ = given(vec![("attribute", m.as_attribute().map(a)), ("block", m.as_block().map(b))]);
        spans.push(m.span() == s.span() && m.decor() == s.decor());
        if let Some(mut x) = m.as_attribute_mut() {
            spans.push(x.span() == s.span() && x.decor() == s.decor() && Some(x.get()) == s.as_attribute());
            *x.value_mut() = Expression::null();
            x.key_decor_mut().set_suffix("\t");
            x.decor_mut().set_prefix(" ");
        }
        if let Some(x) = m.as_block_mut() {
            x.labels.clear();
        }
        m.decor_mut().set_suffix("  ");
    }
    json!({
        "node": BARE.structure(s),
        "is": [names(&[("attribute", s.is_attribute()), ("block", s.is_block())]), is],
        "as": [given(vec![("attribute", s.as_attribute().map(a)), ("block", s.as_block().map(b))]), as_],
        "into": {
            "attribute": s.clone().into_attribute().map_or_else(|s| res(false, s_(&s)), |x| res(true, a(&x))),
            "block": s.clone().into_block().map_or_else(|s| res(false, s_(&s)), |x| res(true, b(&x))),
        },
        "changed": [BARE.structure(&via), BARE.structure(body.get(0).unwrap())],
        "full": FULL.structure(s),
        "decorated": FULL.structure(body.get(0).unwrap()),
        "spans": spans,
    })
}

fn key(k: &ObjectKey, hk: &hcl::expr::ObjectKey) -> Value {
    let mut o: Object = [(k.clone(), ObjectValue::new(Expression::null()))].into_iter().collect();
    let mut same = false;
    for (mut m, _) in &mut o {
        same = m.span() == k.span() && m.decor() == k.decor() && m.get() == k && *m == *k;
        m.decorate((" ", "  "));
    }
    let (k2, _) = o.iter().next().unwrap();
    let ident = |i: &Ident| BARE.key(&ObjectKey::from(i.clone()));
    json!({
        "node": BARE.key(k), "full": FULL.key(k), "decorated": FULL.key(k2), "spans": [same],
        "is": names(&[("ident", k.is_ident()), ("expr", k.is_expr())]),
        "as": given(vec![("ident", k.as_ident().map(ident)), ("expr", k.as_expr().map(|e| BARE.expr(e)))]),
        "rnode": rs::key(hk), "display": t(&hk.to_string()),
    })
}

fn element(e: &Element) -> Value {
    let d = |e: Element| BARE.element(&e);
    json!({
        "node": BARE.element(e),
        "is": names(&[("literal", e.is_literal()), ("interpolation", e.is_interpolation()), ("directive", e.is_directive())]),
        "as": given(vec![
            ("literal", e.as_literal().map(|x| d(Element::Literal(x.clone())))),
            ("interpolation", e.as_interpolation().map(|x| d(x.clone().into()))),
            ("directive", e.as_directive().map(|x| d(x.clone().into()))),
        ]),
    })
}

fn label(l: &BlockLabel) -> Value {
    let b = Block::builder(Ident::new("b")).label(l.clone()).build();
    let node = BARE.block(&b)["labels"][0].clone();
    json!({"node": node, "is": names(&[("ident", l.is_ident()), ("string", l.is_string())]), "s": t(l.as_str())})
}

fn rstruc(s: &hcl::Structure) -> Value {
    use hcl::structure::*;
    let a = |a: &Attribute| rs::attr(a);
    let b = |b: &Block| rs::block(b);
    let mut via = s.clone();
    if let Some(a) = via.as_attribute_mut() {
        a.expr = hcl::Expression::Null;
    }
    if let Some(b) = via.as_block_mut() {
        b.labels.clear();
    }
    json!({
        "node": rs::structure(s),
        "is": [names(&[("attribute", s.is_attribute()), ("block", s.is_block())])],
        "as": [
            given(vec![("attribute", s.as_attribute().map(a)), ("block", s.as_block().map(b))]),
            given(vec![("attribute", s.clone().into_attribute().map(|x| a(&x))), ("block", s.clone().into_block().map(|x| b(&x)))]),
        ],
        "changed": [rs::structure(&via)],
        "parts": match s {
            Structure::Attribute(a) => json!({"key": t(a.key()), "val": rs::expr(a.expr()), "ident": [], "labels": [], "body": []}),
            Structure::Block(b) => json!({"key": [], "val": [], "ident": t(b.identifier()),
                                          "labels": b.labels().iter().map(rs::label).collect::<Vec<_>>(), "body": rs::body(b.body())}),
        },
    })
}

fn value(v: &hcl::Value) -> Value {
    use hcl::Value as V;
    let n = match v {
        V::Number(n) => Some(n),
        _ => None,
    };
    let nums = [
        (v.is_f64(), n.is_some_and(|n| n.is_f64())), (v.is_i64(), n.is_some_and(|n| n.is_i64())), (v.is_u64(), n.is_some_and(|n| n.is_u64())),
        (v.as_f64() == n.and_then(|n| n.as_f64()), true), (v.as_i64() == n.and_then(|n| n.as_i64()), true), (v.as_u64() == n.and_then(|n| n.as_u64()), true),
        (n.is_some() && v.as_f64().is_none(), false),
    ];
    let d = |v: V| rs::value(&v);
    let mut pushed = v.clone();
    let arr = pushed.as_array_mut().map(|a| a.push(V::Null)).is_some();
    let mut cleared = v.clone();
    let obj = cleared.as_object_mut().map(|o| o.clear()).is_some();
    let mut left = v.clone();
    let taken = left.take();
    json!({
        "node": rs::value(v),
        "is": names(&[("null", v.is_null()), ("bool", v.is_boolean()), ("number", v.is_number()), ("str", v.is_string()), ("array", v.is_array()), ("object", v.is_object())]),
        "as": given(vec![
            ("null", v.as_null().map(|_| d(V::Null))), ("bool", v.as_bool().map(|x| d(x.into()))), ("number", v.as_number().map(|x| d(x.clone().into()))),
            ("str", v.as_str().map(|x| d(x.into()))), ("array", v.as_array().map(|x| d(V::Array(x.clone())))), ("object", v.as_object().map(|x| d(V::Object(x.clone())))),
        ]),
        "nums": nums.iter().map(|(a, b)| json!(a == b)).collect::<Vec<_>>(),
        "pushed": maybe(arr.then(|| rs::value(&pushed))),
        "cleared": maybe(obj.then(|| rs::value(&cleared))),
        "taken": rs::value(&taken),
        "left": rs::value(&left),
    })
}

fn rfunc(f: &hcl::expr::FuncCall) -> Value {
    json!({"node": rs::expr(&f.clone().into()), "ns": f.name.is_namespaced()})
}
/// All nodes of a body.
#[derive(Default)]
struct All(Vec<Expression>, Vec<ObjectKey>, Vec<Element>, Vec<Structure>, Vec<BlockLabel>);
impl<'a> hcl_edit::visit::Visit for All {
    fn visit_expr(&mut self, e: &Expression) {
        self.0.push(e.clone());
        hcl_edit::visit::visit_expr(self, e);
    }
    fn visit_object_key(&mut self, k: &ObjectKey) {
        self.1.push(k.clone());
        hcl_edit::visit::visit_object_key(self, k);
    }
    fn visit_element(&mut self, e: &Element) {
        self.2.push(e.clone());
        hcl_edit::visit::visit_element(self, e);
    }
    fn visit_structure(&mut self, s: &Structure) {
        self.3.push(s.clone());
        hcl_edit::visit::visit_structure(self, s);
    }
    fn visit_block_label(&mut self, l: &BlockLabel) {
        self.4.push(l.clone());
        hcl_edit::visit::visit_block_label(self, l);
    }
}

pub fn run(out: &mut Out, seed: u64, tier: &str) {
    let mut g = Gen::new(seed ^ 0xacc, 0);
    let max = if tier == "thorough" { 60000 } else { 6000 };
    for i in 0.. {
        if out.n >= max {
            break;
        }
        g.noise = [0, 10][i % 2];
        let s = g.body(2, true);
        if s.chars().count() > 200 {
            continue;
        }
        // parsed documents keep their spans
        let Ok(b) = hcl_edit::parser::parse_body(&s) else { continue };
        let mut all = All::default();
        hcl_edit::visit::Visit::visit_body(&mut all, &b);
        all.0.iter().for_each(|e| put(out, "expr", || expr(e)));
        all.1.iter().for_each(|k| put(out, "key", || key(k, &k.clone().into())));
        all.2.iter().for_each(|e| put(out, "element", || element(e)));
        all.3.iter().for_each(|s| put(out, "struct", || struc(s)));
        all.4.iter().for_each(|l| put(out, "label", || label(l)));
        let b: hcl::Body = b.into();
        b.iter().for_each(|s| put(out, "rstruct", || rstruc(s)));
        for e in &all.0 {
            if let hcl::Expression::FuncCall(f) = hcl::Expression::from(e.clone()) {
                put(out, "rfunc", || rfunc(&f));
            }
        }
        let v = crate::format::value(&mut g.r, 2);
        put(out, "value", || value(&v));
    }
}
