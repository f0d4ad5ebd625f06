//! Expressions and structures read as the types of hcl-rs they are made of.

use crate::data::route;
use crate::format;
use crate::gen::{Gen, Rng};
use crate::rs;
use crate::Out;
use hcl::expr::*;
use hcl::structure::*;
use hcl::Identifier;
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Deserialize)]
struct A<T> {
    a: T,
}
#[derive(Deserialize)]
struct B<T> {
    b: A<T>,
}
#[derive(Deserialize)]
enum W<T> {
    #[allow(dead_code)]
    V(u8),
    W(T),
}
#[derive(Deserialize)]
struct N<T>(T);

fn attr(e: Expression) -> Body {
    Body::from(vec![Structure::Attribute(Attribute::new(Identifier::unchecked("a"), e))])
}

/// Every way of reading the type.
fn ways<T: DeserializeOwned>(e: &Expression, f: impl Fn(&T) -> Value) -> Vec<Value> {
    let obj = |n: &str| Expression::from_iter([(ObjectKey::from(Identifier::unchecked(n)), e.clone())]);
    let block = || Body::from(vec![Structure::Block(Block::builder("b").add_structures(attr(e.clone())).build())]);
    let mut got = vec![
        route(|| T::deserialize(e.clone()), &f),
        route(|| T::deserialize(e.clone().into_deserializer()), &f),
        route(|| T::deserialize(Expression::Parenthesis(Box::new(e.clone()))), &f),
        route(|| hcl::from_body::<A<T>>(attr(e.clone())), |x| f(&x.a)),
        route(|| hcl::from_body::<BTreeMap<String, T>>(attr(e.clone())), |x| f(&x["a"])),
        route(|| hcl::from_body::<B<T>>(block()), |x| f(&x.b.a)),
        route(|| Vec::<T>::deserialize(Expression::Array(vec![e.clone()])), |x| f(&x[0])),
        route(|| <(T, bool)>::deserialize(Expression::Array(vec![e.clone(), Expression::Bool(true)])), |x| f(&x.0)),
        route(|| Option::<T>::deserialize(e.clone()), |x| x.as_ref().map_or(json!("none"), &f)),
        route(|| Box::<T>::deserialize(e.clone()), |x| f(x)),
        route(|| A::<T>::deserialize(obj("a")), |x| f(&x.a)),
        route(|| W::<T>::deserialize(obj("W")), |x| match x {
            W::W(x) => f(x),
            W::V(_) => json!("V"),
        }),
        route(|| N::<T>::deserialize(e.clone()), |x| f(&x.0)),
    ];
    let text = hcl::to_string(&attr(e.clone()));
    if let Some(s) = text.ok().filter(|s| s.parse::<Body>().ok() == Some(attr(e.clone()))) {
        got.push(route(|| hcl::from_str::<A<T>>(&s), |x| f(&x.a)));
        got.push(route(|| hcl::from_slice::<A<T>>(s.as_bytes()), |x| f(&x.a)));
        got.push(route(|| hcl::from_reader::<A<T>, _>(s.as_bytes()), |x| f(&x.a)));
    }
    got
}

fn unary(u: &UnaryOp) -> Expression {
    Expression::Operation(Box::new(Operation::Unary(u.clone())))
}
fn binary(b: &BinaryOp) -> Expression {
    Expression::Operation(Box::new(Operation::Binary(b.clone())))
}
fn heredoc(h: &Heredoc) -> Expression {
    Expression::TemplateExpr(Box::new(TemplateExpr::Heredoc(h.clone())))
}

fn one(out: &mut Out, e: &Expression, r: &mut Rng) {
    let mut put = |ty: &str, got: Vec<Value>| {
        out.put(&json!({"k": "own", "ty": ty, "in": rs::expr(e), "got": got}));
    };
    let mut got = ways::<Expression>(e, rs::expr);
    // options are none for null, and an expression keeps its parentheses
    got.remove(8);
    got.remove(2);
    put("Expression", got);
    let mut inner = e;
    while let Expression::Parenthesis(e) = inner {
        inner = e;
    }
    // These can also be data which look like the node.
    let skip = matches!(inner, Expression::Null | Expression::Bool(_) | Expression::Number(_) | Expression::String(_) | Expression::Array(_) | Expression::Object(_));
    if skip {
        return;
    }
    // its own types, and a few others
    macro_rules! read {
        ($($n:literal $ty:ty: $f:expr, $own:ident;)*) => {
            $(if matches!(inner, Expression::$own(_)) || r.chance(20) {
                put($n, ways::<$ty>(e, $f));
            })*
        };
    }
    read! {
        "FuncCall" FuncCall: |x| rs::expr(&Expression::from(x.clone())), FuncCall;
        "Conditional" Conditional: |x| rs::expr(&Expression::from(x.clone())), Conditional;
        "ForExpr" ForExpr: |x| rs::expr(&Expression::from(x.clone())), ForExpr;
        "Traversal" Traversal: |x| rs::expr(&Expression::from(x.clone())), Traversal;
        "Operation" Operation: |x| rs::expr(&Expression::from(x.clone())), Operation;
        "UnaryOp" UnaryOp: |x| rs::expr(&unary(x)), Operation;
        "BinaryOp" BinaryOp: |x| rs::expr(&binary(x)), Operation;
        "TemplateExpr" TemplateExpr: |x| rs::expr(&Expression::from(x.clone())), TemplateExpr;
        "Heredoc" Heredoc: |x| rs::expr(&heredoc(x)), TemplateExpr;
        "Variable" Variable: |x| rs::expr(&Expression::from(x.clone())), Variable;
    }
    // The types read from themselves.
    let it = match e {
        Expression::FuncCall(x) => route(|| FuncCall::deserialize(x.clone().into_deserializer()), |x| rs::expr(&Expression::from(x.clone()))),
        Expression::Conditional(x) => route(|| Conditional::deserialize(x.clone().into_deserializer()), |x| rs::expr(&Expression::from(x.clone()))),
        Expression::ForExpr(x) => route(|| ForExpr::deserialize(x.clone().into_deserializer()), |x| rs::expr(&Expression::from(x.clone()))),
        Expression::Traversal(x) => route(|| Traversal::deserialize(x.clone().into_deserializer()), |x| rs::expr(&Expression::from(x.clone()))),
        Expression::Operation(x) => route(|| Operation::deserialize(x.as_ref().clone()), |x| rs::expr(&Expression::from(x.clone()))),
        Expression::TemplateExpr(x) => route(|| TemplateExpr::deserialize(x.as_ref().clone()), |x| rs::expr(&Expression::from(x.clone()))),
        Expression::Variable(x) => route(|| Variable::deserialize(x.clone().into_deserializer()), |x| rs::expr(&Expression::from(x.clone()))),
        _ => return,
    };
    put("Expression", vec![it]);
}

fn parts(out: &mut Out, e: &Expression, r: &mut Rng) {
    one(out, e, r);
    match e {
        Expression::Array(es) => es.iter().for_each(|e| parts(out, e, r)),
        Expression::Object(o) => o.values().for_each(|e| parts(out, e, r)),
        Expression::Parenthesis(e) => parts(out, e, r),
        Expression::Traversal(t) => parts(out, &t.expr, r),
        Expression::FuncCall(f) => f.args.iter().for_each(|e| parts(out, e, r)),
        Expression::Operation(o) => match &**o {
            Operation::Unary(u) => parts(out, &u.expr, r),
            Operation::Binary(b) => {
                parts(out, &b.lhs_expr, r);
                parts(out, &b.rhs_expr, r);
            }
        },
        Expression::Conditional(c) => {
            parts(out, &c.cond_expr, r);
            parts(out, &c.true_expr, r);
        }
        Expression::ForExpr(f) => {
            parts(out, &f.collection_expr, r);
            parts(out, &f.value_expr, r);
        }
        _ => {}
    }
}

fn body(out: &mut Out, b: &Body, s: &str, r: &mut Rng) {
    let own = |out: &mut Out, ty: &str, of: Value, got: Vec<Value>| out.put(&json!({"k": "own", "ty": ty, "in": of, "got": got}));
    let mut got = vec![
        route(|| hcl::from_body::<Body>(b.clone()), rs::body),
        route(|| Body::deserialize(b.clone().into_deserializer()), rs::body),
        route(|| Option::<Body>::deserialize(hcl::de::Deserializer::from_body(b.clone())), |x| x.as_ref().map_or(json!("none"), rs::body)),
    ];
    if s.parse::<Body>().ok().as_ref() == Some(b) {
        got.push(route(|| hcl::from_str::<Body>(s), rs::body));
        got.push(route(|| hcl::from_slice::<Body>(s.as_bytes()), rs::body));
        got.push(route(|| hcl::from_reader::<Body, _>(s.as_bytes()), rs::body));
    }
    own(out, "Body", rs::body(b), got);
    for st in b.iter() {
        let one = |s: &Structure| rs::structure(s);
        own(out, "Structure", one(st), vec![route(|| Structure::deserialize(st.clone().into_deserializer()), one)]);
        let as_attr = route(|| Attribute::deserialize(st.clone()), |x| one(&Structure::Attribute(x.clone())));
        own(out, "Attribute", one(st), vec![as_attr]);
        let as_block = route(|| Block::deserialize(st.clone()), |x| one(&Structure::Block(x.clone())));
        own(out, "Block", one(st), vec![as_block]);
        match st {
            Structure::Attribute(a) => {
                let got = route(|| Attribute::deserialize(a.clone().into_deserializer()), |x| one(&Structure::Attribute(x.clone())));
                own(out, "Structure", one(st), vec![got]);
                parts(out, a.expr(), r);
            }
            Structure::Block(b) => {
                let got = route(|| Block::deserialize(b.clone().into_deserializer()), |x| one(&Structure::Block(x.clone())));
                own(out, "Structure", one(st), vec![got]);
                for l in b.labels() {
                    let got = route(|| BlockLabel::deserialize(l.clone().into_deserializer()), rs::label);
                    own(out, "BlockLabel", rs::label(l), vec![got]);
                }
            }
        }
    }
}

pub fn run(out: &mut Out, seed: u64, tier: &str) {
    let n = if tier == "thorough" { 10000 } else { 250 };
    let mut g = Gen::new(seed ^ 0x0a11, 0);
    for i in 0..n {
        g.noise = [0, 5][i % 2];
        let text = match i % 5 {
            0 => format!("a = {}\n", g.compound(2)),
            1 => format!("a = {}\n", g.expr(2, false)),
            2 => format!("a = {} ? {} : {}\n", g.expr(1, false), g.compound(1), g.expr(0, false)),
            3 => format!("a = {}\n", node(&mut g)),
            _ => g.body(1, true),
        };
        if text.chars().count() > 140 {
            continue;
        }
        out.current(&text);
        let Ok(mut b) = text.parse::<Body>() else { continue };
        body(out, &b, &text, &mut g.r);
        format::shake_body(&mut b, &mut g.r);
        body(out, &b, "", &mut g.r);
    }
}

/// A node with some of its parts.
fn node(g: &mut Gen) -> String {
    let part = |g: &mut Gen, n: &str| if g.r.chance(50) { n.to_owned() } else { String::new() };
    let x = g.expr(0, false);
    let y = g.expr(0, false);
    match g.r.below(6) {
        0..=2 => {
            let args = match g.r.below(4) {
                0 => String::new(),
                1 | 2 => format!("{x}{}", part(g, "...")),
                _ => format!("{x}, {y}{}", part(g, "...")),
            };
            let ns = format!("{}{}", part(g, "a::"), part(g, "b::"));
            format!("{ns}f({args})")
        }
        3 => format!("[for {}v in {x} : {y}{}]", part(g, "k, "), part(g, " if v")),
        4 => format!("{{for {}v in {x} : v => {y}{}{}}}", part(g, "k, "), part(g, "..."), part(g, " if v")),
        _ => {
            let ops: Vec<&str> = (0..=g.r.below(3)).map(|_| g.r.pick(&[".a", "[0]", ".0", ".*", "[*]", "[\"k\"]", ".0.1"])).collect();
            format!("({x}){}", ops.concat())
        }
    }
}
