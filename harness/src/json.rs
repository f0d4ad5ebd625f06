//! Observations of the mapping of documents and expressions to values.

use crate::dump::{decimal, t};
use crate::gen::Gen;
use crate::{format, rs, Out};
use hcl::expr::Expression;
use hcl::structure::Body;
use hcl::Value as HclValue;
use serde::Deserialize;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// serde_json's own values in the form of `rs::value`.
pub fn plain(v: &Value) -> Value {
    match v {
        Value::Null => json!({"t": "null"}),
        Value::Bool(b) => json!({"t": "bool", "v": b}),
        Value::Number(n) => json!({"t": "num", "v": decimal(&n.to_string())}),
        Value::String(s) => json!({"t": "str", "v": t(s)}),
        Value::Array(a) => json!({"t": "arr", "v": a.iter().map(plain).collect::<Vec<_>>()}),
        Value::Object(o) => json!({"t": "obj", "v": o.iter().map(|(k, v)| json!([t(k), plain(v)])).collect::<Vec<_>>()}),
    }
}

fn route<T, E>(f: impl FnOnce() -> Result<T, E>, g: impl Fn(&T) -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => json!({"r": "ok", "v": g(&v)}),
        Ok(Err(_)) => json!({"r": "err"}),
        Err(_) => json!({"r": "panic"}),
    }
}

type Never = std::convert::Infallible;

fn body(out: &mut Out, b: &Body, text: Option<&str>) {
    let val = route(|| Ok::<_, Never>(HclValue::from(b.clone())), rs::value);
    let expr = route(|| Ok::<_, Never>(Expression::from(b.clone())), rs::expr);
    let mut de = vec![
        route(|| hcl::from_body::<HclValue>(b.clone()), rs::value),
        route(|| hcl::from_body::<Value>(b.clone()), plain),
        route(|| HclValue::deserialize(hcl::de::Deserializer::from_body(b.clone())), rs::value),
    ];
    if let Some(s) = text {
        de.push(route(|| hcl::from_str::<HclValue>(s), rs::value));
        de.push(route(|| hcl::from_slice::<HclValue>(s.as_bytes()), rs::value));
        de.push(route(|| hcl::from_reader::<HclValue, _>(s.as_bytes()), rs::value));
        de.push(route(|| hcl::from_str::<Value>(s), plain));
    }
    // Values which are values already stay what they are.
    let v = HclValue::from(b.clone());
    let back = route(|| Ok::<_, Never>(HclValue::from(Expression::from(v.clone()))), rs::value);
    out.put(&json!({"m": "body", "s": t(text.unwrap_or("")), "tree": rs::body(b), "val": val, "expr": expr, "de": de, "back": back}));
}

fn expr(out: &mut Out, e: &Expression, text: &str) {
    let val = route(|| Ok::<_, Never>(HclValue::from(e.clone())), rs::value);
    let de = vec![
        route(|| HclValue::deserialize(e.clone()), rs::value),
        route(|| Value::deserialize(e.clone()), plain),
    ];
    let v = HclValue::from(e.clone());
    let back = route(|| Ok::<_, Never>(HclValue::from(Expression::from(v.clone()))), rs::value);
    out.put(&json!({"m": "expr", "s": t(text), "tree": rs::expr(e), "val": val, "de": de, "back": back}));
}

/// Documents given as lists of the texts of their structures.
fn replay(out: &mut Out, file: &str) {
    for line in std::fs::read_to_string(file).unwrap().lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let items: Vec<String> = v["text"].as_array().unwrap().iter().map(crate::build::txt).collect();
        let s = items.concat();
        out.current(&s);
        let b: Body = items.iter().flat_map(|i| i.parse::<Body>().unwrap()).collect();
        // Attributes with the same name are possible only in trees.
        let ok = s.parse::<Body>().is_ok();
        body(out, &b, ok.then_some(&s));
    }
}

pub fn structures(g: &mut Gen, d: usize, s: &mut String) {
    for _ in 0..g.r.below(5) {
        let name = g.r.pick(&["a", "b", "c"]);
        if g.r.chance(25) {
            let e = if g.r.chance(70) { g.number() } else { g.expr(1, false) };
            s.push_str(&format!("{name} = {e}\n"));
        } else {
            s.push_str(name);
            for _ in 0..g.r.below(4) {
                s.push_str(g.r.pick(&[" a", " b", " \"a\"", " \"b\"", " \"x y\""]));
            }
            s.push_str(" {\n");
            if d > 0 {
                structures(g, d - 1, s);
            }
            s.push_str("}\n");
        }
    }
}

pub fn run(out: &mut Out, seed: u64, tier: &str, file: &str) {
    if !file.is_empty() {
        return replay(out, file);
    }
    let n = if tier == "thorough" { 20000 } else { 2500 };
    let mut g = Gen::new(seed ^ 0x75, 5);
    for i in 0..n {
        g.noise = [0, 10][i % 2];
        let mut s = String::new();
        match i % 4 {
            0 => structures(&mut g, 2, &mut s),
            1 => s = g.body(1 + i % 3, true),
            _ => s = g.expr(1 + i % 3, false),
        }
        if s.chars().count() > 500 {
            continue;
        }
        out.current(&s);
        if i % 4 < 2 {
            let Ok(b) = s.parse::<Body>() else { continue };
            body(out, &b, Some(&s));
            // Merged trees, with strings no text has and attributes more than once.
            if g.r.chance(40) {
                let mut c = b.clone();
                format::shake_body(&mut c, &mut g.r);
                let both: Body = b.into_iter().chain(c).collect();
                body(out, &both, None);
            }
        } else {
            let Ok(mut e) = s.parse::<Expression>() else { continue };
            if g.r.chance(40) {
                format::shake(&mut e, &mut g.r);
            }
            expr(out, &e, &s);
        }
    }
}
