//! Histories of calls: serializers called one after another, and by implementations which run for
//! another serializer, which may also fail or panic. One Serializer and one Formatter are used
//! throughout.

use crate::data::{data_of, route, Rand, D};
use crate::dump::t;
use crate::gen::Gen;
use crate::json as plain_json;
use crate::{rs, Out};
use hcl::format::{Format, Formatter};
use hcl::ser::Serializer;
use serde_json::{json, Value};

fn utf8(v: Vec<u8>) -> String {
    String::from_utf8(v).unwrap()
}

fn text(s: &String) -> Value {
    t(s)
}

fn done(_: &()) -> Value {
    json!({"k": "done"})
}

/// Makes the calls, in a thread of their own.
fn history(calls: &[(String, D)]) -> Value {
    std::thread::scope(|scope| scope.spawn(|| played(calls)).join().unwrap())
}

fn played(calls: &[(String, D)]) -> Value {
    let mut ser = Serializer::new(vec![]);
    let mut fmt = Formatter::builder().prefer_ident_keys(false).build(vec![]);
    let calls: Vec<Value> = calls
        .iter()
        .enumerate()
        .map(|(i, (op, x))| {
            let bytes = i % 2 == 1;
            let o = match op.as_str() {
                "string" => route(|| hcl::to_string(x), text),
                "vec" => route(|| hcl::to_vec(x).map(utf8), text),
                "writer" => {
                    let mut w = vec![];
                    route(|| hcl::to_writer(&mut w, x).map(|()| utf8(w)), text)
                }
                "expr" => route(|| hcl::expr::to_expression(x), rs::expr),
                "value" => route(|| hcl::to_value(x), rs::value),
                "json" => route(|| serde_json::to_value(x), plain_json::plain),
                "add" => route(|| ser.serialize(x), done),
                "take" if bytes => route(|| ser.serialize_vec(x).map(utf8), text),
                "take" => route(|| ser.serialize_string(x), text),
                "fadd" | "ftake" => {
                    let D::Body(b) = x else { panic!("no body") };
                    match op.as_str() {
                        "fadd" => route(|| b.format(&mut fmt), done),
                        _ if bytes => route(|| b.format_vec(&mut fmt).map(utf8), text),
                        _ => route(|| b.format_string(&mut fmt), text),
                    }
                }
                op => panic!("call {op}"),
            };
            json!({"op": op, "x": x.dump(), "o": o})
        })
        .collect();
    json!({ "calls": calls })
}

pub fn run(out: &mut Out, seed: u64, tier: &str, file: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    if !file.is_empty() {
        for line in std::fs::read_to_string(file).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            let mut calls: Vec<(String, D)> =
                v["calls"].as_array().unwrap().iter().map(|c| (c["op"].as_str().unwrap().to_string(), data_of(&c["x"]))).collect();
            // and something which would show what is left behind
            let probe = calls[0].1.clone();
            calls.push(("value".into(), probe));
            out.current(line);
            out.put(&history(&calls));
        }
        return;
    }
    // the known finding
    let x = D::Struct(vec![("a", D::Via("json", Box::new(D::Expr("[a]".parse().unwrap()))))]);
    let mut h = history(&[("string".into(), x)]);
    h["s"] = json!("hcl::to_string of an implementation which calls serde_json::to_value on the expression [a]");
    h["got"] = h["calls"][0]["o"]["v"].clone();
    out.put(&h);
    let n = if tier == "thorough" { 15000 } else { 1500 };
    let mut g = Gen::new(seed ^ 0x5e55, 0);
    for i in 0..n {
        let k = 2 + g.r.below(4);
        let mut calls = vec![];
        for _ in 0..k {
            let op = ["string", "vec", "writer", "expr", "value", "json", "add", "take", "take", "fadd", "ftake"][g.r.below(11)];
            let mut r = Rand { g: &mut g, odd: 0, marks: 0, mixed: 0 };
            let x = match op {
                "fadd" | "ftake" => D::Body(r.body()),
                _ => r.calling(1 + i % 3, !matches!(op, "value" | "json"), true),
            };
            calls.push((op.to_string(), x));
        }
        out.current(&format!("{calls:?}"));
        let h = history(&calls);
        if h.to_string().len() < 12000 {
            out.put(&h);
        }
    }
}
