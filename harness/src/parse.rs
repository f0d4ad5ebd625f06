//! Observations of the hcl-edit parser and encoder.

use crate::dump::{t, Dump};
use crate::gen::{enumerate, Gen};
use crate::Out;
use hcl_edit::expr::Expression;
use hcl_edit::structure::Body;
use hcl_edit::template::Template;
use serde_json::{json, Value};
use std::panic::catch_unwind;

fn error(e: &hcl_edit::parser::Error) -> Value {
    let l = e.location();
    json!({"r": "err", "off": l.offset(), "line": l.line(), "col": l.column(), "lt": t(e.line()),
        "msg": t(e.message()), "txt": t(&e.to_string())})
}

/// Parses the text and records everything there is to see.
pub fn observe(mode: &str, s: &str, bare: bool) -> Value {
    let d = Dump { bare, unset: false, spans: !bare };
    let r = catch_unwind(|| match mode {
        "body" => match s.parse::<Body>() {
            Ok(b) => json!({"r": "ok", "enc": t(&b.to_string()), "tree": d.body(&b)}),
            Err(e) => {
                let mut o = error(&e);
                let said = |r: Result<(), hcl::Error>| r.map_or_else(|e| t(&e.to_string()), |_| json!([]));
                o["said"] = match bare {
                    true => json!([said(hcl::parse(s).map(drop)), said(hcl::from_str::<hcl::Value>(s).map(drop)),
                        said(hcl::from_slice::<hcl::Body>(s.as_bytes()).map(drop))]),
                    false => json!([]),
                };
                o
            }
        },
        "expr" => match s.parse::<Expression>() {
            Ok(b) => json!({"r": "ok", "enc": t(&b.to_string()), "tree": d.expr(&b)}),
            Err(e) => error(&e),
        },
        _ => match s.parse::<Template>() {
            Ok(b) => json!({"r": "ok", "enc": t(&b.to_string()),
                            "tree": {"k": "template", "els": d.template(&b)}}),
            Err(e) => error(&e),
        },
    });
    let mut v = r.unwrap_or_else(|_| json!({"r": "panic"}));
    v["m"] = json!(mode);
    v["s"] = t(s);
    v
}

const EXPR_TOKS: &[&str] = &[
    "a", "1", "\"s\"", "(", ")", "[", "]", "{", "}", "=", ",", ".", "+", "-", "!", "?", ":", "*", "<", "\n", " ",
    "&", "for ", "::", "...", "<<E\n", "E", "#", "/", "/*", "*/", "\r", "é", "\"", "${", "%{", "0", "e1", "|",
];
const BODY_TOKS: &[&str] = &[
    "a", "b", "=", "1", "{", "}", "\n", " ", "\"l\"", "#", "/* */", "\r\n", "/", "b = 1\n", "\"", "-", "é", "\u{301}",
    "a = 1\n", "//", "\r", "[", "]",
];
const TPL_TOKS: &[&str] = &[
    "x", "${", "}", "%{", " ", "a", "~", "$", "%", "{", "\n", "\"", "if a", "else", "endif", "for x in y", "endfor",
    "\\", "$${", "\t",
];

pub fn run(out: &mut Out, seed: u64, tier: &str, what: &str) {
    let full = what == "full";
    let thorough = tier == "thorough";
    let mut seen = std::collections::HashSet::new();
    let mut put = |out: &mut Out, mode: &str, s: &str| {
        if s.chars().count() <= 2500 && seen.insert((mode.to_string(), s.to_string())) {
            out.current(s);
            let v = observe(mode, s, !full);
            if what != "errors" || v["r"] != "ok" {
                out.put(&v);
            }
        }
    };
    let (short, docs) = if thorough { (3, 15000) } else { (2, 4000) };
    enumerate(EXPR_TOKS, short, &mut |s| put(out, "expr", s));
    enumerate(BODY_TOKS, short, &mut |s| put(out, "body", s));
    enumerate(TPL_TOKS, short, &mut |s| put(out, "tpl", s));
    let mut g = Gen::new(seed, 15);
    // Longer random token sequences.
    for i in 0..docs {
        let (mode, toks) = [("expr", EXPR_TOKS), ("body", BODY_TOKS), ("tpl", TPL_TOKS)][i % 3];
        let n = 3 + g.r.below(5);
        let s: String = (0..n).map(|_| toks[g.r.below(toks.len())]).collect();
        put(out, mode, &s);
    }
    for i in 0..docs {
        // Now and then a long text: many lines, long lines, many items.
        let i0 = i;
        if i0 % (docs / if thorough { 400 } else { 32 }) == 0 {
            let i = i0 / (docs / if thorough { 400 } else { 32 });
            let n = [254, 255, 256, 257, 300][g.r.below(5)];
            g.noise = 20;
            let doc = g.body(1, true);
            let doc = if i % 2 == 0 { g.mutate(&doc) } else { doc };
            let unit = ["#\n", "\n", " ", "/*é*/ ", "a {}\n", "\r\n", "\t", "//x\n"][i % 8];
            put(out, "body", &(unit.repeat(n) + &doc));
            let e = g.expr(1, false);
            let e = if i % 4 < 2 { g.mutate(&e) } else { e };
            let (open, item, close) = [
                ("[", "1, ", "]"), ("{", "a=1\n", "}"), ("f(", "x ,", ")"), ("a", ".b", ""), ("\"", "é", "\""),
                ("-", " ", "1"), ("\"${", "\n", "}\""), ("<<E\n", "x\n", "\nE"), ("1", "+1", ""),
            ][i % 9];
            let n = if item == "+1" { n - 180 } else { n };
            put(out, "expr", &format!("{open}{}{e}{close}", item.repeat(n)));
            let t = g.elements(1, false, true);
            put(out, "tpl", &(["x", "\n", "é\n", "${a}"][i % 4].repeat(n) + &t));
        }
        g.noise = [0, 10, 40][i % 3];
        g.crlf = i % 7 == 0;
        g.tabs = i % 5 == 0;
        let d = 1 + i % 3;
        let (mode, s) = match i % 4 {
            0 | 1 => ("body", g.body(d, true)),
            2 => ("expr", g.expr(d, false)),
            _ => ("tpl", g.elements(d, false, true)),
        };
        if s.chars().count() > 400 {
            continue;
        }
        put(out, mode, &s);
        let mutants = match what {
            "accept" | "errors" => 2,
            _ => 1 - i % 2,
        };
        for _ in 0..mutants {
            let m = g.mutate(&s);
            put(out, mode, &m);
        }
    }
}
