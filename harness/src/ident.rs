//! Observations of identifiers: which texts are identifiers, wherever one is made or read.

use crate::dump::t;
use crate::gen::Rng;
use crate::Out;
use hcl::eval::{Context, Evaluate};
use hcl::expr::{self as re, Expression, TraversalOperator, Variable};
use hcl::template as rt;
use hcl::{Identifier, Value as HclValue};
use hcl_primitives::ident::{is_id_continue, is_id_start, is_ident};
use hcl_primitives::{Ident, InternalString};
use serde::Deserialize;
use serde_json::{json, Value};
use std::borrow::{Borrow, Cow};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// `[text]` of an identifier, `[]` of a refusal.
fn made<E>(f: impl FnOnce() -> Result<String, E>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(s)) => json!({"r": "ok", "v": t(&s)}),
        Ok(Err(_)) => json!({"r": "err", "v": []}),
        Err(_) => json!({"r": "panic", "v": []}),
    }
}

fn found(f: impl FnOnce() -> Option<String>) -> Value {
    made(|| f().ok_or(()))
}

fn tries(s: &str) -> Value {
    let js = Value::String(s.to_string());
    let mut r = vec![
        made(|| Ident::try_new(s).map(|i| i.to_string())),
        made(|| Ident::try_new(s.to_string()).map(|i| i.as_str().to_string())),
        made(|| Ident::try_from(s).map(String::from)),
        made(|| Ident::try_from(s.to_string()).map(Ident::into_string)),
        made(|| Ident::try_from(InternalString::from(s)).map(|i| InternalString::from(i).to_string())),
        made(|| Ident::try_from(Cow::from(s)).map(|i| (*i).to_string())),
        made(|| Ident::try_from(Cow::<str>::Owned(s.to_string())).map(|i| { let b: &str = i.borrow(); b.to_string() })),
        made(|| s.parse::<Ident>().map(|i| i.as_ref().to_string())),
        made(|| Ident::deserialize(&js).map(|i| i.to_string())),
        made(|| serde_json::from_str::<Ident>(&js.to_string()).map(|i| serde_json::to_value(i).unwrap().as_str().unwrap().to_string())),
        made(|| Identifier::new(s).map(|i| i.to_string())),
        made(|| Identifier::new(s.to_string()).map(Identifier::into_inner)),
        made(|| Identifier::deserialize(&js).map(|i| i.as_str().to_string())),
        made(|| hcl::from_value::<Identifier>(HclValue::from(s)).map(|i| i.to_string())),
        made(|| Variable::new(s).map(|i| i.to_string())),
        made(|| Variable::new(s).map(|i| Expression::from(i).to_string())),
    ];
    // `new` panics where others refuse.
    r.push(match catch_unwind(|| Ident::new(s).to_string()) {
        Ok(s) => json!({"r": "ok", "v": t(&s)}),
        Err(_) => json!({"r": "err", "v": []}),
    });
    Value::Array(r)
}

fn cleaned(s: &str) -> Value {
    let all: Vec<Box<dyn Fn() -> String + '_>> = vec![
        Box::new(|| Ident::new_sanitized(s).to_string()),
        Box::new(|| Ident::new_sanitized(s.to_string()).into_string()),
        Box::new(|| Identifier::sanitized(s).to_string()),
        Box::new(|| Identifier::from(s).to_string()),
        Box::new(|| Identifier::from(s.to_string()).to_string()),
        Box::new(|| Identifier::from(Cow::from(s)).to_string()),
        Box::new(|| Variable::sanitized(s).to_string()),
        Box::new(|| hcl::Attribute::new(s, 1).key.to_string()),
        Box::new(|| hcl::Attribute::from((s, 1)).key().to_string()),
        Box::new(|| hcl::Block::new(s).identifier.to_string()),
        Box::new(|| hcl::Block::builder(s).build().identifier().to_string()),
        Box::new(|| match TraversalOperator::from(s) {
            TraversalOperator::GetAttr(i) => i.to_string(),
            _ => "!".into(),
        }),
        Box::new(|| re::FuncName::from(s).name.to_string()),
        Box::new(|| re::FuncName::new("f").with_namespace([s]).namespace[0].to_string()),
        Box::new(|| re::FuncCall::new(s).name.name.to_string()),
        Box::new(|| {
            let mut cx = Context::new();
            cx.declare_var(s, 7);
            let name = Variable::sanitized(s);
            match Expression::from(name.clone()).evaluate(&cx) {
                Ok(HclValue::Number(n)) if n == 7.into() => name.to_string(),
                x => format!("{x:?}"),
            }
        }),
    ];
    all.iter().map(|f| made(|| Ok::<_, ()>(f()))).collect()
}

fn of(e: Option<Expression>) -> Option<String> {
    match e? {
        Expression::Variable(v) => Some(v.to_string()),
        _ => None,
    }
}

fn expr(s: String) -> Option<Expression> {
    s.parse().ok()
}

fn tpl(s: String) -> Option<rt::Element> {
    let t: rt::Template = s.parse().ok()?;
    t.elements().first().cloned()
}

/// The places of a text in which identifiers are read, with the one which is found there.
fn places(s: &str) -> Value {
    let body = |s: String| hcl::parse(&s).ok();
    let list = vec![
        ("key", found(|| body(format!("{s} = 1\n"))?.attributes().next().map(|a| a.key.to_string()))),
        ("block", found(|| body(format!("{s} {{}}\n"))?.blocks().next().filter(|b| b.labels.is_empty()).map(|b| b.identifier.to_string()))),
        ("label", found(|| match &body(format!("b {s} {{}}\n"))?.blocks().next()?.labels[..] {
            [hcl::BlockLabel::Identifier(i)] => Some(i.to_string()),
            _ => None,
        })),
        ("var", found(|| of(expr(s.to_string())))),
        ("attr", found(|| match expr(format!("a.{s}"))? {
            Expression::Traversal(t) => match &t.operators[..] {
                [TraversalOperator::GetAttr(i)] => Some(i.to_string()),
                _ => None,
            },
            _ => None,
        })),
        ("fn", found(|| match expr(format!("{s}()"))? {
            Expression::FuncCall(f) if f.name.namespace.is_empty() => Some(f.name.name.to_string()),
            _ => None,
        })),
        ("ns", found(|| match expr(format!("{s}::f()"))? {
            Expression::FuncCall(f) if f.name.namespace.len() == 1 => Some(f.name.namespace[0].to_string()),
            _ => None,
        })),
        ("objkey", found(|| match expr(format!("{{ {s} = 1 }}"))? {
            Expression::Object(o) => match o.keys().next()? {
                re::ObjectKey::Identifier(i) => Some(i.to_string()),
                _ => None,
            },
            _ => None,
        })),
        ("for", found(|| match expr(format!("[for {s} in a : 1]"))? {
            Expression::ForExpr(f) if f.key_var.is_none() => Some(f.value_var.to_string()),
            _ => None,
        })),
        ("forkey", found(|| match expr(format!("[for {s}, v in a : 1]"))? {
            Expression::ForExpr(f) => f.key_var.map(|k| k.to_string()),
            _ => None,
        })),
        ("dirfor", found(|| match tpl(format!("%{{ for {s} in a }}%{{ endfor }}"))? {
            rt::Element::Directive(d) => match *d {
                rt::Directive::For(f) if f.key_var.is_none() => Some(f.value_var.to_string()),
                _ => None,
            },
            _ => None,
        })),
        ("interp", found(|| match tpl(format!("${{{s}}}"))? {
            rt::Element::Interpolation(i) => of(Some(i.expr)),
            _ => None,
        })),
        ("heredoc", found(|| match expr(format!("<<{s}\n?\n{s}"))? {
            Expression::TemplateExpr(t) => match *t {
                re::TemplateExpr::Heredoc(h) => Some(h.delimiter.to_string()),
                _ => None,
            },
            _ => None,
        })),
    ];
    list.into_iter().map(|(w, v)| json!({"w": w, "id": v})).collect()
}

/// All that a text goes through unchanged.
fn kept(s: &str) -> Value {
    let i = InternalString::from(s);
    let all: Vec<String> = vec![
        i.to_string(),
        i.as_str().into(),
        i.clone().into_string(),
        i.clone().into_cow_str().into_owned(),
        String::from(i.clone()),
        Cow::<str>::from(&i).into_owned(),
        Cow::<str>::from(i.clone()).into_owned(),
        InternalString::from(s.to_string()).to_string(),
        InternalString::from(&s.to_string()).to_string(),
        InternalString::from(&i).to_string(),
        InternalString::from(Box::<str>::from(s)).to_string(),
        InternalString::from(Cow::from(s)).to_string(),
        InternalString::from(Cow::<str>::Owned(s.into())).to_string(),
        serde_json::to_value(&i).unwrap().as_str().unwrap().into(),
        serde_json::from_value::<InternalString>(Value::String(s.into())).unwrap().to_string(),
        serde_json::from_str::<InternalString>(&Value::String(s.into()).to_string()).unwrap().to_string(),
        Ident::new_unchecked(s).to_string(),
        Identifier::unchecked(s).to_string(),
        Variable::unchecked(s).to_string(),
    ];
    let n = json!(all.iter().map(|x| t(x)).collect::<Vec<_>>());
    // what is equal is found
    let m: HashMap<Ident, ()> = [(Ident::new_unchecked(s), ())].into();
    let k: HashMap<Identifier, ()> = [(Identifier::unchecked(s), ())].into();
    let same = m.contains_key(s) && k.contains_key(s) && i == InternalString::from(s.to_string());
    json!({"texts": n, "same": same})
}

fn observe(out: &mut Out, s: &str) {
    out.current(s);
    let st: Vec<bool> = s.chars().map(unicode_ident::is_xid_start).collect();
    let ct: Vec<bool> = s.chars().map(unicode_ident::is_xid_continue).collect();
    out.put(&json!({"m": "id", "s": t(s), "st": st, "ct": ct, "is": is_ident(s), "tries": tries(s), "clean": cleaned(s),
        "places": places(s), "kept": kept(s)}));
}

/// What is said about a character: by the Unicode tables and by the code.
fn said(c: char) -> [bool; 4] {
    [unicode_ident::is_xid_start(c), unicode_ident::is_xid_continue(c), is_id_start(c), is_id_continue(c)]
}

/// Runs of characters about which the same is said; the code reads those at the ends of the runs.
fn chars(out: &mut Out, r: &mut Rng) {
    let read = |c: char| {
        let k = |s: String| s.parse::<hcl_edit::structure::Body>().is_ok_and(|b| b.iter().count() == 1);
        let is = |s: String| is_ident(&s);
        [k(format!("{c}=1")) , k(format!("a{c}=1")), is(c.to_string()), is(format!("a{c}"))]
    };
    let mut all = ('\0'..=char::MAX).peekable();
    while let Some(lo) = all.next() {
        let now = said(lo);
        let mut hi = lo;
        while let Some(c) = all.next_if(|c| said(*c) == now) {
            hi = c;
        }
        let mid = char::from_u32(lo as u32 + r.below((hi as u32 - lo as u32 + 1) as usize) as u32).unwrap_or(lo);
        for c in if lo == hi { vec![lo] } else { vec![lo, mid, hi] } {
            // Whitespace and comments are read, but not as a part of names.
            let ends = !now[1] && matches!(c, ' ' | '\t' | '\n' | '\r');
            let reads = if ends { vec![] } else { read(c).to_vec() };
            out.put(&json!({"m": "chars", "lo": lo as u32, "hi": hi as u32, "c": c as u32, "said": now, "reads": reads}));
        }
    }
}

const PARTS: &[&str] = &[
    "a", "B", "z9", "_", "-", "1", "0", " ", "$", ".", "é", "\u{301}", "·", "٣", "你", "\u{1f600}", "\u{2164}", "\u{200d}", "\u{feff}", "ª",
    "for", "in", "if", "null", "true", "false", "else", "endif", "\u{10400}", "\n", "\"", "{", "#", "e\u{301}", "℮", "゛", "\u{37a}", "\u{e33}",
    "abcdefghijklmnopqrstuvwxyz", "\t", "\u{2c6}",
];

pub fn run(out: &mut Out, seed: u64, tier: &str, file: &str) {
    if !file.is_empty() {
        for line in std::fs::read_to_string(file).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            observe(out, &crate::build::txt(&v["s"]));
        }
        return;
    }
    let mut r = Rng::new(seed ^ 0x1de7);
    chars(out, &mut r);
    for _ in 0..if tier == "thorough" { 40000 } else { 3000 } {
        let mut s = String::new();
        for _ in 0..r.below(6) {
            if r.chance(20) {
                let limit = [0x80, 0x800, 0x10000, 0x110000][r.below(4)];
                s.extend(char::from_u32(r.below(limit) as u32));
            } else {
                s.push_str(r.pick(PARTS));
            }
        }
        observe(out, &s);
    }
}
