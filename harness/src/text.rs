//! Observations of strings and template literals: how they are escaped, written and read back.

use crate::dump::{t, Dump};
use crate::gen::Rng;
use crate::{rs, Out};
use hcl::eval::{Context, Evaluate};
use hcl::expr::{Expression, TemplateExpr};
use hcl::template::{Element, Template};
use hcl::Value as HclValue;
use hcl_edit::{expr as ee, structure as es, template as et};
use hcl_primitives::template::{escape_markers, unescape_markers};
use hcl_primitives::Ident;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn caught<T>(f: impl FnOnce() -> Result<T, String>, g: impl Fn(T) -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => json!({"r": "ok", "v": g(v)}),
        Ok(Err(_)) => json!({"r": "err", "v": []}),
        Err(_) => json!({"r": "panic", "v": []}),
    }
}

fn e(x: impl ToString) -> String {
    x.to_string()
}

fn string(x: &ee::Expression) -> Result<String, String> {
    x.as_str().map(String::from).ok_or("no string".into())
}

fn rs_string(x: Expression) -> Result<String, String> {
    match x {
        Expression::String(s) => Ok(s),
        x => Err(format!("{x:?}")),
    }
}

fn literal(x: &et::Template) -> Result<String, String> {
    match x.get(0) {
        None => Ok(String::new()),
        Some(et::Element::Literal(l)) if x.len() == 1 => Ok(l.to_string()),
        _ => Err("no literal".into()),
    }
}

fn rs_literal(x: &Template) -> Result<String, String> {
    match &x.elements()[..] {
        [] => Ok(String::new()),
        [Element::Literal(l)] => Ok(l.clone()),
        _ => Err("no literal".into()),
    }
}

fn evaluated(x: Result<HclValue, hcl::eval::Error>) -> Result<String, String> {
    match x {
        Ok(HclValue::String(s)) => Ok(s),
        x => Err(format!("{x:?}")),
    }
}

/// A string in the places in which strings are written, and the string read from there.
fn ways(s: &str) -> Value {
    let mut r = vec![];
    let mut way = |name: &str, write: &dyn Fn() -> Result<String, String>, read: &dyn Fn(&str) -> Result<String, String>| {
        let txt = caught(write, |x| t(&x));
        let back = caught(|| write().and_then(|x| read(&x)), |x| t(&x));
        r.push(json!({"w": name, "txt": txt, "back": back}));
    };
    let edit = |x: &str| x.parse::<ee::Expression>().map_err(e).and_then(|x| string(&x));
    let lit = |x: &str| et::Template::from_iter([et::Element::Literal(x.to_string().into())]);
    let rs_lit = |x: &str| Template::new().add_literal(x);
    let read_rs = |x: &str| x.parse::<Expression>().map_err(e).and_then(rs_string);
    // quoted strings
    way("edit", &|| Ok(ee::Expression::from(s).to_string()), &edit);
    way("edit", &|| Ok(ee::Expression::from(et::StringTemplate::from_iter(lit(s))).to_string()), &edit);
    way("rs", &|| hcl::format::to_string(&Expression::from(s)).map_err(e), &read_rs);
    way("edit", &|| hcl::format::to_string(&TemplateExpr::from(&*escape_markers(s))).map_err(e), &read_rs);
    // templates
    way("lit", &|| Ok(lit(s).to_string()), &|x| x.parse::<et::Template>().map_err(e).and_then(|x| literal(&x)));
    way("lit", &|| hcl::format::to_string(&rs_lit(s)).map_err(e), &|x| {
        x.parse::<Template>().map_err(e).and_then(|x| rs_literal(&x))
    });
    // heredocs
    let nl = format!("{s}\n");
    way("hd", &|| Ok(ee::Expression::from(et::HeredocTemplate::new(Ident::new("for"), lit(&nl))).to_string()), &|x| {
        let x = x.parse::<ee::Expression>().map_err(e)?;
        literal(&x.as_heredoc_template().ok_or("no heredoc")?.template)
    });
    // keys, labels and attributes of documents
    way("obj", &|| Ok(ee::Expression::from(ee::Object::from_iter([(
        ee::ObjectKey::from(ee::Expression::from(s)),
        ee::ObjectValue::from(ee::Expression::from(1)),
    )])).to_string()), &|x| {
        let x = x.parse::<ee::Expression>().map_err(e)?;
        let o = x.as_object().ok_or("no object")?;
        let r = match o.iter().next() {
            Some((ee::ObjectKey::Expression(k), _)) => string(k),
            _ => Err("other key".into()),
        };
        r
    });
    let block = || es::Block::builder(Ident::new("for")).label(s).build();
    way("label", &|| Ok(es::Body::from_iter([block()]).to_string()), &|x| {
        let x = x.parse::<es::Body>().map_err(e)?;
        let r = match &x.get_blocks("for").next().ok_or("no block")?.labels[..] {
            [es::BlockLabel::String(s)] => Ok(s.to_string()),
            _ => Err("no label".into()),
        };
        r
    });
    way("rslabel", &|| hcl::format::to_string(&hcl::Block::builder("for").add_label(s).build()).map_err(e), &|x| {
        let x = hcl::parse(x).map_err(e)?;
        match &x.blocks().next().ok_or("no block")?.labels[..] {
            [hcl::BlockLabel::String(s)] => Ok(s.clone()),
            _ => Err("no label".into()),
        }
    });
    way("rsattr", &|| hcl::format::to_string(&hcl::Body::builder().add_attribute(("for", s)).build()).map_err(e), &|x| {
        let x = hcl::parse(x).map_err(e)?;
        rs_string(x.attributes().next().ok_or("no attribute")?.expr.clone())
    });
    // evaluation
    let cx = Context::new();
    way("lit", &|| Ok(escape_markers(s).into_owned()), &|x| evaluated(TemplateExpr::from(x).evaluate(&cx).map(HclValue::from)));
    way("lit", &|| Ok(escape_markers(s).into_owned()), &|x| {
        let x = x.parse::<Template>().map_err(e)?;
        x.evaluate(&cx).map_err(e)
    });
    Value::Array(r)
}

fn observe(out: &mut Out, s: &str) {
    out.current(s);
    let d = Dump { bare: true, spans: false, unset: false };
    let edit = caught(|| s.parse::<et::Template>().map_err(e), |x| d.template(&x));
    let of = caught(|| s.parse::<Template>().map_err(e), |x| rs::template(&x));
    let from = caught(|| Template::from_expr(&TemplateExpr::from(s)).map_err(e), |x| rs::template(&x));
    let val = caught(|| hcl::format::to_string(&HclValue::from(s)).map_err(e), |x| t(&x));
    out.put(&json!({"s": t(s), "em": t(&escape_markers(s)), "um": t(&unescape_markers(s)),
        "ways": ways(s), "edit": edit, "rs": [of, from], "val": val}));
}

const PARTS: &[&str] = &[
    "$", "%", "{", "${", "%{", "$${", "%%{", "}", "~}", "\"", "\\", "\\n", "\n", "\r\n", "\t", "\u{0}", "\u{1f}", "\u{7f}", "\u{80}",
    "\u{85}", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{1f600}", "\u{10ffff}", "e\u{301}", "ß", "a", " ", "  ", "${a}", "%{ if a }", "$${a}", "#",
    "//", "/*", "<<E\n", "\nfor", "\n  for", "for", "\\u0024", "${\"a\"}", "'", "`", "\u{b}", "\u{c}", "\u{8}",
];

pub fn random(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.below(max + 1) {
        if r.chance(15) {
            let limit = [0x80, 0x800, 0x10000, 0x110000][r.below(4)];
            // The specification knows only some of the letters.
            let c = char::from_u32(r.below(limit) as u32);
            s.extend(c.filter(|c| c.is_ascii() || !unicode_ident::is_xid_continue(*c)));
        } else {
            s.push_str(r.pick(PARTS));
        }
    }
    s
}

pub fn run(out: &mut Out, seed: u64, tier: &str, file: &str) {
    if !file.is_empty() {
        for line in std::fs::read_to_string(file).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            observe(out, &crate::build::txt(&v["s"]));
        }
        return;
    }
    let mut r = Rng::new(seed ^ 0x7e87);
    for i in 0..if tier == "thorough" { 40000 } else { 4000 } {
        let s = random(&mut r, [6, 12, 30][i % 3]);
        observe(out, &s);
    }
}
