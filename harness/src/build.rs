//! Builds hcl-edit values from the records of the specification, through the public
//! constructors only. Decor `[-1]` is left unset.

use hcl_edit::expr::*;
use hcl_edit::structure::*;
use hcl_edit::template::*;
use hcl_edit::{Decorate, Decorated, Formatted, Ident, Number, Spanned};
use serde_json::Value;

pub fn txt(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

fn unset(v: &Value) -> bool {
    v[0] == -1
}

fn flag(v: &Value) -> bool {
    v.as_bool().unwrap()
}

fn list(v: &Value) -> &[Value] {
    v.as_array().unwrap()
}

fn deco<T: Decorate + ?Sized>(n: &mut T, v: &Value) {
    if !unset(&v["pre"]) {
        n.decor_mut().set_prefix(txt(&v["pre"]));
    }
    if !unset(&v["suf"]) {
        n.decor_mut().set_suffix(txt(&v["suf"]));
    }
}

pub fn ident(s: &Value) -> Ident {
    Ident::new(txt(s))
}

pub fn id(v: &Value) -> Decorated<Ident> {
    let mut i = Decorated::new(ident(&v["id"]));
    deco(&mut i, v);
    i
}

pub fn strip(v: &Value) -> Strip {
    Strip::from((flag(&v[0]), flag(&v[1])))
}

pub fn number(v: &Value) -> Number {
    let mut digs: String = list(&v["digs"]).iter().map(|d| d.to_string()).collect();
    let x = v["x"].as_i64().unwrap();
    let neg = flag(&v["neg"]);
    if digs.is_empty() {
        return Number::from(0u64);
    }
    let n = digs.len() as i64;
    if x >= n && x <= 20 {
        digs.extend(std::iter::repeat('0').take((x - n) as usize));
        if neg {
            if let Ok(i) = format!("-{digs}").parse::<i64>() {
                return Number::from(i);
            }
        } else if let Ok(u) = digs.parse::<u64>() {
            return Number::from(u);
        }
    }
    let f: f64 = format!("{}0.{digs}e{x}", if neg { "-" } else { "" }).parse().unwrap();
    Number::from_f64(f).unwrap()
}

pub fn template(els: &Value) -> Template {
    list(els).iter().map(element).collect::<Vec<_>>().into()
}

pub fn element(v: &Value) -> Element {
    match v["k"].as_str().unwrap() {
        "lit" => Element::Literal(Spanned::new(txt(&v["lv"]))),
        "itp" => {
            let mut i = Interpolation::new(expr(&v["e"]));
            i.strip = strip(&v["st"]);
            Element::Interpolation(i)
        }
        "ifd" => {
            let mut i = IfTemplateExpr::new(expr(&v["ic"]), template(&v["it"]));
            i.strip = strip(&v["ist"]);
            i.set_preamble(txt(&v["ipre"]));
            let e = flag(&v["hase"]).then(|| {
                let mut e = ElseTemplateExpr::new(template(&v["et"]));
                e.strip = strip(&v["est"]);
                e.set_preamble(txt(&v["epre"]));
                e.set_trailing(txt(&v["etr"]));
                e
            });
            let mut n = EndifTemplateExpr::new();
            n.strip = strip(&v["nst"]);
            n.set_preamble(txt(&v["npre"]));
            n.set_trailing(txt(&v["ntr"]));
            Element::Directive(Box::new(Directive::If(IfDirective::new(i, e, n))))
        }
        _ => {
            let key = flag(&v["hask"]).then(|| id(&v["kv"]));
            let mut f = ForTemplateExpr::new(key, id(&v["vv"]), expr(&v["coll"]), template(&v["ft"]));
            f.strip = strip(&v["fst"]);
            f.set_preamble(txt(&v["fpre"]));
            let mut n = EndforTemplateExpr::new();
            n.strip = strip(&v["nst"]);
            n.set_preamble(txt(&v["npre"]));
            n.set_trailing(txt(&v["ntr"]));
            Element::Directive(Box::new(Directive::For(ForDirective::new(f, n))))
        }
    }
}

fn binop(s: &str) -> BinaryOperator {
    s.parse().unwrap()
}

fn top(v: &Value) -> Decorated<TraversalOperator> {
    let op = match v["tk"].as_str().unwrap() {
        "asp" => {
            let mut s = Decorated::new(Splat);
            deco(&mut s, v);
            TraversalOperator::AttrSplat(s)
        }
        "fsp" => {
            let mut s = Decorated::new(Splat);
            deco(&mut s, v);
            TraversalOperator::FullSplat(s)
        }
        "attr" => TraversalOperator::GetAttr(id(v)),
        "leg" => {
            let mut i = Decorated::new(txt(&v["id"]).parse::<u64>().unwrap());
            deco(&mut i, v);
            TraversalOperator::LegacyIndex(i)
        }
        _ => TraversalOperator::Index(expr(&v["ix"])),
    };
    let mut op = Decorated::new(op);
    if !unset(&v["opre"]) {
        op.decor_mut().set_prefix(txt(&v["opre"]));
    }
    op
}

pub fn expr(v: &Value) -> Expression {
    let mut e: Expression = match v["k"].as_str().unwrap() {
        "null" => Expression::null(),
        "bool" => Expression::from(flag(&v["b"])),
        "num" => {
            let repr = &v["repr"];
            if unset(repr) || repr[0].is_null() {
                Expression::Number(Formatted::new(number(&v["val"])))
            } else {
                // The spelling of a number cannot be set, only parsed.
                let mut e: Expression = txt(repr).parse().unwrap();
                e.decor_mut().clear();
                e
            }
        }
        "str" => Expression::from(txt(&v["sv"])),
        "var" => Expression::Variable(Decorated::new(ident(&v["id"]))),
        "arr" => {
            let mut a = Array::new();
            for i in list(&v["items"]) {
                a.push(expr(i));
            }
            a.set_trailing_comma(flag(&v["tc"]));
            a.set_trailing(txt(&v["tr"]));
            Expression::Array(a)
        }
        "obj" => Expression::Object(object(v)),
        "tpl" => Expression::StringTemplate(StringTemplate::from(list(&v["els"]).iter().map(element).collect::<Vec<_>>())),
        "hd" => {
            let mut h = HeredocTemplate::new(ident(&v["delim"]), template(&v["els"]));
            if let Some(i) = v["ind"].as_u64() {
                h.set_indent(i as usize);
            }
            if !unset(&v["tr"]) {
                h.set_trailing(txt(&v["tr"]));
            }
            Expression::from(h)
        }
        "par" => Expression::from(Parenthesis::new(expr(&v["e"]))),
        "cond" => Expression::from(Conditional::new(expr(&v["ce"]), expr(&v["te"]), expr(&v["fe"]))),
        "fn" => {
            let mut name = FuncName::new(id(&v["name"]));
            name.set_namespace(list(&v["ns"]).iter().map(id).collect::<Vec<_>>());
            let mut args = FuncArgs::new();
            for a in list(&v["args"]) {
                args.push(expr(a));
            }
            args.set_expand_final(flag(&v["exp"]));
            args.set_trailing_comma(flag(&v["tc"]));
            args.set_trailing(txt(&v["tr"]));
            Expression::from(FuncCall::new(name, args))
        }
        "trv" => Expression::from(Traversal::new(expr(&v["e"]), list(&v["tops"]).iter().map(top).collect::<Vec<_>>())),
        "un" => {
            let op = if v["uop"] == "!" { UnaryOperator::Not } else { UnaryOperator::Neg };
            Expression::from(UnaryOp::new(op, expr(&v["e"])))
        }
        "bin" => {
            let mut op = Decorated::new(binop(v["op"]["o"].as_str().unwrap()));
            deco(&mut op, &v["op"]);
            Expression::from(BinaryOp::new(expr(&v["l"]), op, expr(&v["r"])))
        }
        "for" => {
            let mut intro = ForIntro::new(id(&v["vv"]), expr(&v["coll"]));
            intro.key_var = flag(&v["hask"]).then(|| id(&v["kv"]));
            if !unset(&v["ipre"]) {
                intro.decor_mut().set_prefix(txt(&v["ipre"]));
            }
            let mut f = ForExpr::new(intro, expr(&v["ve"]));
            f.key_expr = flag(&v["haskey"]).then(|| expr(&v["ke"]));
            f.grouping = flag(&v["grp"]);
            if flag(&v["hasc"]) {
                let mut c = ForCond::new(expr(&v["cond"]));
                if !unset(&v["cpre"]) {
                    c.decor_mut().set_prefix(txt(&v["cpre"]));
                }
                f.cond = Some(c);
            }
            Expression::from(f)
        }
        x => panic!("unknown expression {x}"),
    };
    deco(&mut e, v);
    e
}

pub fn key(v: &Value) -> ObjectKey {
    if v["k"] == "id" {
        ObjectKey::Ident(id(v))
    } else {
        ObjectKey::Expression(expr(v))
    }
}

pub fn object_value(v: &Value) -> ObjectValue {
    let mut o = ObjectValue::new(expr(&v["val"]));
    o.set_assignment(if v["asg"] == ":" { ObjectValueAssignment::Colon } else { ObjectValueAssignment::Equals });
    o.set_terminator(match v["term"].as_str().unwrap() {
        "comma" => ObjectValueTerminator::Comma,
        "nl" => ObjectValueTerminator::Newline,
        _ => ObjectValueTerminator::None,
    });
    o
}

pub fn object(v: &Value) -> Object {
    let mut o = Object::new();
    for e in list(&v["ents"]) {
        o.insert(key(&e["key"]), object_value(e));
    }
    o.set_trailing(txt(&v["tr"]));
    o
}

pub fn attr(v: &Value) -> Attribute {
    let mut a = Attribute::new(id(&v["key"]), expr(&v["val"]));
    deco(&mut a, v);
    a
}

pub fn label(v: &Value) -> BlockLabel {
    if v["k"] == "lstr" {
        let mut s = Decorated::new(txt(&v["lsv"]));
        deco(&mut s, v);
        BlockLabel::String(s)
    } else {
        BlockLabel::Ident(id(v))
    }
}

pub fn block(v: &Value) -> Block {
    let mut b = Block::new(id(&v["bid"]));
    b.labels = list(&v["labels"]).iter().map(label).collect();
    b.body = body(&v["body"]);
    deco(&mut b, v);
    b
}

pub fn structure(v: &Value) -> Structure {
    if v["k"] == "attr" {
        Structure::Attribute(attr(v))
    } else {
        Structure::Block(block(v))
    }
}

pub fn body(v: &Value) -> Body {
    let mut b = Body::new();
    for s in list(&v["ss"]) {
        b.push(structure(s));
    }
    b.set_prefer_oneline(flag(&v["one"]));
    b.set_prefer_omit_trailing_newline(flag(&v["omit"]));
    deco(&mut b, v);
    b
}
