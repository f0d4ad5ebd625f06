//! Trees of hcl-rs from the records which `rs.rs` makes of them, by the fields of the types.

use crate::build::{number, txt};
use hcl::expr::*;
use hcl::structure::*;
use hcl::template::{Directive, Element, ForDirective, IfDirective, Interpolation, Strip, Template};
use hcl::Identifier;
use serde_json::Value;

fn each<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().unwrap().iter().map(f).collect()
}
pub fn ident(v: &Value) -> Identifier {
    Identifier::new(txt(v)).unwrap()
}
fn name(v: &Value) -> Identifier {
    ident(&v["id"])
}
pub fn strip(v: &Value) -> Strip {
    match (v[0] == true, v[1] == true) {
        (false, false) => Strip::None,
        (true, false) => Strip::Start,
        (false, true) => Strip::End,
        (true, true) => Strip::Both,
    }
}
fn maybe<T>(has: &Value, f: impl FnOnce() -> T) -> Option<T> {
    (*has == true).then(f)
}

pub fn unary(s: &str) -> UnaryOperator {
    [UnaryOperator::Neg, UnaryOperator::Not].into_iter().find(|o| o.as_str() == s).unwrap()
}
pub fn binary(s: &str) -> BinaryOperator {
    use BinaryOperator::*;
    [Eq, NotEq, LessEq, GreaterEq, Less, Greater, Plus, Minus, Mul, Div, Mod, And, Or]
        .into_iter()
        .find(|o| o.as_str() == s)
        .unwrap()
}

pub fn expr(v: &Value) -> Expression {
    match v["k"].as_str().unwrap() {
        "null" => Expression::Null,
        "bool" => Expression::Bool(v["b"] == true),
        "num" => Expression::Number(number(&v["val"])),
        "str" => Expression::String(txt(&v["sv"])),
        "arr" => Expression::Array(each(&v["items"], expr)),
        "obj" => {
            let mut o = Object::new();
            for e in v["ents"].as_array().unwrap() {
                o.insert(key(&e["key"]), expr(&e["val"]));
            }
            Expression::Object(o)
        }
        "tpl" => Expression::TemplateExpr(Box::new(TemplateExpr::QuotedString(txt(&v["txt"])))),
        "hd" => Expression::TemplateExpr(Box::new(TemplateExpr::Heredoc(Heredoc {
            delimiter: ident(&v["delim"]),
            template: txt(&v["txt"]),
            strip: if v["flush"] == true { HeredocStripMode::Indent } else { HeredocStripMode::None },
        }))),
        "par" => Expression::Parenthesis(Box::new(expr(&v["e"]))),
        "var" => Expression::Variable(name(v).into()),
        "cond" => Expression::Conditional(Box::new(Conditional {
            cond_expr: expr(&v["ce"]),
            true_expr: expr(&v["te"]),
            false_expr: expr(&v["fe"]),
        })),
        "fn" => Expression::FuncCall(Box::new(FuncCall {
            name: FuncName { namespace: each(&v["ns"], name), name: name(&v["name"]) },
            args: each(&v["args"], expr),
            expand_final: v["exp"] == true,
        })),
        "trv" => Expression::Traversal(Box::new(Traversal { expr: expr(&v["e"]), operators: each(&v["tops"], top) })),
        "un" => Expression::Operation(Box::new(Operation::Unary(UnaryOp {
            operator: unary(v["uop"].as_str().unwrap()),
            expr: expr(&v["e"]),
        }))),
        "bin" => Expression::Operation(Box::new(Operation::Binary(BinaryOp {
            lhs_expr: expr(&v["l"]),
            operator: binary(v["op"]["o"].as_str().unwrap()),
            rhs_expr: expr(&v["r"]),
        }))),
        "for" => Expression::ForExpr(Box::new(ForExpr {
            key_var: maybe(&v["hask"], || name(&v["kv"])),
            value_var: name(&v["vv"]),
            collection_expr: expr(&v["coll"]),
            key_expr: maybe(&v["haskey"], || expr(&v["ke"])),
            value_expr: expr(&v["ve"]),
            grouping: v["grp"] == true,
            cond_expr: maybe(&v["hasc"], || expr(&v["cond"])),
        })),
        k => panic!("kind {k}"),
    }
}

pub fn key(v: &Value) -> ObjectKey {
    if v["k"] == "id" { ObjectKey::Identifier(name(v)) } else { ObjectKey::Expression(expr(v)) }
}

fn top(v: &Value) -> TraversalOperator {
    match v["tk"].as_str().unwrap() {
        "asp" => TraversalOperator::AttrSplat,
        "fsp" => TraversalOperator::FullSplat,
        "attr" => TraversalOperator::GetAttr(name(v)),
        "leg" => TraversalOperator::LegacyIndex(txt(&v["id"]).parse().unwrap()),
        _ => TraversalOperator::Index(expr(&v["ix"])),
    }
}

pub fn element(v: &Value) -> Element {
    match v["k"].as_str().unwrap() {
        "lit" => Element::Literal(txt(&v["lv"])),
        "itp" => Element::Interpolation(Interpolation { expr: expr(&v["e"]), strip: strip(&v["st"]) }),
        "ifd" => Element::Directive(Box::new(Directive::If(IfDirective {
            cond_expr: expr(&v["ic"]),
            true_template: template(&v["it"]),
            false_template: maybe(&v["hase"], || template(&v["et"])),
            if_strip: strip(&v["ist"]),
            else_strip: strip(&v["est"]),
            endif_strip: strip(&v["nst"]),
        }))),
        _ => Element::Directive(Box::new(Directive::For(ForDirective {
            key_var: maybe(&v["hask"], || name(&v["kv"])),
            value_var: name(&v["vv"]),
            collection_expr: expr(&v["coll"]),
            template: template(&v["ft"]),
            for_strip: strip(&v["fst"]),
            endfor_strip: strip(&v["nst"]),
        }))),
    }
}

pub fn template(v: &Value) -> Template {
    v.as_array().unwrap().iter().map(element).collect()
}

pub fn label(v: &Value) -> BlockLabel {
    if v["k"] == "lid" { BlockLabel::Identifier(name(v)) } else { BlockLabel::String(txt(&v["lsv"])) }
}
pub fn attr(v: &Value) -> Attribute {
    Attribute { key: name(&v["key"]), expr: expr(&v["val"]) }
}
pub fn block(v: &Value) -> Block {
    Block { identifier: name(&v["bid"]), labels: each(&v["labels"], label), body: body(&v["body"]) }
}
pub fn structure(v: &Value) -> Structure {
    if v["k"] == "attr" { Structure::Attribute(attr(v)) } else { Structure::Block(block(v)) }
}
pub fn structures(v: &Value) -> Vec<Structure> {
    each(v, structure)
}
pub fn body(v: &Value) -> Body {
    Body::from(structures(&v["ss"]))
}
