//! Expressions, bodies and values read from formats other than HCL: a deserializer for data which
//! tells everything it knows, in every way a format can.

use crate::data::{route, Rand, D};
use crate::format;
use crate::gen::{Gen, Rng};
use crate::{rs, Out};
use hcl::expr::*;
use hcl::structure::*;
use hcl::{Number, Value as HclValue};
use serde::de::value::{Error, MapDeserializer, SeqDeserializer};
use serde::de::{self, DeserializeSeed, Deserializer, Error as _, IntoDeserializer, Visitor};
use serde::{forward_to_deserialize_any, Deserialize};
use serde_json::{json, Value};
use std::cell::RefCell;

type Name = &'static str;

#[derive(Clone, Copy)]
struct Src<'a> {
    d: &'a D,
    r: &'a RefCell<Rng>,
}

impl Src<'_> {
    fn chance(&self, p: usize) -> bool {
        self.r.borrow_mut().chance(p)
    }
    fn of<'b>(&'b self, d: &'b D) -> Src<'b> {
        Src { d, r: self.r }
    }
}

impl<'de> IntoDeserializer<'de, Error> for Src<'_> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

/// The name of a field or variant, or its index, if there are names to choose from.
struct NameSrc<'a> {
    name: &'a str,
    of: &'static [Name],
    r: &'a RefCell<Rng>,
}

impl<'de> IntoDeserializer<'de, Error> for NameSrc<'_> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

impl<'de> Deserializer<'de> for NameSrc<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let k = self.r.borrow_mut().below(4);
        let at = self.of.iter().position(|n| *n == self.name);
        match (at, k) {
            (Some(at), 0) => v.visit_u64(at as u64),
            (None, 0) if !self.of.is_empty() => v.visit_u64(self.of.len() as u64),
            (_, 1) if !self.of.is_empty() => v.visit_bytes(self.name.as_bytes()),
            (_, 2) => v.visit_string(self.name.to_owned()),
            _ => v.visit_str(self.name),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct enum map struct identifier ignored_any
    }
}

impl<'a> Src<'a> {
    fn seq<'de, V: Visitor<'de>>(self, xs: &'a [D], v: V) -> Result<V::Value, Error> {
        v.visit_seq(SeqDeserializer::new(xs.iter().map(|d| Src { d, r: self.r })))
    }
    fn fields<'de, V: Visitor<'de>>(self, ps: &'a [(Name, D)], of: &'static [Name], v: V) -> Result<V::Value, Error> {
        let mut ps: Vec<_> = ps.iter().map(|(name, d)| (NameSrc { name, of, r: self.r }, Src { d, r: self.r })).collect();
        if !of.is_empty() && self.chance(40) {
            return v.visit_seq(SeqDeserializer::new(ps.into_iter().map(|p| p.1)));
        }
        if !of.is_empty() && self.chance(40) {
            ps.reverse();
        }
        v.visit_map(MapDeserializer::new(ps.into_iter()))
    }
    fn variant(self) -> Option<Name> {
        match self.d {
            D::UVar(n) | D::NVar(n, _) | D::TVar(n, _) | D::SVar(n, _) => Some(n),
            _ => None,
        }
    }
}

impl<'de> Deserializer<'de> for Src<'_> {
    type Error = Error;

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.d {
            D::Bool(b) => v.visit_bool(*b),
            D::Int(ty, i) => match *ty {
                "u8" => v.visit_u8(*i as u8),
                "u16" => v.visit_u16(*i as u16),
                "u32" => v.visit_u32(*i as u32),
                "u64" => v.visit_u64(*i as u64),
                "i8" => v.visit_i8(*i as i8),
                "i16" => v.visit_i16(*i as i16),
                "i32" => v.visit_i32(*i as i32),
                "i64" => v.visit_i64(*i as i64),
                "u128" => v.visit_u128(*i as u128),
                _ => v.visit_i128(*i),
            },
            D::F32(f) => v.visit_f32(*f),
            D::F64(f) => v.visit_f64(*f),
            D::Num(n) => n.deserialize_any(v).map_err(Error::custom),
            D::Char(c) => v.visit_char(*c),
            D::Str(s) if self.chance(50) => v.visit_str(s),
            D::Str(s) => v.visit_string(s.clone()),
            D::Bytes(b) if self.chance(50) => v.visit_bytes(b),
            D::Bytes(b) => v.visit_byte_buf(b.clone()),
            D::None => v.visit_none(),
            D::Some(x) => v.visit_some(self.of(x)),
            D::Unit | D::UStruct => v.visit_unit(),
            D::NStruct(x) => v.visit_newtype_struct(self.of(x)),
            D::Seq(xs) | D::Tup(xs) | D::TStruct(xs) => self.seq(xs, v),
            D::Map(ps) => v.visit_map(MapDeserializer::new(ps.iter().map(|(k, x)| (self.of(k), self.of(x))))),
            D::Struct(ps) => self.fields(ps, &[], v),
            _ if self.variant().is_some() => v.visit_enum(EnumSrc(self, &[])),
            _ => Err(Error::custom("not plain")),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.d {
            D::None | D::Unit => v.visit_none(),
            D::Some(x) => v.visit_some(self.of(x)),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: Name, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: Name, of: &'static [Name], v: V) -> Result<V::Value, Error> {
        match self.d {
            D::Struct(ps) => self.fields(ps, of, v),
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: Name, of: &'static [Name], v: V) -> Result<V::Value, Error> {
        match self.variant() {
            Some(_) => v.visit_enum(EnumSrc(self, of)),
            None => self.deserialize_any(v),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
        unit_struct seq tuple tuple_struct map identifier ignored_any
    }
}

struct EnumSrc<'a>(Src<'a>, &'static [Name]);

impl<'de, 'a> de::EnumAccess<'de> for EnumSrc<'a> {
    type Error = Error;
    type Variant = Src<'a>;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, Src<'a>), Error> {
        let name = NameSrc { name: self.0.variant().unwrap(), of: self.1, r: self.0.r };
        Ok((seed.deserialize(name)?, self.0))
    }
}

impl<'de> de::VariantAccess<'de> for Src<'_> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        match self.d {
            D::UVar(_) => Ok(()),
            _ => Err(Error::custom("no unit")),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Error> {
        match self.d {
            D::NVar(_, x) => seed.deserialize(self.of(x)),
            _ => Err(Error::custom("no newtype")),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        match self.d {
            D::TVar(_, xs) => self.seq(xs, v),
            _ => Err(Error::custom("no tuple")),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, of: &'static [Name], v: V) -> Result<V::Value, Error> {
        match self.d {
            D::SVar(_, ps) => self.fields(ps, of, v),
            _ => Err(Error::custom("no struct")),
        }
    }
}

// ---------------------------------------------------------------------------------------------

fn new(n: Name, x: D) -> D {
    D::NVar(n, Box::new(x))
}
fn string(x: impl ToString) -> D {
    D::Str(x.to_string())
}
fn all(xs: &[Expression]) -> D {
    D::Seq(xs.iter().map(tagged).collect())
}
fn maybe(x: Option<D>) -> D {
    x.map_or(D::None, |x| D::Some(Box::new(x)))
}

/// The data formats know as the expression.
fn tagged(e: &Expression) -> D {
    match e {
        Expression::Null => D::UVar("Null"),
        Expression::Bool(b) => new("Bool", D::Bool(*b)),
        Expression::Number(n) => new("Number", D::Num(*n)),
        Expression::String(s) => new("String", string(s)),
        Expression::Array(xs) => new("Array", all(xs)),
        Expression::Object(o) => {
            let key = |k: &ObjectKey| match k {
                ObjectKey::Identifier(i) => new("Identifier", string(i.as_str())),
                ObjectKey::Expression(e) => new("Expression", tagged(e)),
                _ => unreachable!(),
            };
            new("Object", D::Map(o.iter().map(|(k, v)| (key(k), tagged(v))).collect()))
        }
        Expression::TemplateExpr(x) => new("TemplateExpr", match &**x {
            TemplateExpr::QuotedString(s) => new("QuotedString", string(s)),
            TemplateExpr::Heredoc(h) => new("Heredoc", D::Struct(vec![
                ("delimiter", string(h.delimiter.as_str())),
                ("template", string(&h.template)),
                ("strip", string(h.strip.as_str())),
            ])),
        }),
        Expression::Variable(v) => new("Variable", string(v.as_str())),
        Expression::Traversal(x) => new("Traversal", D::Struct(vec![
            ("expr", tagged(&x.expr)),
            ("operators", D::Seq(x.operators.iter().map(|o| match o {
                TraversalOperator::AttrSplat => D::UVar("AttrSplat"),
                TraversalOperator::FullSplat => D::UVar("FullSplat"),
                TraversalOperator::GetAttr(i) => new("GetAttr", string(i.as_str())),
                TraversalOperator::Index(e) => new("Index", tagged(e)),
                TraversalOperator::LegacyIndex(n) => new("LegacyIndex", D::Int("u64", *n as i128)),
            }).collect())),
        ])),
        Expression::FuncCall(f) => new("FuncCall", D::Struct(vec![
            ("name", D::Struct(vec![
                ("namespace", D::Seq(f.name.namespace.iter().map(|i| string(i.as_str())).collect())),
                ("name", string(f.name.name.as_str())),
            ])),
            ("args", all(&f.args)),
            ("expand_final", D::Bool(f.expand_final)),
        ])),
        Expression::Parenthesis(e) => new("Parenthesis", tagged(e)),
        Expression::Conditional(c) => new("Conditional", D::Struct(vec![
            ("cond_expr", tagged(&c.cond_expr)),
            ("true_expr", tagged(&c.true_expr)),
            ("false_expr", tagged(&c.false_expr)),
        ])),
        Expression::Operation(o) => new("Operation", match &**o {
            Operation::Unary(u) => new("Unary", D::Struct(vec![
                ("operator", string(u.operator.as_str())),
                ("expr", tagged(&u.expr)),
            ])),
            Operation::Binary(b) => new("Binary", D::Struct(vec![
                ("lhs_expr", tagged(&b.lhs_expr)),
                ("operator", string(b.operator.as_str())),
                ("rhs_expr", tagged(&b.rhs_expr)),
            ])),
        }),
        Expression::ForExpr(f) => new("ForExpr", D::Struct(vec![
            ("key_var", maybe(f.key_var.as_ref().map(|i| string(i.as_str())))),
            ("value_var", string(f.value_var.as_str())),
            ("collection_expr", tagged(&f.collection_expr)),
            ("key_expr", maybe(f.key_expr.as_ref().map(tagged))),
            ("value_expr", tagged(&f.value_expr)),
            ("grouping", D::Bool(f.grouping)),
            ("cond_expr", maybe(f.cond_expr.as_ref().map(tagged))),
        ])),
        _ => unreachable!(),
    }
}

fn tagged_body(b: &Body) -> D {
    D::Seq(b.iter().map(|s| match s {
        Structure::Attribute(a) => new("Attribute", D::Struct(vec![("key", string(a.key.as_str())), ("expr", tagged(&a.expr))])),
        Structure::Block(b) => new("Block", D::Struct(vec![
            ("identifier", string(b.identifier.as_str())),
            ("labels", D::Seq(b.labels.iter().map(|l| match l {
                BlockLabel::Identifier(i) => new("Identifier", string(i.as_str())),
                BlockLabel::String(s) => new("String", string(s)),
            }).collect())),
            ("body", tagged_body(&b.body)),
        ])),
    }).collect())
}

/// Something which is no node any more: a name is wrong, or a field is missing.
fn spoil(d: &mut D, r: &mut Rng) {
    match d {
        D::NVar(_, x) if r.chance(70) => spoil(x, r),
        D::Seq(xs) if !xs.is_empty() => {
            let k = r.below(xs.len());
            spoil(&mut xs[k], r);
        }
        D::Struct(ps) => {
            let needed: Vec<usize> = (0..ps.len()).filter(|k| !matches!(ps[*k].1, D::None | D::Some(_))).collect();
            let k = needed[r.below(needed.len())];
            ps.remove(k);
        }
        d => *d = D::UVar("Bogus"),
    }
}

fn read<T: for<'de> Deserialize<'de>>(d: &D, r: &RefCell<Rng>, f: impl Fn(&T) -> Value) -> Value {
    route(|| T::deserialize(Src { d, r }), f)
}

pub fn run(out: &mut Out, seed: u64, tier: &str) {
    let n = if tier == "thorough" { 12000 } else { 500 };
    let mut g = Gen::new(seed ^ 0xf04e, 0);
    let r = RefCell::new(Gen::new(seed ^ 0xf04f, 0).r);
    for i in 0..n {
        g.noise = [0, 5][i % 2];
        let text = match i % 4 {
            0 => g.body(1, true),
            1 => format!("a = {}\n", g.compound(2)),
            _ => format!("a = {}\n", g.expr(2, false)),
        };
        let Some(mut b) = Some(text).filter(|s| s.chars().count() < 140).and_then(|s| s.parse::<Body>().ok()) else { continue };
        if i % 3 == 0 {
            format::shake_body(&mut b, &mut g.r);
        }
        out.current(&format!("{b:?}"));
        let own = |ty: &str, of: Value, got: Vec<Value>| json!({"k": "own", "ty": ty, "in": of, "got": got});
        let mut d = tagged_body(&b);
        let mut got: Vec<Value> = (0..3).map(|_| read(&d, &r, rs::body)).collect();
        // JSON has no keys which are variants.
        if let Ok(j) = serde_json::to_value(&d) {
            got.push(route(|| serde_json::from_value(j), rs::body));
        }
        out.put(&own("Body", rs::body(&b), got));
        for s in b.iter() {
            if let Structure::Attribute(a) = s {
                let d = tagged(&a.expr);
                out.put(&own("Expression", rs::expr(&a.expr), (0..3).map(|_| read(&d, &r, rs::expr)).collect()));
            }
        }
        spoil(&mut d, &mut g.r);
        if !matches!(&d, D::Seq(xs) if xs.is_empty()) {
            out.put(&own("nothing", rs::body(&b), (0..4).map(|_| read(&d, &r, rs::body)).collect()));
        }
        // Data of no type of the crate.
        let x = Rand { g: &mut g, odd: 3, marks: 0, mixed: 0 }.plain(2 + i % 2);
        out.current(&format!("{x:?}"));
        out.put(&json!({"k": "any", "x": x.dump(), "val": (0..2).map(|_| read::<HclValue>(&x, &r, rs::value)).collect::<Vec<_>>(),
            "expr": (0..2).map(|_| read::<Expression>(&x, &r, rs::expr)).collect::<Vec<_>>(),
            "num": [read::<Number>(&x, &r, |n| rs::value(&HclValue::Number(*n)))]}));
    }
}
