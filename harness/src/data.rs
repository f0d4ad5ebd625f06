//! Data of the data model of serde, given at run time: serialized, and read back as data of a
//! shape which is given at run time as well.

use crate::dump::{decimal, t};
use crate::format;
use crate::gen::{Gen, Rng};
use crate::json as plain_json;
use crate::build::txt;
use crate::{rs, Out};
use hcl::expr::{Expression, Operation, TemplateExpr};
use hcl::structure::{Body, Structure};
use hcl::{Number, Value as HclValue};
use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple};
use serde::ser::{SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use serde_json::{json, Value};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Name = &'static str;

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Bool(bool),
    Int(Name, i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<D>),
    Unit,
    UStruct,
    NStruct(Box<D>),
    UVar(Name),
    NVar(Name, Box<D>),
    Seq(Vec<D>),
    Tup(Vec<D>),
    TStruct(Vec<D>),
    TVar(Name, Vec<D>),
    Map(Vec<(D, D)>),
    Struct(Vec<(Name, D)>),
    SVar(Name, Vec<(Name, D)>),
    Block(Box<D>),
    LBlock(Box<D>),
    DLBlock(Vec<(D, D)>),
    Expr(Expression),
    /// An expression by its own type.
    Own(Expression),
    Struc(Structure),
    OwnStruc(Structure),
    Body(Body),
    Val(HclValue),
    Num(Number),
    Ident(hcl::Identifier),
    /// A struct with these fields whose last member is flattened into it.
    Flat(Vec<(D, D)>, Box<D>),
    /// An internally tagged enum.
    Tag(Box<D>),
    /// What another serializer, which is called while this is serialized, makes of it.
    Via(Name, Box<D>),
    /// The same, or nothing if that fails.
    Try(Name, Box<D>),
    Fail,
    Panic,
}
impl Eq for D {}

#[derive(Serialize)]
struct Flattened<'a> {
    #[serde(flatten)]
    fields: Pairs<'a>,
    #[serde(flatten)]
    rest: Within<'a, No>,
}

struct Pairs<'a>(&'a [(D, D)]);

impl Serialize for Pairs<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in self.0 {
            q.serialize_entry(k, v)?;
        }
        q.end()
    }
}

#[derive(Serialize)]
#[serde(tag = "t")]
enum Tagged<'a> {
    A(Within<'a, No>),
}

/// Data which are not (No) or may be (Yes) flattened into others, or tagged, themselves; without
/// the difference there would be serializers of serializers of serializers.
trait Mixed: Sized {
    fn flat<S: Serializer>(ps: &[(D, D)], v: &D, s: S) -> Result<S::Ok, S::Error>;
    fn tag<S: Serializer>(v: &D, s: S) -> Result<S::Ok, S::Error>;
}

struct Yes;
struct No;

impl Mixed for Yes {
    fn flat<S: Serializer>(ps: &[(D, D)], v: &D, s: S) -> Result<S::Ok, S::Error> {
        Flattened { fields: Pairs(ps), rest: within(v) }.serialize(s)
    }
    fn tag<S: Serializer>(v: &D, s: S) -> Result<S::Ok, S::Error> {
        Tagged::A(within(v)).serialize(s)
    }
}

impl Mixed for No {
    fn flat<S: Serializer>(_: &[(D, D)], _: &D, _: S) -> Result<S::Ok, S::Error> {
        unreachable!("flattened data of flattened data")
    }
    fn tag<S: Serializer>(_: &D, _: S) -> Result<S::Ok, S::Error> {
        unreachable!("flattened data of flattened data")
    }
}

struct Within<'a, M>(&'a D, std::marker::PhantomData<M>);

fn within<M>(d: &D) -> Within<'_, M> {
    Within(d, std::marker::PhantomData)
}

/// Whether data are flattened or tagged, before anything else is done with them.
fn mixes(d: &D) -> bool {
    match d {
        D::Flat(..) | D::Tag(_) => true,
        D::Some(v) | D::NStruct(v) | D::Block(v) | D::LBlock(v) => mixes(v),
        _ => false,
    }
}

fn via(w: &str, x: &D) -> Result<D, String> {
    let e = |e: hcl::Error| e.to_string();
    Ok(match w {
        "value" => D::Val(hcl::to_value(x).map_err(e)?),
        "expr" => D::Expr(hcl::expr::to_expression(x).map_err(e)?),
        "hcl" => D::Str(hcl::to_string(x).map_err(e)?),
        _ => {
            let j = serde_json::to_value(x).map_err(|e| e.to_string())?;
            D::Val(serde_json::from_value(j).map_err(|e| e.to_string())?)
        }
    })
}

impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        within::<Yes>(self).serialize(s)
    }
}

impl<M: Mixed> Serialize for Within<'_, M> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            D::Bool(b) => s.serialize_bool(*b),
            D::Int(ty, i) => match *ty {
                "u8" => s.serialize_u8(*i as u8),
                "u16" => s.serialize_u16(*i as u16),
                "u32" => s.serialize_u32(*i as u32),
                "u64" => s.serialize_u64(*i as u64),
                "i8" => s.serialize_i8(*i as i8),
                "i16" => s.serialize_i16(*i as i16),
                "i32" => s.serialize_i32(*i as i32),
                "i64" => s.serialize_i64(*i as i64),
                "u128" => s.serialize_u128(*i as u128),
                _ => s.serialize_i128(*i),
            },
            D::F32(f) => s.serialize_f32(*f),
            D::F64(f) => s.serialize_f64(*f),
            D::Char(c) => s.serialize_char(*c),
            D::Str(x) => s.serialize_str(x),
            D::Bytes(b) => s.serialize_bytes(b),
            D::None => s.serialize_none(),
            D::Some(v) => s.serialize_some(&within::<M>(v)),
            D::Unit => s.serialize_unit(),
            D::UStruct => s.serialize_unit_struct("U"),
            D::NStruct(v) => s.serialize_newtype_struct("N", &within::<M>(v)),
            D::UVar(n) => s.serialize_unit_variant("E", 0, n),
            D::NVar(n, v) => s.serialize_newtype_variant("E", 0, n, &**v),
            D::Seq(xs) => {
                let mut q = s.serialize_seq(Some(xs.len()))?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            D::Tup(xs) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            D::TStruct(xs) => {
                let mut q = s.serialize_tuple_struct("T", xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            D::TVar(n, xs) => {
                let mut q = s.serialize_tuple_variant("E", 0, n, xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            D::Map(ps) => Pairs(ps).serialize(s),
            D::Flat(ps, v) => M::flat(ps, v, s),
            D::Tag(v) => M::tag(v, s),
            D::Via(w, v) => via(w, v).map_err(serde::ser::Error::custom).and_then(|x| within::<M>(&x).serialize(s)),
            D::Try(w, v) => match catch_unwind(AssertUnwindSafe(|| via(w, v))) {
                Ok(Ok(x)) => within::<M>(&x).serialize(s),
                _ => s.serialize_unit(),
            },
            D::Fail => Err(serde::ser::Error::custom("failed")),
            D::Panic => panic!("panicked"),
            D::Struct(ps) => {
                let mut q = s.serialize_struct("S", ps.len())?;
                for (k, v) in ps {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
            D::SVar(n, ps) => {
                let mut q = s.serialize_struct_variant("E", 0, n, ps.len())?;
                for (k, v) in ps {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
            D::Block(v) => hcl::ser::block(&within::<M>(v), s),
            D::LBlock(v) => hcl::ser::LabeledBlock::new(within::<M>(v)).serialize(s),
            D::DLBlock(ps) => hcl::ser::doubly_labeled_block(ps.iter().map(|(k, v)| (k, v)), s),
            D::Expr(e) => e.serialize(s),
            D::Own(e) => match e {
                Expression::TemplateExpr(x) => match &**x {
                    TemplateExpr::Heredoc(h) => h.serialize(s),
                    x => x.serialize(s),
                },
                Expression::Variable(x) => x.serialize(s),
                Expression::Traversal(x) => x.serialize(s),
                Expression::FuncCall(x) => x.serialize(s),
                Expression::Conditional(x) => x.serialize(s),
                Expression::Operation(x) => match &**x {
                    Operation::Unary(u) => u.serialize(s),
                    Operation::Binary(b) => b.serialize(s),
                },
                Expression::ForExpr(x) => x.serialize(s),
                e => e.serialize(s),
            },
            D::Struc(x) => x.serialize(s),
            D::OwnStruc(Structure::Attribute(a)) => a.serialize(s),
            D::OwnStruc(Structure::Block(b)) => b.serialize(s),
            D::Body(b) => b.serialize(s),
            D::Val(v) => v.serialize(s),
            D::Num(n) => n.serialize(s),
            D::Ident(i) => i.serialize(s),
        }
    }
}

fn num(k: &str, text: &str) -> Value {
    json!({"d": k, "val": decimal(text)})
}

fn value(v: &HclValue) -> Value {
    match v {
        HclValue::Null => json!({"d": "unit"}),
        HclValue::Bool(b) => json!({"d": "bool", "b": b}),
        HclValue::Number(n) => number(n),
        HclValue::String(s) => json!({"d": "str", "s": t(s)}),
        HclValue::Array(a) => json!({"d": "seq", "xs": a.iter().map(value).collect::<Vec<_>>()}),
        HclValue::Object(o) => json!({"d": "map", "ps": o.iter().map(|(k, v)| json!([{"d": "str", "s": t(k)}, value(v)])).collect::<Vec<_>>()}),
    }
}

fn number(n: &Number) -> Value {
    num(if n.is_f64() { "float" } else { "int" }, &n.to_string())
}

fn float(f: f64) -> Value {
    match Number::from_f64(f) {
        Some(n) => num("float", &n.to_string()),
        None => json!({"d": "nan"}),
    }
}

fn pairs(ps: &[(D, D)]) -> Value {
    json!({"d": "map", "ps": ps.iter().map(|(k, v)| json!([k.dump(), v.dump()])).collect::<Vec<_>>()})
}

fn fields(ps: &[(Name, D)]) -> Value {
    ps.iter().map(|(k, v)| json!([t(k), v.dump()])).collect()
}

fn list(xs: &[D]) -> Value {
    xs.iter().map(D::dump).collect()
}

impl D {
    pub fn dump(&self) -> Value {
        match self {
            D::Bool(b) => json!({"d": "bool", "b": b}),
            D::Int("u128" | "i128", _) => json!({"d": "big"}),
            D::Int(_, i) => num("int", &i.to_string()),
            D::F32(f) => float(*f as f64),
            D::F64(f) => float(*f),
            D::Char(c) => json!({"d": "char", "s": t(&c.to_string())}),
            D::Str(s) => json!({"d": "str", "s": t(s)}),
            D::Bytes(b) => json!({"d": "bytes", "bs": b.iter().map(|b| decimal(&b.to_string())).collect::<Vec<_>>()}),
            D::None => json!({"d": "none"}),
            D::Some(v) => json!({"d": "some", "v": v.dump()}),
            D::Unit => json!({"d": "unit"}),
            D::UStruct => json!({"d": "ustruct"}),
            D::NStruct(v) => json!({"d": "nstruct", "v": v.dump()}),
            D::UVar(n) => json!({"d": "uvar", "n": t(n)}),
            D::NVar(n, v) => json!({"d": "nvar", "n": t(n), "v": v.dump()}),
            D::Seq(xs) => json!({"d": "seq", "xs": list(xs)}),
            D::Tup(xs) => json!({"d": "tup", "xs": list(xs)}),
            D::TStruct(xs) => json!({"d": "tstruct", "xs": list(xs)}),
            D::TVar(n, xs) => json!({"d": "tvar", "n": t(n), "xs": list(xs)}),
            D::Map(ps) => pairs(ps),
            D::Struct(ps) => json!({"d": "struct", "ps": fields(ps)}),
            D::SVar(n, ps) => json!({"d": "svar", "n": t(n), "ps": fields(ps)}),
            D::Block(v) => json!({"d": "block", "v": v.dump()}),
            D::LBlock(v) => json!({"d": "lblock", "v": v.dump()}),
            D::DLBlock(ps) => json!({"d": "dlblock", "v": pairs(ps)}),
            D::Expr(e) | D::Own(e) => json!({"d": "expr", "e": rs::expr(e)}),
            D::Struc(s) | D::OwnStruc(s) => json!({"d": "struc", "st": rs::structure(s)}),
            D::Body(b) => json!({"d": "body", "bd": rs::body(b)}),
            D::Val(v) => value(v),
            D::Num(n) => number(n),
            D::Ident(i) => json!({"d": "str", "s": t(i.as_str())}),
            D::Flat(ps, v) => json!({"d": "flat", "ps": pairs(ps)["ps"], "v": v.dump()}),
            D::Tag(v) => json!({"d": "tag", "n": t("A"), "v": v.dump()}),
            D::Via(w, v) => json!({"d": "via", "w": w, "v": v.dump()}),
            D::Try(w, v) => json!({"d": "try", "w": w, "v": v.dump()}),
            D::Fail => json!({"d": "fail"}),
            D::Panic => json!({"d": "panic"}),
        }
    }
}

// ---------------------------------------------------------------------------------------------

const NAMES: &[Name] = &["a", "b", "c", "foo", "Red", "x-1", "é", "in", "for", "null", "type"];
const ODD: &[Name] = &["", "b c", "1x", "${a}", "a.b", "\"", "-", "\n"];
pub const INTS: &[(Name, i128, i128)] = &[
    ("u8", 0, 255), ("u16", 0, 65535), ("u32", 0, 4294967295), ("u64", 0, 18446744073709551615),
    ("i8", -128, 127), ("i16", -32768, 32767), ("i32", -2147483648, 2147483647),
    ("i64", -9223372036854775808, 9223372036854775807),
];

pub struct Rand<'a> {
    pub g: &'a mut Gen,
    /// Chance of names which are no identifiers.
    pub odd: usize,
    /// how often data are marked as blocks
    pub marks: usize,
    /// with flattened and tagged data
    pub mixed: usize,
}

impl Rand<'_> {
    fn r(&mut self) -> &mut Rng {
        &mut self.g.r
    }
    fn name(&mut self) -> Name {
        let odd = self.odd;
        if self.r().chance(odd) { ODD[self.g.r.below(ODD.len())] } else { NAMES[self.g.r.below(NAMES.len())] }
    }
    fn names(&mut self, max: usize) -> Vec<Name> {
        let n = self.r().below(max + 1);
        let mut ns: Vec<Name> = vec![];
        for _ in 0..n {
            let x = self.name();
            if !ns.contains(&x) {
                ns.push(x);
            }
        }
        ns
    }
    fn int(&mut self, ty: Name) -> i128 {
        let (_, lo, hi) = *INTS.iter().find(|x| x.0 == ty).unwrap();
        match self.r().below(6) {
            0 => lo,
            1 => hi,
            2 => lo + self.r().below(3) as i128,
            _ => self.r().below(12) as i128,
        }
    }
    fn f64(&mut self) -> f64 {
        match self.r().below(10) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => 1e300,
            3 => -2.5,
            4 => 4.9e-324,
            5 => 18446744073709551616.0,
            6 => -0.0,
            _ => self.r().below(1000) as f64 / 16.0,
        }
    }
    fn char(&mut self) -> char {
        ['a', 'Z', 'é', '$', '"', '\n', '😀', '1', '_'][self.g.r.below(9)]
    }
    fn expr(&mut self, lits: bool) -> Expression {
        loop {
            let s = self.g.expr(1, false);
            if s.chars().count() > 80 {
                continue;
            }
            if let Ok(mut e) = s.parse::<Expression>() {
                if self.r().chance(40) {
                    format::shake(&mut e, &mut self.g.r);
                }
                if !lits || literal(&e) {
                    return e;
                }
            }
        }
    }
    pub fn body(&mut self) -> Body {
        loop {
            let s = self.g.body(1, true);
            if s.chars().count() > 120 {
                continue;
            }
            if let Ok(mut b) = s.parse::<Body>() {
                if self.r().chance(30) {
                    format::shake_body(&mut b, &mut self.g.r);
                }
                return b;
            }
        }
    }
    fn struc(&mut self) -> Structure {
        loop {
            if let Some(s) = self.body().into_iter().next() {
                return s;
            }
        }
    }
    fn object(&mut self) -> Expression {
        let n = self.r().below(4);
        let mut o = hcl::expr::Object::new();
        for _ in 0..n {
            let key = match self.r().below(4) {
                0 => hcl::expr::ObjectKey::Expression(self.name().into()),
                1 if self.odd > 0 => hcl::expr::ObjectKey::Expression(self.expr(false)),
                _ => hcl::expr::ObjectKey::Identifier(hcl::Identifier::new(NAMES[self.g.r.below(NAMES.len())]).unwrap()),
            };
            let v = if self.r().chance(40) { self.object() } else { self.expr(false) };
            o.insert(key, v);
        }
        Expression::Object(o)
    }

    fn key(&mut self) -> D {
        match self.r().below(16) {
            0 => D::Char(self.char()),
            1 => D::UVar(self.name()),
            2 => D::NStruct(Box::new(self.key())),
            3 => D::Some(Box::new(self.key())),
            4 => { let ty = INTS[self.g.r.below(8)].0; D::Int(ty, self.int(ty)) }
            5 if self.odd > 0 => match self.r().below(8) {
                0 => D::Bool(true),
                1 => D::F64(1.5),
                2 => D::Unit,
                3 => D::Seq(vec![]),
                4 => D::NVar(self.name(), Box::new(self.key())),
                5 => D::Block(Box::new(self.key())),
                6 => D::Expr(self.expr(false)),
                _ => D::None,
            },
            6 => D::Ident(hcl::Identifier::new(NAMES[self.g.r.below(NAMES.len())]).unwrap()),
            7 => D::Str(format::text(self.r())),
            _ => D::Str(self.name().into()),
        }
    }
    fn many(&mut self, d: usize, n: usize) -> Vec<D> {
        (0..self.g.r.below(n + 1)).map(|_| self.data(d)).collect()
    }
    fn pairs(&mut self, d: usize, like: bool) -> Vec<(D, D)> {
        (0..self.g.r.below(4)).map(|_| (self.key(), if like { self.maplike(d) } else { self.data(d) })).collect()
    }
    fn fields(&mut self, d: usize, like: bool) -> Vec<(Name, D)> {
        self.names(3).into_iter().map(|n| (n, if like { self.maplike(d) } else { self.data(d) })).collect()
    }
    /// What blocks can be made of, mostly.
    pub fn maplike(&mut self, d: usize) -> D {
        if d == 0 {
            return self.data(0);
        }
        let kinds = 20 + 2 * self.mixed;
        match self.r().below(kinds) {
            k @ 20..=25 => {
                let ps = self.pairs(d - 1, false);
                let v = if self.r().chance(80) { self.maplike(d - 1) } else { self.data(d - 1) };
                let v = Box::new(if mixes(&v) { D::Unit } else { v });
                if k < 23 { D::Flat(unique(ps), v) } else { D::Tag(v) }
            }
            0 => D::Some(Box::new(self.maplike(d - 1))),
            1 => D::NStruct(Box::new(self.maplike(d - 1))),
            2 => D::NVar(self.name(), Box::new(self.maplike(d - 1))),
            3 | 4 => D::Seq((0..self.g.r.below(4)).map(|_| self.maplike(d - 1)).collect()),
            5 => D::Tup((0..self.g.r.below(3)).map(|_| self.maplike(d - 1)).collect()),
            6 => D::TVar(self.name(), (0..self.g.r.below(3)).map(|_| self.maplike(d - 1)).collect()),
            7 => D::SVar(self.name(), self.fields(d - 1, false)),
            8 => D::LBlock(Box::new(self.maplike(d - 1))),
            9 => D::Block(Box::new(self.maplike(d - 1))),
            10 => D::Expr(self.object()),
            11 => { let ps = self.pairs(d - 1, true); D::DLBlock(unique(ps)) }
            12 if self.odd > 0 => D::Body(self.body()),
            13 => D::Struct(self.fields(d - 1, true)),
            14 | 15 => D::Map(self.pairs(d - 1, true)),
            16 | 17 => D::Struct(self.fields(d - 1, false)),
            18 | 19 => D::Map(self.pairs(d - 1, false)),
            _ => self.data(d),
        }
    }
    /// Something with names, in a marker or not, with more of that kind inside.
    fn nest(&mut self, d: usize) -> D {
        if d == 0 {
            return self.maplike(1);
        }
        let x = match self.r().below(12) {
            0..=3 => D::NVar(self.name(), Box::new(self.nest(d - 1))),
            4 => D::TVar(self.name(), (0..=self.g.r.below(2)).map(|_| self.nest(d - 1)).collect()),
            5 => D::SVar(self.name(), self.names(2).into_iter().map(|n| (n, self.nest(d - 1))).collect()),
            6 => D::Seq((0..=self.g.r.below(2)).map(|_| self.nest(d - 1)).collect()),
            7 | 8 => D::Map({ let ps = (0..=self.g.r.below(2)).map(|_| (self.key(), self.nest(d - 1))).collect(); unique(ps) }),
            9 | 10 => D::Struct(self.names(2).into_iter().map(|n| (n, self.nest(d - 1))).collect()),
            _ => D::DLBlock({ let ps = (0..=self.g.r.below(2)).map(|_| (self.key(), self.nest(d - 1))).collect(); unique(ps) }),
        };
        match self.r().below(7) {
            0 => x,
            1 => D::Some(Box::new(x)),
            2 => D::Block(Box::new(x)),
            3 => D::Block(Box::new(D::NStruct(Box::new(x)))),
            _ => D::LBlock(Box::new(x)),
        }
    }
    pub fn data(&mut self, d: usize) -> D {
        let n = if d == 0 { 19 } else { 36 };
        match self.r().below(n) {
            0 => D::Bool(self.r().chance(50)),
            1..=3 => { let ty = INTS[self.g.r.below(8)].0; D::Int(ty, self.int(ty)) }
            4 => D::F64(self.f64()),
            5 => D::F32(self.f64() as f32),
            6 => D::Char(self.char()),
            7 | 8 => D::Str(format::text(self.r())),
            9 => D::Bytes((0..self.g.r.below(3)).map(|_| self.g.r.below(256) as u8).collect()),
            10 => D::None,
            11 => D::Unit,
            12 => D::UStruct,
            13 => D::UVar(self.name()),
            14 => if self.odd > 0 && self.r().chance(20) { D::Int(["i128", "u128"][self.g.r.below(2)], 1) } else { D::Num(format::number(self.r())) },
            15 => D::Expr(self.expr(false)),
            16 => D::Own(self.expr(false)),
            17 => D::Val(format::value(self.r(), 2)),
            18 => if self.odd > 0 && self.r().chance(30) {
                match self.r().below(3) {
                    0 => D::Struc(self.struc()),
                    1 => D::OwnStruc(self.struc()),
                    _ => D::Body(self.body()),
                }
            } else { D::Expr(self.object()) },
            19 => D::Some(Box::new(self.data(d - 1))),
            20 => D::NStruct(Box::new(self.data(d - 1))),
            21 => D::NVar(self.name(), Box::new(self.data(d - 1))),
            22 | 23 => D::Seq(self.many(d - 1, 3)),
            24 => D::Tup(self.many(d - 1, 3)),
            25 => D::TStruct(self.many(d - 1, 3)),
            26 => D::TVar(self.name(), self.many(d - 1, 3)),
            27 | 28 => D::Map(self.pairs(d - 1, false)),
            29 => D::Struct(self.fields(d - 1, false)),
            30 => D::SVar(self.name(), self.fields(d - 1, false)),
            31 | 32 => D::Block(Box::new(self.maplike(d - 1))),
            33 | 34 => D::LBlock(Box::new(self.maplike(d - 1))),
            _ => { let ps = self.pairs(d - 1, true); D::DLBlock(unique(ps)) }
        }
    }
    /// Data without parts of documents.
    pub fn plain(&mut self, d: usize) -> D {
        let n = if d == 0 { 14 } else { 24 };
        let many = |r: &mut Self| (0..r.g.r.below(4)).map(|_| r.plain(d - 1)).collect::<Vec<_>>();
        match self.r().below(n) {
            0 => D::Bool(self.r().chance(50)),
            1..=3 => { let ty = INTS[self.g.r.below(8)].0; D::Int(ty, self.int(ty)) }
            4 => D::F64(self.f64()),
            5 => D::F32(self.f64() as f32),
            6 => D::Char(self.char()),
            7 | 8 => D::Str(format::text(self.r())),
            9 => D::Num(format::number(self.r())),
            10 => D::None,
            11 => D::Unit,
            12 => D::UStruct,
            13 => match self.r().below(8) {
                0 => D::Int(["i128", "u128"][self.g.r.below(2)], 1),
                1 => D::Bytes(b"ab".to_vec()),
                2 => D::UVar(self.name()),
                3 => D::NVar(self.name(), Box::new(D::Bool(true))),
                _ => D::Some(Box::new(D::Str(format::text(self.r())))),
            },
            14 => D::Some(Box::new(self.plain(d - 1))),
            15 if self.r().chance(20) => D::NStruct(Box::new(self.plain(d - 1))),
            15..=17 => D::Seq(many(self)),
            18 => D::Tup(many(self)),
            19 => D::TStruct(many(self)),
            20 if self.r().chance(40) => D::Struct(self.names(3).into_iter().map(|n| (n, self.plain(d - 1))).collect()),
            _ => {
                let kind = self.r().below(3);
                D::Map((0..self.g.r.below(4)).map(|_| {
                    let key = match self.r().below(if kind == 0 { 20 } else { 40 }) {
                        0 => D::Bool(true),
                        1 => D::Int("u8", 1),
                        2 => D::Char(self.char()),
                        3 => D::Some(Box::new(D::Str("a".into()))),
                        _ if kind != 0 => D::Str(["a", "b", "a b", "é", "${a}"][self.g.r.below(5)].into()),
                        k if k < 12 => D::NVar("Identifier", Box::new(D::Str(self.name().into()))),
                        _ => D::NVar("Expression", Box::new(self.plain(0))),
                    };
                    (key, self.plain(d - 1))
                }).collect())
            }
        }
    }
    /// Data whose implementations call serializers. Those of others, which do not know about
    /// documents, get no part of them while one of this crate is running.
    pub fn calling(&mut self, d: usize, internal: bool, nodes: bool) -> D {
        let names: &[Name] = &["a", "b", "w"];
        let many = |r: &mut Self| (0..r.g.r.below(3)).map(|_| r.calling(d.saturating_sub(1), internal, nodes)).collect::<Vec<_>>();
        let one = |r: &mut Self| Box::new(r.calling(d.saturating_sub(1), internal, nodes));
        match self.r().below(if d == 0 { 8 } else { 26 }) {
            0 => D::Int("u8", 7),
            1 => D::Str(format::text(self.r())),
            2..=4 if nodes => match self.r().below(6) {
                0 => D::Expr(self.object()),
                1 => D::Own(self.expr(false)),
                2 => D::Val(format::value(self.r(), 1)),
                _ => D::Expr(self.expr(false)),
            },
            5 if nodes => match self.r().below(3) {
                0 => D::Struc(self.struc()),
                1 => D::OwnStruc(self.struc()),
                _ => D::Body(self.body()),
            },
            6 => [D::Fail, D::Panic][self.r().below(2)].clone(),
            0..=7 => D::Bool(true),
            8..=11 => D::Struct(names.iter().take(1 + self.g.r.below(3)).map(|n| (*n, *one(self))).collect()),
            12 => D::Map(many(self).into_iter().enumerate().map(|(i, x)| (D::Str(names[i].into()), x)).collect()),
            13 => D::Seq(many(self)),
            14 => D::Some(one(self)),
            15 => D::NVar(names[self.g.r.below(3)], one(self)),
            16 => D::Block(one(self)),
            17 => D::LBlock(one(self)),
            k => {
                let w = ["hcl", "value", "json", "expr"][self.g.r.below(if nodes { 4 } else { 3 })];
                let inside = match w {
                    "json" => internal,
                    w => w != "value",
                };
                let x = Box::new(self.calling(d - 1, inside, !(w == "json" && internal) && (nodes || w != "json")));
                if k < 23 { D::Via(w, x) } else { D::Try(w, x) }
            }
        }
    }
    /// A document, mostly.
    pub fn top(&mut self, d: usize) -> D {
        match self.r().below(12) {
            0 => self.data(d),
            1 => D::Seq((0..self.g.r.below(4)).map(|_| match self.g.r.below(4) {
                0 => D::Struc(self.struc()),
                1 => D::OwnStruc(self.struc()),
                2 => D::Body(self.body()),
                _ => self.maplike(d - 1),
            }).collect()),
            2 => D::Map(self.pairs(d, false)),
            3 => self.maplike(d),
            5 | 6 => { let d = 2 + self.r().below(2); let n = self.nest(d); D::Struct(vec![(self.name(), n)]) }
            4 => D::Expr(self.object()),
            _ => D::Struct(self.fields(d, false)),
        }
    }
}

fn unique(ps: Vec<(D, D)>) -> Vec<(D, D)> {
    let mut out: Vec<(D, D)> = vec![];
    for (k, v) in ps {
        if out.iter().all(|p| p.0 != k) {
            out.push((k, v));
        }
    }
    out
}

pub fn literal(e: &Expression) -> bool {
    match e {
        Expression::Null | Expression::Bool(_) | Expression::Number(_) | Expression::String(_) => true,
        Expression::Array(a) => a.iter().all(literal),
        Expression::Object(o) => o.iter().all(|(k, v)| {
            literal(v) && match k {
                hcl::expr::ObjectKey::Expression(e) => literal(e),
                _ => true,
            }
        }),
        Expression::Parenthesis(e) => literal(e),
        _ => false,
    }
}

pub fn route<T, E: fmt::Display>(f: impl FnOnce() -> Result<T, E>, g: impl Fn(&T) -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => json!({"r": "ok", "v": g(&v)}),
        Ok(Err(e)) => json!({"r": "err", "e": e.to_string()}),
        Err(_) => json!({"r": "panic"}),
    }
}

fn written(x: &D) -> Vec<Value> {
    let text = |s: &String| t(s);
    let utf8 = |v: Vec<u8>| String::from_utf8(v).unwrap();
    let mut w = vec![];
    let mut out = vec![
        route(|| hcl::to_string(x), text),
        route(|| hcl::to_vec(x).map(utf8), text),
        route(|| hcl::to_writer(&mut w, x).map(|()| utf8(w)), text),
    ];
    let mut w = vec![];
    out.push(route(
        || {
            let mut s = hcl::ser::Serializer::new(&mut w);
            s.serialize(x).map(|()| utf8(s.into_inner().clone()))
        },
        text,
    ));
    out
}

pub fn ser(out: &mut Out, x: &D) {
    out.put(&json!({
        "x": x.dump(),
        "text": written(x),
        "body": route(|| Body::from_serializable(x), rs::body),
        "expr": [route(|| Expression::from_serializable(x), rs::expr), route(|| hcl::expr::to_expression(x), rs::expr)],
        "val": route(|| hcl::to_value(x), rs::value),
        "js": route(|| serde_json::to_value(x), plain_json::plain),
    }));
}

pub fn run(out: &mut Out, seed: u64, tier: &str, what: &str, file: &str) {
    if !file.is_empty() {
        return replay(out, what, file);
    }
    if what == "de" {
        return read(out, seed, tier);
    }
    let n = if tier == "thorough" { 30000 } else { 4000 };
    let mut g = Gen::new(seed ^ 0x5e2de, 0);
    for i in 0..n {
        g.noise = [0, 5][i % 2];
        let mut r = Rand { g: &mut g, odd: [0, 0, 3, 10][i % 4], marks: [35, 80][i % 2], mixed: [0, 3, 0][i % 3] };
        let x = r.top(1 + i % 4);
        out.current(&format!("{x:?}"));
        if x.dump().to_string().len() > 6000 {
            continue;
        }
        ser(out, &x);
    }
}

// ---------------------------------------------------------------------------------------------
// Shapes of data, and reading them the way derived implementations do.

#[derive(Clone, Debug, PartialEq)]
pub enum Sh {
    Bool,
    Int(Name),
    F64,
    Char,
    Str,
    Unit,
    UStruct,
    Num,
    Any,
    Ign,
    Expr,
    Opt(Box<Sh>),
    New(Box<Sh>),
    Seq(Box<Sh>),
    Tup(Vec<Sh>),
    TStruct(Vec<Sh>),
    Map(Box<Sh>, Box<Sh>),
    Struct(Fields),
    Enum(Vec<(Name, Var)>, &'static [Name]),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fields(Vec<(Name, Sh)>, &'static [Name]);

#[derive(Clone, Debug, PartialEq)]
pub enum Var {
    Unit,
    New(Sh),
    Tup(Vec<Sh>),
    Struct(Fields),
}

fn leak(names: Vec<Name>) -> &'static [Name] {
    Box::leak(names.into_boxed_slice())
}

impl Fields {
    fn new(fs: Vec<(Name, Sh)>) -> Fields {
        let names = leak(fs.iter().map(|f| f.0).collect());
        Fields(fs, names)
    }
    fn dump(&self) -> Value {
        self.0.iter().map(|(n, s)| json!([t(n), s.dump()])).collect()
    }
}

impl Sh {
    fn enumeration(vs: Vec<(Name, Var)>) -> Sh {
        let names = leak(vs.iter().map(|v| v.0).collect());
        Sh::Enum(vs, names)
    }
    pub fn dump(&self) -> Value {
        let all = |xs: &[Sh]| xs.iter().map(Sh::dump).collect::<Value>();
        match self {
            Sh::Bool => json!({"s": "bool"}),
            Sh::Int(ty) => json!({"s": "int", "sg": ty.starts_with('i'), "bits": ty[1..].parse::<u32>().unwrap()}),
            Sh::F64 => json!({"s": "f64"}),
            Sh::Char => json!({"s": "char"}),
            Sh::Str => json!({"s": "str"}),
            Sh::Unit | Sh::UStruct => json!({"s": "unit"}),
            Sh::Num => json!({"s": "num"}),
            Sh::Any => json!({"s": "any"}),
            Sh::Ign => json!({"s": "ign"}),
            Sh::Expr => json!({"s": "expr"}),
            Sh::Opt(v) => json!({"s": "opt", "v": v.dump()}),
            Sh::New(v) => json!({"s": "new", "v": v.dump()}),
            Sh::Seq(v) => json!({"s": "seq", "v": v.dump()}),
            Sh::Tup(vs) | Sh::TStruct(vs) => json!({"s": "tup", "vs": all(vs)}),
            Sh::Map(k, v) => json!({"s": "map", "key": k.dump(), "v": v.dump()}),
            Sh::Struct(fs) => json!({"s": "struct", "fs": fs.dump()}),
            Sh::Enum(vs, _) => json!({"s": "enum", "vs": vs.iter().map(|(n, v)| json!([t(n), match v {
                Var::Unit => json!({"s": "unit"}),
                Var::New(v) => json!({"s": "new", "v": v.dump()}),
                Var::Tup(vs) => json!({"s": "tup", "vs": all(vs)}),
                Var::Struct(fs) => json!({"s": "struct", "fs": fs.dump()}),
            }])).collect::<Vec<_>>()}),
        }
    }
}

/// What was read.
fn got(d: &D) -> Value {
    let all = |xs: &[D]| xs.iter().map(got).collect::<Value>();
    let fields = |ps: &[(Name, D)]| ps.iter().map(|(n, v)| json!([t(n), got(v)])).collect::<Value>();
    match d {
        D::Int(_, i) => num("int", &i.to_string()),
        D::Some(v) => json!({"d": "some", "v": got(v)}),
        D::NStruct(v) => json!({"d": "nstruct", "v": got(v)}),
        D::NVar(n, v) => json!({"d": "nvar", "n": t(n), "v": got(v)}),
        D::Seq(xs) => json!({"d": "seq", "xs": all(xs)}),
        D::Tup(xs) => json!({"d": "tup", "xs": all(xs)}),
        D::TVar(n, xs) => json!({"d": "tvar", "n": t(n), "xs": all(xs)}),
        D::Map(ps) => json!({"d": "map", "ps": ps.iter().map(|(k, v)| json!([got(k), got(v)])).collect::<Vec<_>>()}),
        D::Struct(ps) => json!({"d": "struct", "ps": fields(ps)}),
        D::SVar(n, ps) => json!({"d": "svar", "n": t(n), "ps": fields(ps)}),
        D::Val(v) => json!({"d": "any", "val": rs::value(v)}),
        D::Num(n) => num("num", &n.to_string()),
        d => d.dump(),
    }
}

struct ReadOpt<'a>(&'a Sh);
impl<'de> Visitor<'de> for ReadOpt<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an option")
    }
    fn visit_none<E: de::Error>(self) -> Result<D, E> {
        Ok(D::None)
    }
    fn visit_unit<E: de::Error>(self) -> Result<D, E> {
        Ok(D::None)
    }
    fn visit_some<X: Deserializer<'de>>(self, x: X) -> Result<D, X::Error> {
        Ok(D::Some(Box::new(self.0.deserialize(x)?)))
    }
}

struct ReadNew<'a>(&'a Sh);
impl<'de> Visitor<'de> for ReadNew<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a newtype")
    }
    fn visit_newtype_struct<X: Deserializer<'de>>(self, x: X) -> Result<D, X::Error> {
        Ok(D::NStruct(Box::new(self.0.deserialize(x)?)))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        match a.next_element_seed(self.0)? {
            Some(v) => Ok(D::NStruct(Box::new(v))),
            None => Err(de::Error::invalid_length(0, &"a newtype")),
        }
    }
}

struct ReadSeq<'a>(&'a Sh);
impl<'de> Visitor<'de> for ReadSeq<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        let mut xs = vec![];
        while let Some(x) = a.next_element_seed(self.0)? {
            xs.push(x);
        }
        Ok(D::Seq(xs))
    }
}

fn elements<'de, A: de::SeqAccess<'de>>(shs: &[&Sh], a: &mut A) -> Result<Vec<D>, A::Error> {
    let mut xs = vec![];
    for sh in shs {
        match a.next_element_seed(*sh)? {
            Some(x) => xs.push(x),
            None => return Err(de::Error::invalid_length(xs.len(), &"more elements")),
        }
    }
    Ok(xs)
}

struct ReadTup<'a>(&'a [Sh]);
impl<'de> Visitor<'de> for ReadTup<'_> {
    type Value = Vec<D>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a tuple")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<D>, A::Error> {
        elements(&self.0.iter().collect::<Vec<_>>(), &mut a)
    }
}

struct ReadMap<'a>(&'a Sh, &'a Sh);
impl<'de> Visitor<'de> for ReadMap<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        let mut ps = vec![];
        while let Some(k) = a.next_key_seed(self.0)? {
            ps.push((k, a.next_value_seed(self.1)?));
        }
        Ok(D::Map(ps))
    }
}

/// The index of a field or variant; None for an unknown one if that is fine.
struct ReadName<'a>(&'a [Name], bool);
impl ReadName<'_> {
    fn at<E: de::Error>(&self, at: Option<usize>, name: &str) -> Result<Option<usize>, E> {
        if at.is_none() && self.1 {
            return Err(E::custom(format!("unknown variant {name}")));
        }
        Ok(at)
    }
}
impl<'de> Visitor<'de> for ReadName<'_> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        self.at(Some(v as usize).filter(|v| *v < self.0.len()), &v.to_string())
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        self.at(self.0.iter().position(|n| *n == v), v)
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        self.at(self.0.iter().position(|n| n.as_bytes() == v), "")
    }
}
impl<'de> DeserializeSeed<'de> for ReadName<'_> {
    type Value = Option<usize>;
    fn deserialize<X: Deserializer<'de>>(self, x: X) -> Result<Option<usize>, X::Error> {
        x.deserialize_identifier(self)
    }
}

struct ReadFields<'a>(&'a Fields);
impl<'de> Visitor<'de> for ReadFields<'_> {
    type Value = Vec<(Name, D)>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let shs: Vec<&Sh> = self.0 .0.iter().map(|f| &f.1).collect();
        let xs = elements(&shs, &mut a)?;
        Ok(self.0 .0.iter().map(|f| f.0).zip(xs).collect())
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let fs = &self.0 .0;
        let mut vs: Vec<Option<D>> = vec![None; fs.len()];
        while let Some(at) = a.next_key_seed(ReadName(self.0 .1, false))? {
            match at {
                None => {
                    a.next_value::<de::IgnoredAny>()?;
                }
                Some(j) => {
                    if vs[j].is_some() {
                        return Err(de::Error::duplicate_field(fs[j].0));
                    }
                    vs[j] = Some(a.next_value_seed(&fs[j].1)?);
                }
            }
        }
        let mut out = vec![];
        for (f, v) in fs.iter().zip(vs) {
            match v {
                Some(v) => out.push((f.0, v)),
                None if matches!(f.1, Sh::Opt(_)) => out.push((f.0, D::None)),
                None => return Err(de::Error::missing_field(f.0)),
            }
        }
        Ok(out)
    }
}

struct ReadEnum<'a>(&'a [(Name, Var)], &'static [Name]);
impl<'de> Visitor<'de> for ReadEnum<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an enum")
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        use de::VariantAccess;
        let (at, v) = a.variant_seed(ReadName(self.1, true))?;
        let (name, var) = &self.0[at.unwrap()];
        Ok(match var {
            Var::Unit => {
                v.unit_variant()?;
                D::UVar(name)
            }
            Var::New(sh) => D::NVar(name, Box::new(v.newtype_variant_seed(sh)?)),
            Var::Tup(shs) => D::TVar(name, v.tuple_variant(shs.len(), ReadTup(shs))?),
            Var::Struct(fs) => D::SVar(name, v.struct_variant(fs.1, ReadFields(fs))?),
        })
    }
}

impl<'de> DeserializeSeed<'de> for &Sh {
    type Value = D;
    fn deserialize<X: Deserializer<'de>>(self, x: X) -> Result<D, X::Error> {
        macro_rules! int {
            ($($ty:ident)*) => {
                match self {
                    $(Sh::Int(stringify!($ty)) => $ty::deserialize(x).map(|i| D::Int(stringify!($ty), i as i128)),)*
                    _ => unreachable!(),
                }
            };
        }
        match self {
            Sh::Bool => bool::deserialize(x).map(D::Bool),
            Sh::Int(_) => int!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128),
            Sh::F64 => f64::deserialize(x).map(D::F64),
            Sh::Char => char::deserialize(x).map(D::Char),
            Sh::Str => String::deserialize(x).map(D::Str),
            Sh::Unit => <()>::deserialize(x).map(|()| D::Unit),
            Sh::UStruct => {
                #[derive(Deserialize)]
                struct U;
                U::deserialize(x).map(|_| D::Unit)
            }
            Sh::Num => Number::deserialize(x).map(D::Num),
            Sh::Any => HclValue::deserialize(x).map(D::Val),
            Sh::Ign => de::IgnoredAny::deserialize(x).map(|_| D::Unit),
            Sh::Expr => Expression::deserialize(x).map(D::Expr),
            Sh::Opt(v) => x.deserialize_option(ReadOpt(v)),
            Sh::New(v) => x.deserialize_newtype_struct("N", ReadNew(v)),
            Sh::Seq(v) => x.deserialize_seq(ReadSeq(v)),
            Sh::Tup(vs) => x.deserialize_tuple(vs.len(), ReadTup(vs)).map(D::Tup),
            Sh::TStruct(vs) => x.deserialize_tuple_struct("T", vs.len(), ReadTup(vs)).map(D::Tup),
            Sh::Map(k, v) => x.deserialize_map(ReadMap(k, v)),
            Sh::Struct(fs) => x.deserialize_struct("S", fs.1, ReadFields(fs)).map(D::Struct),
            Sh::Enum(vs, names) => x.deserialize_enum("E", names, ReadEnum(vs, names)),
        }
    }
}

thread_local! {
    static SHAPE: std::cell::RefCell<Sh> = const { std::cell::RefCell::new(Sh::Any) };
}

/// Data of the shape which was set.
struct Shaped(D);
impl<'de> Deserialize<'de> for Shaped {
    fn deserialize<X: Deserializer<'de>>(x: X) -> Result<Self, X::Error> {
        let sh = SHAPE.with(|s| s.borrow().clone());
        (&sh).deserialize(x).map(Shaped)
    }
}
fn as_shape<T>(sh: &Sh, f: impl FnOnce() -> T) -> T {
    SHAPE.with(|s| *s.borrow_mut() = sh.clone());
    f()
}

impl Rand<'_> {
    fn shapes(&mut self, d: usize, n: usize) -> Vec<Sh> {
        (0..self.g.r.below(n + 1)).map(|_| self.shape(d)).collect()
    }
    fn field_shapes(&mut self, d: usize) -> Fields {
        Fields::new(self.names(3).into_iter().map(|n| (n, self.shape(d))).collect())
    }
    fn int_ty(&mut self) -> Name {
        INTS[self.g.r.below(INTS.len())].0
    }
    fn key_shape(&mut self) -> Sh {
        match self.r().below(12) {
            0 => Sh::Char,
            1 => Sh::Int(self.int_ty()),
            2 => Sh::New(Box::new(self.key_shape())),
            3 => Sh::Opt(Box::new(self.key_shape())),
            4 | 5 => Sh::enumeration(self.names(3).into_iter().map(|n| (n, Var::Unit)).collect()),
            6 if self.odd > 0 => match self.r().below(4) { 0 => Sh::Bool, 1 => Sh::F64, 2 => Sh::Num, _ => Sh::Unit },
            _ => Sh::Str,
        }
    }
    pub fn shape(&mut self, d: usize) -> Sh {
        let n = if d == 0 { 14 } else { 26 };
        match self.r().below(n) {
            0 => Sh::Bool,
            1..=3 => Sh::Int(self.int_ty()),
            4 => Sh::F64,
            5 => Sh::Char,
            6 | 7 => Sh::Str,
            8 => Sh::Unit,
            9 => Sh::UStruct,
            10 => Sh::Num,
            11 => Sh::Any,
            12 => if self.r().chance(40) { Sh::Ign } else { Sh::Expr },
            13 => if self.r().chance(20) { Sh::Int(["i128", "u128"][self.g.r.below(2)]) } else { Sh::Any },
            14 | 15 => Sh::Opt(Box::new(self.shape(d - 1))),
            16 => Sh::New(Box::new(self.shape(d - 1))),
            17 | 18 => Sh::Seq(Box::new(self.shape(d - 1))),
            19 => Sh::Tup(self.shapes(d - 1, 3)),
            20 => Sh::TStruct(self.shapes(d - 1, 3)),
            21 => { let k = self.key_shape(); Sh::Map(Box::new(k), Box::new(self.shape(d - 1))) }
            22 | 23 => Sh::Struct(self.field_shapes(d - 1)),
            _ => Sh::enumeration(self.names(4).into_iter().map(|n| (n, match self.g.r.below(4) {
                0 => Var::Unit,
                1 => Var::New(self.shape(d - 1)),
                2 => Var::Tup(self.shapes(d - 1, 3)),
                _ => Var::Struct(self.field_shapes(d - 1)),
            })).collect()),
        }
    }
    /// A shape of a whole document, mostly.
    pub fn top_shape(&mut self, d: usize) -> Sh {
        match self.r().below(14) {
            0 => self.shape(d),
            1 => Sh::New(Box::new(self.top_shape(d))),
            2 => Sh::Opt(Box::new(self.top_shape(d))),
            3 | 4 => { let k = self.key_shape(); Sh::Map(Box::new(k), Box::new(self.shape(d))) }
            5 => Sh::Any,
            6 | 7 => Sh::enumeration(self.names(4).into_iter().map(|n| (n, match self.g.r.below(4) {
                0 => Var::Unit,
                1 => Var::New(self.shape(d)),
                2 => Var::Tup(self.shapes(d, 3)),
                _ => Var::Struct(self.field_shapes(d)),
            })).collect()),
            _ => Sh::Struct(self.field_shapes(d)),
        }
    }

    fn all(&mut self, shs: &[Sh], mark: bool) -> Vec<D> {
        shs.iter().map(|s| self.of(s, mark)).collect()
    }
    fn fields_of(&mut self, fs: &Fields, mark: bool) -> Vec<(Name, D)> {
        fs.0.iter().map(|f| (f.0, self.of(&f.1, mark))).collect()
    }
    /// Data of the shape, maybe with marks where blocks can be.
    pub fn of(&mut self, sh: &Sh, mark: bool) -> D {
        if mark && self.g.r.chance(self.marks) {
            match sh {
                Sh::Map(..) | Sh::Struct(..) | Sh::Enum(..) | Sh::Seq(..) | Sh::New(..) => {
                    let d = Box::new(self.of(sh, true));
                    return if self.g.r.chance(if self.marks > 50 { 30 } else { 60 }) { D::Block(d) } else { D::LBlock(d) };
                }
                _ => {}
            }
        }
        match sh {
            Sh::Bool => D::Bool(self.r().chance(50)),
            Sh::Int(ty @ ("i128" | "u128")) => D::Int(if *ty == "i128" { "i64" } else { "u64" }, self.g.r.below(1000) as i128),
            Sh::Int(ty) => D::Int(ty, self.int(ty)),
            Sh::F64 => loop {
                let f = self.f64();
                if f.is_finite() || self.r().chance(10) {
                    return D::F64(f);
                }
            },
            Sh::Char => D::Char(self.char()),
            Sh::Str => D::Str(format::text(self.r())),
            Sh::Unit | Sh::Ign => D::Unit,
            Sh::UStruct => D::UStruct,
            Sh::Num => D::Num(format::number(self.r())),
            Sh::Any => D::Val(format::value(self.r(), 2)),
            Sh::Expr => D::Expr(self.expr(false)),
            Sh::Opt(v) => if self.r().chance(40) { D::None } else { D::Some(Box::new(self.of(v, mark))) },
            Sh::New(v) => D::NStruct(Box::new(self.of(v, mark))),
            Sh::Seq(v) => D::Seq((0..self.g.r.below(4)).map(|_| self.of(v, mark)).collect()),
            Sh::Tup(vs) => D::Tup(self.all(vs, mark)),
            Sh::TStruct(vs) => D::TStruct(self.all(vs, mark)),
            Sh::Map(k, v) => {
                let mut ps: Vec<(D, D)> = vec![];
                for _ in 0..self.r().below(4) {
                    let mut key = self.of(k, false);
                    if self.r().chance(80) {
                        tame(&mut key, self.name());
                    }
                    ps.push((key, self.of(v, mark)));
                }
                D::Map(unique(ps))
            }
            Sh::Struct(fs) => D::Struct(self.fields_of(fs, mark)),
            Sh::Enum(vs, _) => {
                if vs.is_empty() {
                    return D::Unit;
                }
                let j = self.r().below(vs.len());
                let n = vs[j].0;
                match &vs[j].1 {
                    Var::Unit => D::UVar(n),
                    Var::New(v) => D::NVar(n, Box::new(self.of(v, mark))),
                    Var::Tup(vs) => D::TVar(n, self.all(vs, mark)),
                    Var::Struct(fs) => D::SVar(n, self.fields_of(fs, mark)),
                }
            }
        }
    }
    /// Another shape, which differs a little.
    fn bend(&mut self, sh: &Sh) -> Sh {
        if self.r().chance(12) {
            return self.shape(1);
        }
        let bend_fields = |r: &mut Self, fs: &Fields| {
            let mut fs = fs.0.clone();
            match r.r().below(6) {
                0 if !fs.is_empty() => { let k = r.g.r.below(fs.len()); fs.remove(k); }
                1 => { let n = r.name(); if fs.iter().all(|f| f.0 != n) { let sh = r.shape(1); fs.push((n, sh)); } }
                2 => { let n = r.name(); if fs.iter().all(|f| f.0 != n) { let sh = r.shape(0); fs.insert(0, (n, Sh::Opt(Box::new(sh)))); } }
                3 => fs.reverse(),
                _ => if !fs.is_empty() { let k = r.g.r.below(fs.len()); fs[k].1 = r.bend(&fs[k].1.clone()); },
            }
            Fields::new(fs)
        };
        let bend_all = |r: &mut Self, vs: &[Sh]| {
            let mut vs = vs.to_vec();
            match r.r().below(4) {
                0 => { vs.pop(); }
                1 => vs.push(r.shape(0)),
                _ => if !vs.is_empty() { let k = r.g.r.below(vs.len()); vs[k] = r.bend(&vs[k].clone()); },
            }
            vs
        };
        match sh {
            Sh::Opt(v) => if self.r().chance(40) { (**v).clone() } else { Sh::Opt(Box::new(self.bend(v))) },
            Sh::New(v) => if self.r().chance(40) { (**v).clone() } else { Sh::New(Box::new(self.bend(v))) },
            Sh::Seq(v) => match self.r().below(4) {
                0 => Sh::Tup(vec![(**v).clone(); 1]),
                1 => Sh::Tup(vec![(**v).clone(); 2]),
                _ => Sh::Seq(Box::new(self.bend(v))),
            },
            Sh::Tup(vs) => Sh::Tup(bend_all(self, vs)),
            Sh::TStruct(vs) => if self.r().chance(30) {
                Sh::Struct(Fields::new(vs.iter().enumerate().map(|(k, v)| (NAMES[k], v.clone())).collect()))
            } else { Sh::TStruct(bend_all(self, vs)) },
            Sh::Map(k, v) => match self.r().below(4) {
                0 => { let n = self.names(3); Sh::Struct(Fields::new(n.into_iter().map(|n| (n, (**v).clone())).collect())) }
                1 => { let k = self.key_shape(); Sh::Map(Box::new(k), v.clone()) }
                _ => Sh::Map(k.clone(), Box::new(self.bend(v))),
            },
            Sh::Struct(fs) => match self.r().below(6) {
                0 => { let k = self.key_shape(); let v = self.shape(1); Sh::Map(Box::new(k), Box::new(v)) }
                1 => Sh::enumeration(fs.0.iter().map(|f| (f.0, Var::New(f.1.clone()))).collect()),
                _ => Sh::Struct(bend_fields(self, fs)),
            },
            Sh::Enum(vs, _) => {
                let mut vs = vs.clone();
                if !vs.is_empty() {
                    let k = self.r().below(vs.len());
                    match self.r().below(6) {
                        0 => { vs.remove(k); }
                        1 => return Sh::Struct(Fields::new(vs.into_iter().map(|v| (v.0, match v.1 { Var::New(s) => s, _ => Sh::Any })).collect())),
                        2 => vs[k].1 = Var::Unit,
                        _ => {
                            vs[k].1 = match vs[k].1.clone() {
                                Var::Unit => Var::New(self.shape(0)),
                                Var::New(v) => Var::New(self.bend(&v)),
                                Var::Tup(v) => Var::Tup(bend_all(self, &v)),
                                Var::Struct(fs) => Var::Struct(bend_fields(self, &fs)),
                            }
                        }
                    }
                }
                Sh::enumeration(vs)
            }
            Sh::Int(_) => match self.r().below(4) { 0 => Sh::F64, 1 => Sh::Str, 2 => Sh::Num, _ => Sh::Int(self.int_ty()) },
            Sh::F64 => Sh::Int(self.int_ty()),
            Sh::Str => if self.r().chance(50) { Sh::Char } else { Sh::enumeration(vec![("a", Var::Unit), ("b c", Var::Unit)]) },
            Sh::Any => self.shape(2),
            Sh::Unit => Sh::Opt(Box::new(Sh::Unit)),
            _ => self.shape(0),
        }
    }
}

/// A text becomes a name.
fn tame(d: &mut D, n: Name) {
    match d {
        D::Str(s) => *s = n.into(),
        D::Char(c) => *c = n.chars().next().filter(|_| n.chars().count() == 1).unwrap_or('c'),
        D::Some(v) | D::NStruct(v) => tame(v, n),
        _ => {}
    }
}

fn of<E: fmt::Display>(f: impl FnOnce() -> Result<Shaped, E>) -> Value {
    route(f, |s| got(&s.0))
}

fn from_body(sh: &Sh, b: &Body) -> Vec<Value> {
    use hcl::de::Deserializer as De;
    as_shape(sh, || {
        vec![
            of(|| hcl::from_body::<Shaped>(b.clone())),
            of(|| Shaped::deserialize(De::from_body(b.clone()))),
        ]
    })
}

fn from_text(sh: &Sh, text: &str) -> Vec<Value> {
    use hcl::de::Deserializer as De;
    as_shape(sh, || {
        vec![
            of(|| hcl::from_str::<Shaped>(text)),
            of(|| hcl::from_slice::<Shaped>(text.as_bytes())),
            of(|| hcl::from_reader::<Shaped, _>(text.as_bytes())),
            of(|| De::from_str(text).and_then(Shaped::deserialize)),
        ]
    })
}

fn from_expr(sh: &Sh, e: &Expression) -> Vec<Value> {
    as_shape(sh, || {
        vec![
            of(|| Shaped::deserialize(e.clone())),
            of(|| Shaped::deserialize(e.clone().into_deserializer())),
        ]
    })
}

fn from_value(sh: &Sh, v: &HclValue) -> Vec<Value> {
    as_shape(sh, || {
        vec![
            of(|| hcl::from_value::<Shaped>(v.clone())),
            of(|| Shaped::deserialize(v.clone().into_deserializer())),
        ]
    })
}

fn literals(b: &Body) -> bool {
    b.iter().all(|s| match s {
        Structure::Attribute(a) => literal(a.expr()),
        Structure::Block(b) => literals(b.body()),
    })
}

pub fn read(out: &mut Out, seed: u64, tier: &str) {
    let n = if tier == "thorough" { 24000 } else { 1200 };
    let mut g = Gen::new(seed ^ 0xde5e, 0);
    for i in 0..n {
        g.noise = [0, 5][i % 2];
        let mut r = Rand { g: &mut g, odd: [0, 0, 3, 10][i % 4], marks: [35, 80][i % 2], mixed: 0 };
        let depth = 1 + i % 3;
        let sh = if i % 5 < 3 { r.top_shape(depth) } else { r.shape(depth) };
        let mark = i % 3 == 0;
        let x = r.of(&sh, mark);
        let mut bent = r.bend(&sh);
        if r.r().chance(30) {
            bent = r.bend(&bent);
        }
        out.current(&format!("{sh:?} {x:?} {bent:?}"));
        let xd = x.dump();
        if xd.to_string().len() + sh.dump().to_string().len() > 9000 {
            continue;
        }
        back(out, &sh, &x);
        // Read as something else.
        if let Some(b) = Body::from_serializable(&x).ok().filter(literals) {
            document(out, &bent, &hcl::to_string(&x).unwrap(), &b, None);
        }
        if let Some(e) = Expression::from_serializable(&x).ok().filter(literal) {
            out.put(&json!({"k": "expr", "rt": false, "sh": bent.dump(), "in": rs::expr(&e), "got": from_expr(&bent, &e)}));
        }
        if let Some(v) = hcl::to_value(&x).ok().filter(|_| !sh_exprs(&bent)) {
            out.put(&json!({"k": "val", "rt": false, "sh": bent.dump(), "in": rs::value(&v), "got": from_value(&bent, &v)}));
        }
        // documents and expressions which were not written by a serializer
        if i % 3 == 0 {
            let e = r.expr(true);
            let bent = r.shape(2);
            out.put(&json!({"k": "expr", "rt": false, "sh": bent.dump(), "in": rs::expr(&e), "got": from_expr(&bent, &e)}));
            let b = r.body();
            if literals(&b) {
                let text = hcl::to_string(&b).unwrap();
                let bent = r.top_shape(2);
                document(out, &bent, &text, &b, None);
            }
        }
    }
}

/// A document and the text for it.
fn document(out: &mut Out, sh: &Sh, text: &str, b: &Body, x: Option<&Value>) {
    let put = |out: &mut Out, b: &Body, got: Vec<Value>| {
        let mut o = json!({"k": "doc", "rt": x.is_some(), "sh": sh.dump(), "in": rs::body(b), "got": got});
        if let Some(x) = x {
            o["x"] = x.clone();
        }
        out.put(&o);
    };
    let parsed = text.parse::<Body>().ok();
    let mut got = from_body(sh, b);
    if let Some(p) = parsed {
        if p == *b {
            got.extend(from_text(sh, text));
        } else if x.is_none() || sh_exprs(sh) {
            // Expressions and strings may be spelled in another way.
            put_plain(out, sh, &p, from_text(sh, text));
        } else {
            put(out, &p, from_text(sh, text));
        }
    }
    put(out, b, got);
}

fn put_plain(out: &mut Out, sh: &Sh, b: &Body, got: Vec<Value>) {
    out.put(&json!({"k": "doc", "rt": false, "sh": sh.dump(), "in": rs::body(b), "got": got}));
}

/// Whether expressions are part of the shape.
fn sh_exprs(sh: &Sh) -> bool {
    sh.dump().to_string().contains("\"expr\"")
}

// ---------------------------------------------------------------------------------------------
// Data and shapes of the specification.

fn name(v: &Value) -> Name {
    let n = txt(v);
    NAMES.iter().chain(ODD).find(|x| **x == n).copied().unwrap_or_else(|| Box::leak(n.into_boxed_str()))
}

fn each<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().unwrap().iter().map(f).collect()
}

fn integer(v: &Value) -> i128 {
    let digs: String = each(&v["digs"], |d| d.to_string()).concat();
    let n: i128 = if digs.is_empty() { 0 } else { format!("{digs:0<w$}", w = v["x"].as_u64().unwrap() as usize).parse().unwrap() };
    if v["neg"] == true { -n } else { n }
}

fn shape_of(v: &Value) -> Sh {
    let fields = |v: &Value| Fields::new(each(v, |f| (name(&f[0]), shape_of(&f[1]))));
    match v["s"].as_str().unwrap() {
        "bool" => Sh::Bool,
        "int" => {
            let ty = format!("{}{}", if v["sg"] == true { 'i' } else { 'u' }, v["bits"]);
            Sh::Int(INTS.iter().find(|x| x.0 == ty).unwrap().0)
        }
        "f64" => Sh::F64,
        "char" => Sh::Char,
        "str" => Sh::Str,
        "unit" => Sh::Unit,
        "any" => Sh::Any,
        "expr" => Sh::Expr,
        "opt" => Sh::Opt(Box::new(shape_of(&v["v"]))),
        "new" => Sh::New(Box::new(shape_of(&v["v"]))),
        "seq" => Sh::Seq(Box::new(shape_of(&v["v"]))),
        "tup" => Sh::Tup(each(&v["vs"], shape_of)),
        "map" => Sh::Map(Box::new(shape_of(&v["key"])), Box::new(shape_of(&v["v"]))),
        "struct" => Sh::Struct(fields(&v["fs"])),
        "enum" => Sh::enumeration(each(&v["vs"], |w| {
            let kind = match w[1]["s"].as_str().unwrap() {
                "unit" => Var::Unit,
                "new" => Var::New(shape_of(&w[1]["v"])),
                "tup" => Var::Tup(each(&w[1]["vs"], shape_of)),
                _ => Var::Struct(fields(&w[1]["fs"])),
            };
            (name(&w[0]), kind)
        })),
        s => panic!("shape {s}"),
    }
}

fn name_of(v: &Value) -> Name {
    ["hcl", "expr", "value", "json"].into_iter().find(|w| v == w).unwrap()
}

pub fn data_of(v: &Value) -> D {
    let inner = || Box::new(data_of(&v["v"]));
    let xs = || each(&v["xs"], data_of);
    let ps = || each(&v["ps"], |p| (name(&p[0]), data_of(&p[1])));
    match v["d"].as_str().unwrap() {
        "bool" => D::Bool(v["b"] == true),
        "int" => D::Int("u8", integer(&v["val"])),
        "float" => D::F64(-1.5),
        "nan" => D::F64(f64::NAN),
        "char" => D::Char(txt(&v["s"]).chars().next().unwrap()),
        "str" => D::Str(txt(&v["s"])),
        "none" => D::None,
        "unit" => D::Unit,
        "some" => D::Some(inner()),
        "nstruct" => D::NStruct(inner()),
        "uvar" => D::UVar(name(&v["n"])),
        "nvar" => D::NVar(name(&v["n"]), inner()),
        "tvar" => D::TVar(name(&v["n"]), xs()),
        "svar" => D::SVar(name(&v["n"]), ps()),
        "seq" => D::Seq(xs()),
        "tup" => D::Tup(xs()),
        "map" => D::Map(each(&v["ps"], |p| (data_of(&p[0]), data_of(&p[1])))),
        "struct" => D::Struct(ps()),
        "block" => D::Block(inner()),
        "lblock" => D::LBlock(inner()),
        "via" => D::Via(name_of(&v["w"]), inner()),
        "try" => D::Try(name_of(&v["w"]), inner()),
        "fail" => D::Fail,
        "panic" => D::Panic,
        "expr" => D::Expr(Expression::Variable(hcl::expr::Variable::new(txt(&v["e"]["id"])).unwrap())),
        d => panic!("data {d}"),
    }
}

fn replay(out: &mut Out, what: &str, file: &str) {
    for line in std::fs::read_to_string(file).unwrap().lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let x = data_of(&v["x"]);
        out.current(line);
        assert_eq!(x.dump(), v["x"]);
        if what == "ser" {
            ser(out, &x);
        } else {
            back(out, &shape_of(&v["sh"]), &x);
        }
    }
}

/// Writes data in every way and reads them back.
fn back(out: &mut Out, sh: &Sh, x: &D) {
    let xd = x.dump();
    if let Ok(b) = Body::from_serializable(x) {
        let text = hcl::to_string(x).unwrap();
        document(out, sh, &text, &b, Some(&xd));
    }
    if let Ok(e) = Expression::from_serializable(x) {
        out.put(&json!({"k": "expr", "rt": true, "x": xd, "sh": sh.dump(), "in": rs::expr(&e), "got": from_expr(sh, &e)}));
    }
    if !sh_exprs(sh) {
        if let Ok(v) = hcl::to_value(x) {
            out.put(&json!({"k": "val", "rt": true, "x": xd, "sh": sh.dump(), "in": rs::value(&v), "got": from_value(sh, &v)}));
        }
    }
}
