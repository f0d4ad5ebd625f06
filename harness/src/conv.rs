//! Rust values turned into expressions and values by their conversions, see BuildCheck.tla.

use crate::data::D;
use crate::dump::{self, t};
use crate::gen::Gen;
use crate::rs;
use crate::Out;
use hcl::expr::{Expression, ObjectKey};
use hcl::structure::BlockLabel;
use hcl::{Identifier, Map, Number, Value as HclValue};
use hcl_edit::expr as ee;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct Got {
    expr: Vec<Expression>,
    val: Vec<HclValue>,
    edit: Vec<ee::Expression>,
}

impl Got {
    fn e(&mut self, x: impl Into<Expression>) {
        self.expr.push(x.into());
    }
    fn v(&mut self, x: impl Into<HclValue>) {
        self.val.push(x.into());
    }
    fn d(&mut self, x: impl Into<ee::Expression>) {
        self.edit.push(x.into());
    }
    fn all<T: Clone + Into<Expression> + Into<HclValue> + Into<ee::Expression>>(&mut self, x: T) {
        self.e(x.clone());
        self.v(x.clone());
        self.d(x);
    }
    fn list<T: Clone + Into<Expression> + Into<HclValue> + Into<ee::Expression>>(&mut self, xs: Vec<T>) {
        self.lists(xs.clone());
        self.d(xs.iter().cloned().collect::<ee::Array>());
        let mut a = ee::Array::new();
        a.extend(xs.iter().cloned());
        self.d(a);
        self.d(ee::Array::from(xs.into_iter().map(Into::into).collect::<Vec<ee::Expression>>()));
    }
    fn lists<T: Clone + Into<Expression> + Into<HclValue>>(&mut self, xs: Vec<T>) {
        self.e(&xs[..]);
        self.e(Expression::from_iter(xs.clone()));
        self.e(xs.clone());
        self.v(&xs[..]);
        self.v(HclValue::from_iter(xs.clone()));
        self.v(xs);
    }
    fn map<T: Clone + Into<Expression> + Into<HclValue> + Into<ee::Expression>>(&mut self, ps: Vec<(String, T)>) {
        self.e(Expression::from_iter(ps.clone()));
        self.e(ps.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Expression>());
        self.e(hcl::expr::Object::from_iter(ps.iter().map(|(k, v)| (ObjectKey::from(k.clone()), v.clone().into()))));
        self.v(HclValue::from_iter(ps.clone()));
        self.v(ps.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<HclValue>());
        self.v(Map::from_iter(ps.iter().map(|(k, v)| (k.clone(), v.clone().into()))));
        let key = |k: &String| ee::ObjectKey::from(ee::Expression::from(k.as_str()));
        self.d(ps.iter().map(|(k, v)| (key(k), ee::ObjectValue::new(v.clone()))).collect::<ee::Object>());
        let mut o = ee::Object::new();
        o.extend(ps.iter().map(|(k, v)| (key(k), ee::ObjectValue::from(Into::<ee::Expression>::into(v.clone())))));
        self.d(o);
        let mut o = ee::Object::new();
        for (k, v) in &ps {
            o.insert(key(k), ee::ObjectValue::new(v.clone()));
        }
        self.d(o);
    }
    fn names<T: Clone + Into<Expression> + Into<ee::Expression>>(&mut self, ps: Vec<(String, T)>) {
        self.e(Expression::from_iter(ps.iter().map(|(k, v)| (Identifier::from(k.as_str()), v.clone()))));
        let key = |k: &String| ee::ObjectKey::from(hcl_edit::Ident::new(k));
        self.d(ps.iter().map(|(k, v)| (key(k), ee::ObjectValue::new(v.clone()))).collect::<ee::Object>());
    }
}

/// What came of x; the function fills in what the conversions make of it.
fn put(out: &mut Out, x: D, f: impl FnOnce(&mut Got)) {
    let mut got = Got::default();
    let fine = catch_unwind(AssertUnwindSafe(|| f(&mut got))).is_ok();
    let d = dump::Dump { bare: false, unset: true, spans: false };
    out.put(&json!({
        "k": "from", "fine": fine, "x": x.dump(),
        "expr": got.expr.iter().map(rs::expr).collect::<Vec<_>>(),
        "val": got.val.iter().map(rs::value).collect::<Vec<_>>(),
        "edit": got.edit.iter().map(|e| d.expr(e)).collect::<Vec<_>>(),
    }));
}

fn many(out: &mut Out, f: impl Fn(i128, &mut Got), ty: &'static str, lo: i128, hi: i128) {
    for i in [lo, lo + 1, -1, 0, 1, 9, 10, 42, 99, 100, 127, 128, 255, 256, 65535, 65536, hi - 1, hi] {
        if lo <= i && i <= hi {
            put(out, D::Int(ty, i), |g| f(i, g));
        }
    }
}

macro_rules! ints {
    ($out:expr, $($ty:ident)*) => {
        $(
            let (lo, hi) = ($ty::MIN as i128, $ty::MAX as i128);
            many($out, |i, g| g.all(i as $ty), "i64", lo, hi);
            for xs in [vec![], vec![$ty::MAX], vec![$ty::MIN, 1, $ty::MAX]] {
                put($out, D::Seq(xs.iter().map(|x| D::Int("i64", *x as i128)).collect()), |g| g.list(xs));
            }
            let ps = vec![("b".to_owned(), $ty::MIN), ("a c".to_owned(), 7), ("b".to_owned(), $ty::MAX)];
            put($out, D::Map(ps.iter().map(|(k, v)| (D::Str(k.clone()), D::Int("i64", *v as i128))).collect()), |g| g.map(ps));
        )*
    };
}

fn strings(g: &mut Gen) -> String {
    crate::format::text(&mut g.r)
}

pub fn run(out: &mut Out, seed: u64, tier: &str) {
    ints!(out, i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    for b in [true, false] {
        put(out, D::Bool(b), |g| g.all(b));
        put(out, D::Seq(vec![D::Bool(b), D::Bool(true)]), |g| g.list(vec![b, true]));
    }
    put(out, D::Unit, |g| {
        g.e(());
        g.v(());
        g.e(Expression::Null);
        g.v(HclValue::default());
        g.d(ee::Expression::null());
    });
    let floats = [
        0.0, -0.0, 1.0, -1.0, 0.1, 1.5, -2.75, 1e10, 1e15, 1e16, 123456789.125, 4503599627370496.5, 9007199254740993.0,
        18446744073709551616.0, 1e21, 1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 4.9e-324, f64::EPSILON, f64::NAN, f64::INFINITY, f64::NEG_INFINITY,
    ];
    for f in floats {
        put(out, D::F64(f), |g| g.all(f));
        put(out, D::F32(f as f32), |g| g.all(f as f32));
        put(out, D::Seq(vec![D::F64(f), D::F64(1.5)]), |g| g.list(vec![f, 1.5]));
    }
    let chars = ["", "!", "-", "+", "*", "/", "%", "=", "<", ">", "&", "|", "~", " "];
    for a in chars {
        for b in chars {
            for c in chars {
                op(out, &format!("{a}{b}{c}"));
            }
        }
    }
    let n = if tier == "thorough" { 6000 } else { 500 };
    let mut g = Gen::new(seed ^ 0xc0411, 0);
    for i in 0..n {
        let f = f64::from_bits(g.r.next());
        put(out, D::F64(f), |g| g.all(f));
        let f = f32::from_bits(g.r.next() as u32);
        put(out, D::F32(f), |g| g.all(f));
        let s = strings(&mut g);
        put(out, D::Str(s.clone()), |g| {
            g.all(s.as_str());
            g.all(s.clone());
            g.all(Cow::Borrowed(s.as_str()));
            g.all(Cow::<str>::Owned(s));
        });
        let ss: Vec<String> = (0..g.r.below(4)).map(|_| strings(&mut g)).collect();
        put(out, D::Seq(ss.iter().cloned().map(D::Str).collect()), |g| g.list(ss));
        let mut ps = vec![];
        for _ in 0..g.r.below(5) {
            ps.push((if g.r.chance(60) { g.r.pick(&["a", "b", "c", "null", "1"]).to_owned() } else { strings(&mut g) }, strings(&mut g)));
        }
        let x = D::Map(ps.iter().map(|(k, v)| (D::Str(k.clone()), D::Str(v.clone()))).collect());
        put(out, x, |g| g.map(ps));
        let mut ps = vec![];
        for _ in 0..g.r.below(5) {
            ps.push((["a", "b", "c", "null", "é", "x-1"][g.r.below(6)], g.r.next()));
        }
        let x = D::Map(ps.iter().map(|(k, v)| (D::UVar(k), D::Int("u64", *v as i128))).collect());
        put(out, x, |g| g.names(ps.into_iter().map(|(k, v)| (k.to_owned(), v)).collect()));
        let num: Number = crate::format::number(&mut g.r);
        put(out, D::Num(num.clone()), |g| g.all(num));
        let v = crate::format::value(&mut g.r, i % 4);
        put(out, D::Val(v.clone()), |g| {
            g.e(v.clone());
            g.v(Expression::from(v.clone()));
            g.v(v);
        });
        let vs: Vec<HclValue> = (0..g.r.below(4)).map(|_| crate::format::value(&mut g.r, 1)).collect();
        put(out, D::Seq(vs.iter().cloned().map(D::Val).collect()), |g| g.lists(vs));
        let s = strings(&mut g);
        let id = g.r.pick(&["a", "null", "é", "x-1"]).to_owned();
        label(out, "lstr", &s, vec![s.clone().into(), (&s).into(), s.as_str().into(), Cow::Borrowed(s.as_str()).into(), BlockLabel::String(s.clone())]);
        label(out, "lid", &id, vec![Identifier::from(id.as_str()).into(), BlockLabel::Identifier(Identifier::unchecked(id.as_str()))]);
    }
}

fn label(out: &mut Out, k: &str, s: &str, ls: Vec<BlockLabel>) {
    let got: Vec<Value> = ls.iter().map(rs::label).collect();
    let txt: Vec<Value> = ls.iter().map(|l| t(l.as_str())).chain(ls.iter().map(|l| t(&l.clone().into_inner()))).collect();
    out.put(&json!({"k": k, "s": t(s), "got": got, "txt": txt}));
}

fn op(out: &mut Out, s: &str) {
    use hcl::expr::{BinaryOperator, HeredocStripMode, UnaryOperator};
    let bin = s.parse::<BinaryOperator>().into_iter().map(|o| json!({"s": [t(o.as_str()), t(&o.to_string())], "p": o.precedence()}));
    let un = s.parse::<UnaryOperator>().into_iter().map(|o| json!({"s": [t(o.as_str()), t(&o.to_string())]}));
    let hd = format!("<<{s}").parse::<HeredocStripMode>().into_iter()
        .map(|m| json!({"flush": m == HeredocStripMode::Indent, "s": t(m.as_str())}));
    let v: Vec<Value> = bin.collect();
    let u: Vec<Value> = un.collect();
    let h: Vec<Value> = hd.collect();
    out.put(&json!({"k": "op", "s": t(s), "bin": v, "un": u, "hd": h}));
}
