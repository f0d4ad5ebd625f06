//! Observations of numbers and their operators.

use crate::dump::t;
use crate::gen::Rng;
use crate::Out;
use hcl::eval::{Context, Evaluate};
use hcl::expr::{BinaryOp, BinaryOperator, Expression};
use hcl::{Number, Value as HclValue};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::catch_unwind;


/// m * 2^e with m odd, m in limbs of 14 bits.
fn parts(f: f64) -> Value {
    if f == 0.0 {
        return json!({"neg": false, "m": [], "e": 0});
    }
    let bits = f.abs().to_bits();
    let exp = (bits >> 52) as i64;
    let frac = bits & ((1 << 52) - 1);
    let (mut m, mut e) = if exp == 0 { (frac, -1074) } else { (frac | 1 << 52, exp - 1075) };
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    let mut limbs = vec![];
    while m > 0 {
        limbs.push(m % 16384);
        m /= 16384;
    }
    json!({"neg": f < 0.0, "m": limbs, "e": e})
}

fn facts(n: &Number) -> Value {
    let s = n.to_string();
    let again = s.parse::<Expression>().is_ok_and(|e| e == Expression::Number(*n))
        && serde_json::to_value(n).is_ok_and(|j| serde_json::from_value::<Number>(j).is_ok_and(|m| m == *n))
        && Number::from_f64(n.as_f64().unwrap()).is_some_and(|m| !n.is_f64() || m == *n)
        && n.as_u64().is_none_or(|u| Number::from(u) == *n)
        && n.as_i64().is_none_or(|u| Number::from(u) == *n)
        && n.cmp_self();
    json!({"txt": t(&s), "u64": n.as_u64().map(|x| t(&x.to_string())).into_iter().collect::<Vec<_>>(),
        "i64": n.as_i64().map(|x| t(&x.to_string())).into_iter().collect::<Vec<_>>(),
        "isf": n.is_f64(), "isu": n.is_u64(), "isi": n.is_i64(), "f64": parts(n.as_f64().unwrap()), "again": again})
}

trait CmpSelf {
    fn cmp_self(&self) -> bool;
}
impl CmpSelf for Number {
    fn cmp_self(&self) -> bool {
        let m = *self;
        *self == m && hash(self) == hash(&m) && self.partial_cmp(&m) == Some(std::cmp::Ordering::Equal)
    }
}

fn hash(n: &Number) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

fn int(r: &mut Rng) -> Number {
    let n = match r.below(6) {
        0 => r.below(4) as i128,
        1 => r.below(100_000) as i128,
        2 => 1i128 << r.below(65),
        3 => r.next() as i128,
        4 => (r.next() >> r.below(64)) as i128,
        _ => [1 << 53, 1 << 63, 1 << 64, 1 << 32, 0][r.below(5)],
    } + [0, 0, 0, 1, -1, 2, -2][r.below(7)];
    let n = if r.chance(50) { -n } else { n };
    if let Ok(n) = u64::try_from(n) {
        n.into()
    } else if let Ok(n) = i64::try_from(n) {
        n.into()
    } else {
        Number::from_f64(n as f64).unwrap()
    }
}

fn float(r: &mut Rng) -> f64 {
    let f = match r.below(8) {
        0 => r.below(1000) as f64 / 8.0,
        1 => r.below(100_000) as f64 / 1000.0,
        2 => f64::from_bits(r.next()),
        3 => f64::from_bits((1023 - 60 + r.below(130) as u64) << 52 | (r.next() >> 12)),
        4 => *[f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 1e16, 1e17, 123456789012345680.0, 1e-5, 1e-4, 0.3, 2.2250738585072011e-308]
            .get(r.below(11))
            .unwrap(),
        5 => (1u128 << r.below(120)) as f64 * 1.5,
        6 => 2f64.powi(r.below(200) as i32 - 100),
        _ => r.below(10_000) as f64 * 10f64.powi(r.below(40) as i32 - 20),
    };
    let f = if f.is_finite() { f } else { 1.25 };
    if r.chance(40) {
        -f
    } else {
        f
    }
}

pub fn any(r: &mut Rng) -> Number {
    if r.chance(50) {
        int(r)
    } else {
        Number::from_f64(float(r)).unwrap()
    }
}

const OPS: [(&str, BinaryOperator); 5] = [
    ("+", BinaryOperator::Plus),
    ("-", BinaryOperator::Minus),
    ("*", BinaryOperator::Mul),
    ("/", BinaryOperator::Div),
    ("%", BinaryOperator::Mod),
];
const CMPS: [BinaryOperator; 6] = [
    BinaryOperator::Less,
    BinaryOperator::LessEq,
    BinaryOperator::Greater,
    BinaryOperator::GreaterEq,
    BinaryOperator::Eq,
    BinaryOperator::NotEq,
];

fn apply(op: BinaryOperator, a: Number, b: Number) -> Value {
    let e = Expression::from(BinaryOp::new(a, op, b));
    match catch_unwind(|| e.evaluate(&Context::new())) {
        Err(_) => json!({"r": "panic"}),
        Ok(Err(_)) => json!({"r": "err"}),
        Ok(Ok(HclValue::Number(n))) => json!({"r": "ok", "v": t(&n.to_string())}),
        Ok(Ok(HclValue::Bool(b))) => json!({"r": "ok", "v": b}),
        Ok(Ok(_)) => json!({"r": "other"}),
    }
}

fn pair(a: Number, b: Number) -> Value {
    let mut res = serde_json::Map::new();
    let mut ops = serde_json::Map::new();
    for (s, op) in OPS {
        res.insert(s.into(), apply(op, a, b));
        let direct = catch_unwind(|| match s {
            "+" => a + b,
            "-" => a - b,
            "*" => a * b,
            "/" => a / b,
            _ => a % b,
        });
        ops.insert(
            s.into(),
            match direct {
                Ok(n) => json!({"r": "ok", "v": t(&n.to_string())}),
                Err(_) => json!({"r": "panic"}),
            },
        );
    }
    let cmp = match a.partial_cmp(&b) {
        Some(o) if (o == std::cmp::Ordering::Equal) == (a == b) => o as i8 as i64,
        _ => 9,
    };
    json!({"k": "pair", "a": t(&a.to_string()), "b": t(&b.to_string()), "fa": facts(&a), "res": res, "ops": ops,
        "neg": t(&(-a).to_string()), "cmp": cmp,
        "hcl": CMPS.iter().map(|o| apply(*o, a, b)["v"].clone()).collect::<Vec<_>>(), "hash": hash(&a) == hash(&b)})
}

fn literal(r: &mut Rng) -> String {
    let mut s = String::new();
    let digits = |r: &mut Rng, n: usize| (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect::<String>();
    if r.chance(30) {
        s.push('-');
    }
    let n = [1, 1, 2, 5, 16, 17, 18, 19, 20, 21, 25][r.below(11)];
    s += &digits(r, n);
    if r.chance(50) {
        s.push('.');
        let n = [1, 1, 2, 5, 16, 17, 25][r.below(7)];
        s += &digits(r, n);
    }
    if r.chance(40) {
        s.push(if r.chance(50) { 'e' } else { 'E' });
        s += ["", "+", "-", "-"][r.below(4)];
        let e = [r.below(10), r.below(40), r.below(330)][r.below(3)];
        s += &e.to_string();
    }
    s
}

pub const LITERALS: &[&str] = &[
    "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775808",
    "1.0", "-0", "-0.0", "0e5", "0.0e-400", "1e400", "1e-400", "9007199254740993", "9007199254740993.0", "1e19", "1e20",
    "18446744073709551615.0", "1.7976931348623157e308", "1.7976931348623159e308", "2.4703282292062327e-324",
    "2.4703282292062328e-324", "4.9e-324", "00012", "0.1", "123456.789e3", "100e-2", "1E5", "-1.5e-5",
];

pub fn run(out: &mut Out, seed: u64, tier: &str) {
    let n = if tier == "thorough" { 8000 } else { 900 };
    let r = &mut Rng::new(seed ^ 0x99);
    for i in 0..n {
        let a = any(r);
        let b = if r.chance(15) {
            // A neighbour.
            match a.as_i64() {
                Some(x) if r.chance(50) => Number::from(x.saturating_add(1)),
                _ => Number::from_f64(a.as_f64().unwrap()).unwrap(),
            }
        } else {
            any(r)
        };
        out.put(&pair(a, b));
        if i % 3 == 0 {
            let f = float(r);
            let mut v = parts(f);
            v["k"] = json!("f64");
            v["fa"] = facts(&Number::from_f64(f).unwrap());
            out.put(&v);
        }
    }
    let mut lit = |s: &str| {
        out.current(s);
        let v = match s.parse::<Expression>() {
            Ok(Expression::Number(n)) => json!({"k": "lit", "s": t(s), "r": "ok", "fa": facts(&n)}),
            Ok(_) => json!({"k": "lit", "s": t(s), "r": "other"}),
            Err(_) => json!({"k": "lit", "s": t(s), "r": "err"}),
        };
        out.put(&v);
    };
    for s in LITERALS {
        lit(s);
    }
    for _ in 0..n / 2 {
        lit(&literal(r));
    }
}
