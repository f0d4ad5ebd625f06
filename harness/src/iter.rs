//! Iterators of containers, see HclIter.tla.

use crate::gen::Rng;
use crate::Out;
use hcl_edit::expr::{Array, Expression, FuncArgs, Object, ObjectKey, ObjectValue};
use hcl_edit::template::{Element, StringTemplate, Template};
use hcl_edit::Ident;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Ids = Vec<usize>;

struct Op {
    o: String,
    n: usize,
}

fn none<T>(_: &T) -> Option<usize> {
    None
}
fn uncloned<T>(_: &T) -> Option<T> {
    None
}
fn clone<T: Clone>(it: &T) -> Option<T> {
    Some(it.clone())
}
fn exact<T: ExactSizeIterator>(it: &T) -> Option<usize> {
    Some(it.len())
}

/// Makes the requests; those for the back are made by `back`.
fn requests<I: Iterator>(
    it: I,
    ops: &[Op],
    len: impl Fn(&I) -> Option<usize>,
    cloned: impl Fn(&I) -> Option<I>,
    mut back: impl FnMut(&mut I, Option<usize>) -> Option<I::Item>,
    rev: impl FnOnce(I) -> Vec<I::Item>,
    mut id: impl FnMut(I::Item) -> usize,
) -> Value {
    let mut it = Some(it);
    let mut rev = Some(rev);
    let mut got: Vec<Value> = vec![];
    for op in ops {
        let mut one = |x: Option<I::Item>| x.into_iter().map(&mut id).collect::<Ids>();
        let i = it.as_mut().unwrap();
        got.push(match op.o.as_str() {
            "next" => json!(one(i.next())),
            "nth" => json!(one(i.nth(op.n))),
            "back" => json!(one(back(i, None))),
            "nthb" => json!(one(back(i, Some(op.n)))),
            "hint" => {
                let (lo, hi) = i.size_hint();
                json!({"lo": lo, "hi": hi.into_iter().collect::<Ids>(), "len": len(i).into_iter().collect::<Ids>()})
            }
            "clone" => match cloned(i) {
                Some(c) => json!(c.map(&mut id).collect::<Ids>()),
                None => json!([0]),
            },
            "rest" => json!(it.take().unwrap().map(&mut id).collect::<Ids>()),
            "rev" => json!(rev.take().unwrap()(it.take().unwrap()).into_iter().map(&mut id).collect::<Ids>()),
            "last" => json!(one(it.take().unwrap().last())),
            _ => json!([it.take().unwrap().count()]),
        });
    }
    json!(got)
}

/// Iterators which go both ways.
fn both<I: DoubleEndedIterator>(it: I, ops: &[Op], len: impl Fn(&I) -> Option<usize>, cloned: impl Fn(&I) -> Option<I>, id: impl FnMut(I::Item) -> usize) -> Value {
    let back = |i: &mut I, n: Option<usize>| match n {
        None => i.next_back(),
        Some(n) => i.nth_back(n),
    };
    requests(it, ops, len, cloned, back, |i| i.rev().collect(), id)
}
/// Iterators which go forward only.
fn forth<I: Iterator>(it: I, ops: &[Op], id: impl FnMut(I::Item) -> usize) -> Value {
    if ops.iter().any(|o| ["back", "nthb", "rev"].contains(&o.o.as_str())) {
        return Value::Null;
    }
    requests(it, ops, none, uncloned, |_, _| None, |_| vec![], id)
}

struct Runs(Vec<Value>);
impl Runs {
    /// `f` makes the requests and says which items are changed afterwards, if it changes items.
    fn go(&mut self, it: &str, which: &str, exact: bool, f: impl FnOnce() -> (Value, Option<Ids>)) {
        let res = catch_unwind(AssertUnwindSafe(f));
        let fine = res.is_ok();
        let (got, marked) = res.unwrap_or((json!([]), None));
        if got.is_null() {
            return;
        }
        for r in &mut self.0 {
            if r["which"] == which && r["exact"] == exact && r["got"] == got && r["marked"] == json!(marked.as_ref().map_or(vec![], |m| vec![m])) {
                r["its"].as_array_mut().unwrap().push(json!(it));
                return;
            }
        }
        self.0.push(json!({"its": [it], "which": which, "exact": exact, "fine": fine, "got": got, "marked": marked.map_or(vec![], |m| vec![m])}));
    }
}

fn name(k: usize) -> String {
    format!("n{k}")
}
fn number(s: &str) -> usize {
    s[1..].parse().unwrap()
}

mod r {
    use super::*;
    use hcl::structure::*;
    pub fn body(pat: &[char]) -> Body {
        pat.iter().enumerate().map(|(k, c)| match c {
            'a' => Structure::Attribute(Attribute::new(name(k + 1), k as u64)),
            _ => Structure::Block(Block::new(name(k + 1))),
        }).collect()
    }
    pub fn a(x: &Attribute) -> usize {
        number(x.key())
    }
    pub fn b(x: &Block) -> usize {
        number(x.identifier())
    }
    pub fn s(x: &Structure) -> usize {
        match x {
            Structure::Attribute(x) => a(x),
            Structure::Block(x) => b(x),
        }
    }
    pub fn am(x: &mut Attribute) -> usize {
        x.expr = true.into();
        a(x)
    }
    pub fn bm(x: &mut Block) -> usize {
        x.labels.push("m".into());
        b(x)
    }
    pub fn sm(x: &mut Structure) -> usize {
        match x {
            Structure::Attribute(x) => am(x),
            Structure::Block(x) => bm(x),
        }
    }
    pub fn marked(b: &Body) -> Ids {
        b.0.iter().filter(|s| match s {
            Structure::Attribute(x) => x.expr == true.into(),
            Structure::Block(x) => !x.labels.is_empty(),
        }).map(s).collect()
    }
    pub fn runs(rs: &mut Runs, pat: &[char], ops: &[Op]) {
        let new = || body(pat);
        let base = new();
        rs.go("rs.iter", "all", true, || (both(base.iter(), ops, exact, clone, s), None));
        rs.go("rs.&", "all", true, || (both((&base).into_iter(), ops, exact, clone, s), None));
        rs.go("rs.into_iter", "all", true, || (both(new().into_iter(), ops, exact, clone, |x| s(&x)), None));
        rs.go("rs.attributes", "a", false, || (both(base.attributes(), ops, none, clone, a), None));
        rs.go("rs.blocks", "b", false, || (both(base.blocks(), ops, none, clone, b), None));
        rs.go("rs.into_attributes", "a", false, || (both(new().into_attributes(), ops, none, clone, |x| a(&x)), None));
        rs.go("rs.into_blocks", "b", false, || (both(new().into_blocks(), ops, none, clone, |x| b(&x)), None));
        let mut m = |it: &str, which: &str, ex: bool, f: &dyn Fn(&mut Body) -> Value| {
            let mut b = new();
            rs.go(it, which, ex, || {
                let got = f(&mut b);
                (got, Some(marked(&b)))
            });
        };
        m("rs.iter_mut", "all", true, &|b| both(b.iter_mut(), ops, exact, uncloned, sm));
        m("rs.&mut", "all", true, &|b| both(b.into_iter(), ops, exact, uncloned, sm));
        m("rs.attributes_mut", "a", false, &|b| both(b.attributes_mut(), ops, none, uncloned, am));
        m("rs.blocks_mut", "b", false, &|b| both(b.blocks_mut(), ops, none, uncloned, bm));
    }
}

mod e {
    use super::*;
    use hcl_edit::structure::*;
    pub fn body(pat: &[char]) -> Body {
        pat.iter().enumerate().map(|(k, c)| match c {
            'a' => Structure::Attribute(Attribute::new(Ident::new(name(k + 1)), k as u64)),
            _ => Structure::Block(Block::new(Ident::new(name(k + 1)))),
        }).collect()
    }
    pub fn a(x: &Attribute) -> usize {
        number(x.key.as_str())
    }
    pub fn b(x: &Block) -> usize {
        number(x.ident.as_str())
    }
    pub fn s(x: &Structure) -> usize {
        match x {
            Structure::Attribute(x) => a(x),
            Structure::Block(x) => b(x),
        }
    }
    pub fn am(mut x: AttributeMut<'_>) -> usize {
        *x.value_mut() = true.into();
        a(&x)
    }
    pub fn bm(x: &mut Block) -> usize {
        x.labels.push("m".into());
        b(x)
    }
    pub fn sm(mut x: StructureMut<'_>) -> usize {
        if let Some(x) = x.as_attribute_mut() {
            return am(x);
        }
        bm(x.as_block_mut().unwrap())
    }
    pub fn marked(b: &Body) -> Ids {
        (0..b.len()).map(|k| b.get(k).unwrap()).filter(|s| match s {
            Structure::Attribute(x) => x.value == true.into(),
            Structure::Block(x) => !x.labels.is_empty(),
        }).map(s).collect()
    }
    pub fn runs(rs: &mut Runs, pat: &[char], ops: &[Op]) {
        let new = || body(pat);
        let base = new();
        rs.go("edit.iter", "all", false, || (forth(base.iter(), ops, s), None));
        rs.go("edit.&", "all", false, || (forth((&base).into_iter(), ops, s), None));
        rs.go("edit.into_iter", "all", false, || (forth(new().into_iter(), ops, |x| s(&x)), None));
        rs.go("edit.attributes", "a", false, || (forth(base.attributes(), ops, a), None));
        rs.go("edit.blocks", "b", false, || (forth(base.blocks(), ops, b), None));
        rs.go("edit.into_attributes", "a", false, || (forth(new().into_attributes(), ops, |x| a(&x)), None));
        rs.go("edit.into_blocks", "b", false, || (forth(new().into_blocks(), ops, |x| b(&x)), None));
        let mut m = |it: &str, which: &str, f: &dyn Fn(&mut Body) -> Value| {
            let mut b = new();
            rs.go(it, which, false, || {
                let got = f(&mut b);
                (got, Some(marked(&b)))
            });
        };
        m("edit.iter_mut", "all", &|b| forth(b.iter_mut(), ops, sm));
        m("edit.&mut", "all", &|b| forth(b.into_iter(), ops, sm));
        m("edit.attributes_mut", "a", &|b| forth(b.attributes_mut(), ops, am));
        m("edit.blocks_mut", "b", &|b| forth(b.blocks_mut(), ops, bm));
    }
}

fn num(x: &Expression) -> usize {
    x.as_number().unwrap().as_u64().unwrap() as usize
}
fn num_m(x: &mut Expression) -> usize {
    let k = num(x);
    *x = true.into();
    k
}
fn lit(x: &Element) -> usize {
    number(x.as_literal().unwrap())
}
fn lit_m(x: &mut Element) -> usize {
    let k = lit(x);
    *x = Element::from("m");
    k
}
fn true_at<'a>(xs: impl Iterator<Item = &'a Expression>) -> Ids {
    xs.enumerate().filter(|(_, x)| **x == true.into()).map(|(k, _)| k + 1).collect()
}

fn others(rs: &mut Runs, n: usize, ops: &[Op]) {
    let a: Array = (1..=n).map(|k| k as u64).collect();
    let f: FuncArgs = (1..=n).map(|k| k as u64).collect();
    let t: Template = (1..=n).map(name).collect();
    let q: StringTemplate = (1..=n).map(name).collect();
    let o: Object = (1..=n).map(|k| (ObjectKey::from(Ident::new(name(k))), ObjectValue::new(k as u64))).collect();
    macro_rules! seq {
        ($n:literal, $x:expr, $id:expr, $idm:expr, $marked:expr) => {
            rs.go(concat!($n, ".iter"), "all", false, || (forth($x.iter(), ops, $id), None));
            rs.go(concat!($n, ".&"), "all", false, || (forth((&$x).into_iter(), ops, $id), None));
            rs.go(concat!($n, ".into_iter"), "all", false, || (forth($x.clone().into_iter(), ops, |x| $id(&x)), None));
            let mut m = $x.clone();
            rs.go(concat!($n, ".iter_mut"), "all", false, || { let got = forth(m.iter_mut(), ops, $idm); (got, Some($marked(&m))) });
            let mut m = $x.clone();
            rs.go(concat!($n, ".&mut"), "all", false, || { let got = forth((&mut m).into_iter(), ops, $idm); (got, Some($marked(&m))) });
        };
    }
    seq!("array", a, num, num_m, |m: &Array| true_at((0..m.len()).map(|k| m.get(k).unwrap())));
    seq!("args", f, num, num_m, |m: &FuncArgs| true_at((0..m.len()).map(|k| m.get(k).unwrap())));
    let m_at = |g: &dyn Fn(usize) -> Element| (0..n).filter(|k| g(*k) == Element::from("m")).map(|k| k + 1).collect::<Ids>();
    seq!("template", t, lit, lit_m, |m: &Template| m_at(&|k| m.get(k).unwrap().clone()));
    seq!("quoted", q, lit, lit_m, |m: &StringTemplate| m_at(&|k| m.get(k).unwrap().clone()));
    let pair = |(k, v): (&ObjectKey, &ObjectValue)| {
        assert_eq!(number(k.as_ident().unwrap()), num(v.expr()));
        num(v.expr())
    };
    let marked = |m: &Object| (1..=n).filter(|k| *m.get(&ObjectKey::from(Ident::new(name(*k)))).unwrap().expr() == true.into()).collect::<Ids>();
    rs.go("object.iter", "all", false, || (forth(o.iter(), ops, pair), None));
    rs.go("object.&", "all", false, || (forth((&o).into_iter(), ops, pair), None));
    rs.go("object.into_iter", "all", false, || (forth(o.clone().into_iter(), ops, |(k, v)| pair((&k, &v))), None));
    let mut m = o.clone();
    let pair_m = |(k, v): (hcl_edit::expr::ObjectKeyMut<'_>, &mut ObjectValue)| {
        assert_eq!(number(k.as_ident().unwrap()), num(v.expr()));
        num_m(v.expr_mut())
    };
    rs.go("object.iter_mut", "all", false, || { let got = forth(m.iter_mut(), ops, pair_m); (got, Some(marked(&m))) });
    let mut m = o.clone();
    rs.go("object.&mut", "all", false, || { let got = forth((&mut m).into_iter(), ops, pair_m); (got, Some(marked(&m))) });
}

fn perform(out: &mut Out, pat: &[char], ops: &[Op]) {
    let mut rs = Runs(vec![]);
    r::runs(&mut rs, pat, ops);
    e::runs(&mut rs, pat, ops);
    // the kinds of items do not matter to other containers
    if !pat.contains(&'b') {
        others(&mut rs, pat.len(), ops);
    }
    let pat: Vec<String> = pat.iter().map(|c| c.to_string()).collect();
    let ops: Vec<Value> = ops.iter().map(|o| json!({"o": o.o, "n": o.n})).collect();
    out.put(&json!({"k": "iter", "pat": pat, "ops": ops, "runs": rs.0}));
}

pub fn run(out: &mut Out, seed: u64, tier: &str, file: &str) {
    if !file.is_empty() {
        for l in std::fs::read_to_string(file).unwrap().lines() {
            let v: Value = serde_json::from_str(l).unwrap();
            let pat: Vec<char> = v["pat"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().chars().next().unwrap()).collect();
            let ops: Vec<Op> = v["ops"].as_array().unwrap().iter()
                .map(|o| Op { o: o["o"].as_str().unwrap().to_owned(), n: o["n"].as_u64().unwrap_or(0) as usize }).collect();
            perform(out, &pat, &ops);
        }
        return;
    }
    let mut r = Rng::new(seed ^ 0x17e7);
    for i in 0..if tier == "thorough" { 20000 } else { 1500 } {
        let n = r.below(10);
        let pat: Vec<char> = (0..n).map(|_| if i % 3 == 0 || r.chance(50) { 'a' } else { 'b' }).collect();
        let fwd = r.chance(40);
        let mut ops = vec![];
        for _ in 0..r.below(9) {
            let o = if fwd { r.pick(&["next", "nth", "hint", "next"]) } else { r.pick(&["next", "back", "nth", "nthb", "hint", "clone"]) };
            ops.push(Op { o: o.to_owned(), n: r.below(4) });
        }
        if r.chance(80) {
            ops.push(Op { o: if fwd { r.pick(&["rest", "last", "count"]) } else { r.pick(&["rest", "rev", "last", "count"]) }.to_owned(), n: 0 });
        }
        perform(out, &pat, &ops);
    }
}
