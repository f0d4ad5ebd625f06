//! Observations of evaluation: typed random expressions, templates and bodies in random contexts.

use crate::dump::t;
use crate::gen::{Gen, Rng};
use crate::{format, rs, Out};
use hcl::eval::*;
use hcl::expr::FuncName;
use hcl::structure::Body;
use hcl::template::Template;
use hcl::{Expression, Identifier, Map, Value as HclValue};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Bool,
    Num,
    Str,
    Null,
    List(Box<Ty>),
    Map(Box<Ty>),
}

const KEYS: &[&str] = &["a", "b", "c"];
const VARS: &[&str] = &["x", "y", "z", "w", "i", "k", "v"];

fn echo<const TAG: u64>(args: FuncArgs) -> Result<HclValue, String> {
    let pos: Vec<HclValue> = args.positional_args().cloned().collect();
    let var: Vec<HclValue> = args.variadic_args().cloned().collect();
    assert_eq!(args.len(), pos.len() + var.len());
    assert_eq!(args.into_values(), [&pos[..], &var[..]].concat());
    Ok(HclValue::from(vec![HclValue::from(TAG), pos.into(), var.into()]))
}

fn fail(_: FuncArgs) -> Result<HclValue, String> {
    Err("no".into())
}

struct F {
    name: &'static [&'static str],
    ps: Vec<ParamType>,
    var: Option<ParamType>,
    tag: usize,
    f: Func,
}

fn funcs() -> Vec<F> {
    use ParamType::*;
    let f = |tag: usize, name, ps: Vec<ParamType>, var, f: Func| F { name, ps, var, tag, f };
    vec![
        f(0, &["echo"], vec![], Some(Any), echo::<0>),
        f(1, &["num"], vec![Number], None, echo::<1>),
        f(2, &["sa"], vec![String, Any], None, echo::<2>),
        f(3, &["opt"], vec![ParamType::nullable(String)], None, echo::<3>),
        f(4, &["arrs"], vec![ParamType::array_of(Number)], Some(ParamType::nullable(Bool)), echo::<4>),
        f(5, &["objs"], vec![ParamType::object_of(ParamType::one_of([String, Bool]))], None, echo::<5>),
        f(6, &["ns", "echo"], vec![Any], Some(Number), echo::<6>),
        f(7, &["none"], vec![ParamType::one_of([])], None, echo::<7>),
        f(8, &["fail"], vec![], Some(Any), fail),
        f(9, &["zero"], vec![], None, echo::<9>),
        f(10, &["a", "b", "echo"], vec![], Some(ParamType::array_of(ParamType::nullable(ParamType::object_of(Any)))), echo::<10>),
        f(11, &["three"], vec![Bool, ParamType::one_of([Number, ParamType::array_of(String), ParamType::nullable(Bool)]), String],
            Some(String), echo::<11>),
    ]
}

fn ty(p: &ParamType) -> Value {
    let (k, of) = match p {
        ParamType::Any => ("any", vec![]),
        ParamType::Bool => ("bool", vec![]),
        ParamType::Number => ("number", vec![]),
        ParamType::String => ("string", vec![]),
        ParamType::Array(p) => ("array", vec![ty(p)]),
        ParamType::Object(p) => ("object", vec![ty(p)]),
        ParamType::Nullable(p) => ("nullable", vec![ty(p)]),
        ParamType::OneOf(ps) => ("oneof", ps.iter().map(ty).collect()),
    };
    json!({"k": k, "of": of})
}

fn fn_json(f: &F) -> Value {
    json!({"name": f.name.iter().map(|x| t(x)).collect::<Vec<_>>(), "ps": f.ps.iter().map(ty).collect::<Vec<_>>(),
        "var": f.var.iter().map(ty).collect::<Vec<_>>(), "impl": if f.tag == 8 { "fail" } else { "echo" }, "tag": f.tag})
}

fn declare(ctx: &mut Context, f: &F, r: &mut Rng) {
    let def = match &f.var {
        None if r.chance(50) => FuncDef::new(f.f, f.ps.clone()),
        None => f.ps.iter().cloned().fold(FuncDef::builder(), FuncDefBuilder::param).build(f.f),
        Some(v) => FuncDef::builder().params(f.ps.clone()).variadic_param(v.clone()).build(f.f),
    };
    let (ns, name) = f.name.split_at(f.name.len() - 1);
    let id = |s: &&str| Identifier::new(*s).unwrap();
    ctx.declare_func(FuncName::new(id(&name[0])).with_namespace(ns.iter().map(id)), def);
}

pub struct Ev {
    pub g: Gen,
    /// Variables in scope, the last one counts.
    scope: Vec<(String, Ty)>,
    funcs: Vec<F>,
    /// Percentage of expressions of the wrong type.
    wrong: usize,
    heredocs: usize,
}

impl Ev {
    pub fn new(seed: u64) -> Ev {
        Ev { g: Gen::new(seed, 0), scope: vec![], funcs: funcs(), wrong: 4, heredocs: 0 }
    }

    fn r(&mut self) -> &mut Rng {
        &mut self.g.r
    }

    fn ty(&mut self, d: usize) -> Ty {
        match self.r().below(if d == 0 { 11 } else { 16 }) {
            0..=1 => Ty::Bool,
            2..=5 => Ty::Num,
            6..=9 => Ty::Str,
            10 => Ty::Null,
            11..=13 => Ty::List(Box::new(self.ty(d - 1))),
            _ => Ty::Map(Box::new(self.ty(d - 1))),
        }
    }

    fn strval(&mut self) -> String {
        self.r().pick(&["", "a", "b", "foo", " x ", "é", "1", "true", "a\nb", "${x}", "$${", "\"", "\\"]).into()
    }

    fn value(&mut self, ty: &Ty) -> HclValue {
        if self.r().chance(3) {
            return format::value(self.r(), 2);
        }
        match ty {
            Ty::Bool => self.r().chance(50).into(),
            Ty::Num => format::number(self.r()).into(),
            Ty::Str => self.strval().into(),
            Ty::Null => HclValue::Null,
            Ty::List(e) => {
                let n = self.r().below(4);
                (0..n).map(|_| self.value(e)).collect::<Vec<_>>().into()
            }
            Ty::Map(e) => {
                let mut m = Map::new();
                for k in KEYS {
                    if self.r().chance(80) {
                        m.insert(k.to_string(), self.value(e));
                    }
                }
                if self.r().chance(20) {
                    m.reverse();
                }
                HclValue::Object(m)
            }
        }
    }

    /// An expression which can be an operand, be indexed and so on.
    fn term(&mut self, ty: &Ty, d: usize) -> String {
        let vars: Vec<String> = self.scope.iter().filter(|(_, t)| t == ty).map(|(n, _)| n.clone()).collect();
        if !vars.is_empty() && self.r().chance(50) {
            let n = vars.len();
            return vars[self.r().below(n)].clone();
        }
        if d == 0 {
            return self.literal(ty, 0);
        }
        match self.r().below(8) {
            0..=1 => self.literal(ty, d),
            2 => {
                // An element of a list.
                let l = self.term(&Ty::List(Box::new(ty.clone())), d - 1);
                let i = self.r().below(3);
                match self.r().below(4) {
                    0 => format!("{l}.{i}"),
                    1 => {
                        let x = self.expr(&Ty::Num, d - 1);
                        format!("{l}[{x}]")
                    }
                    _ => format!("{l}[{i}]"),
                }
            }
            3 => {
                let m = self.term(&Ty::Map(Box::new(ty.clone())), d - 1);
                let k = self.r().pick(KEYS).to_string();
                match self.r().below(4) {
                    0 => format!("{m}[\"{k}\"]"),
                    1 => {
                        let x = self.expr(&Ty::Str, d - 1);
                        format!("{m}[{x}]")
                    }
                    _ => format!("{m}.{k}"),
                }
            }
            4 => {
                // What was given to a function.
                let e = self.expr(ty, d - 1);
                match self.r().below(4) {
                    0 => format!("echo({e})[2].0"),
                    1 => {
                        let l = self.expr(&Ty::List(Box::new(ty.clone())), d - 1);
                        format!("echo({e}, {l}...)[2][1]")
                    }
                    2 => format!("ns::echo({e}, 1).1[0]"),
                    _ => format!("a::b::echo([{{a = {e}}}])[2][0][0].a"),
                }
            }
            _ => {
                let e = self.expr(ty, d - 1);
                format!("({e})")
            }
        }
    }

    fn literal(&mut self, ty: &Ty, d: usize) -> String {
        match ty {
            Ty::Null => "null".into(),
            Ty::Bool => ["true", "false"][self.r().below(2)].into(),
            Ty::Num => self
                .r()
                .pick(&["0", "1", "2", "3", "7", "10", "0.5", "1.25", "100", "1e3", "2.0", "9007199254740993",
                    "18446744073709551615", "1e19", "1.5e300"][..if d == 0 { 11 } else { 15 }])
                .into(),
            Ty::Str => {
                let q = self.r().chance(60);
                if !q && d > 0 {
                    return self.template_expr(d);
                }
                self.r().pick(&["\"a\"", "\"b\"", "\"c\"", "\"\"", "\"x y\"", "\"\\n\"", "\"é\"", "\"$${a}\"", "\"1\"", "\"a b\"", "\"\\\"\""]).into()
            }
            Ty::List(e) => {
                if d > 0 && self.r().chance(40) {
                    return self.for_expr(None, e, d);
                }
                if d > 0 && self.r().chance(25) {
                    return self.splat(e, d);
                }
                let n = self.r().below(4);
                let items: Vec<String> = (0..n).map(|_| self.expr(e, d.saturating_sub(1))).collect();
                format!("[{}]", items.join(", "))
            }
            Ty::Map(e) => {
                if d > 0 && self.r().chance(35) {
                    return self.for_expr(Some(()), e, d);
                }
                let mut items = vec![];
                for k in KEYS {
                    if !self.r().chance(75) {
                        continue;
                    }
                    let v = self.expr(e, d.saturating_sub(1));
                    let k = match self.r().below(8) {
                        0 => format!("\"{k}\""),
                        1 => format!("(\"{k}\")"),
                        2 if d > 0 => {
                            let ty = [Ty::Str, Ty::Num, Ty::Bool][self.r().below(3)].clone();
                            format!("({})", self.expr(&ty, d - 1))
                        }
                        3 => format!("\"${{\"{k}\"}}\""),
                        _ => k.to_string(),
                    };
                    items.push(format!("{k} {} {v}", ["=", ":"][self.r().below(2)]));
                }
                format!("{{{}}}", items.join(", "))
            }
        }
    }

    fn splat(&mut self, e: &Ty, d: usize) -> String {
        let base = match self.r().below(5) {
            0 => Ty::Null,
            1 => e.clone(),
            2 => Ty::Map(Box::new(e.clone())),
            3 => Ty::List(Box::new(Ty::Map(Box::new(e.clone())))),
            _ => Ty::List(Box::new(e.clone())),
        };
        let b = self.term(&base, d - 1);
        let s = ["[*]", ".*"][self.r().below(2)];
        let map = matches!(base, Ty::Map(_)) || matches!(&base, Ty::List(x) if matches!(**x, Ty::Map(_)));
        let tail = if map {
            ".a".to_string()
        } else {
            match self.r().below(6) {
                0 => "[0]".into(),
                1 => ".0".into(),
                2 => ".*".into(),
                3 => "[*]".into(),
                _ => String::new(),
            }
        };
        format!("{b}{s}{tail}")
    }

    fn intro(&mut self, d: usize) -> (String, usize) {
        let elem = self.ty(d.saturating_sub(1).min(1));
        let map = self.r().chance(40);
        let coll = if map { Ty::Map(Box::new(elem.clone())) } else { Ty::List(Box::new(elem.clone())) };
        let c = self.expr(&coll, d.saturating_sub(1));
        let v = self.r().pick(VARS).to_string();
        let mut n = 1;
        let s = if self.r().chance(50) {
            let k = self.r().pick(VARS).to_string();
            self.scope.push((k.clone(), if map { Ty::Str } else { Ty::Num }));
            n = 2;
            format!("{k}, {v} in {c}")
        } else {
            format!("{v} in {c}")
        };
        self.scope.push((v, elem));
        (s, n)
    }

    fn for_expr(&mut self, key: Option<()>, e: &Ty, d: usize) -> String {
        let (intro, n) = self.intro(d);
        let mut grp = "";
        let mut s = match key {
            None => format!("[for {intro} : {}", self.expr(e, d - 1)),
            Some(()) => {
                let kt = [Ty::Str, Ty::Str, Ty::Num, Ty::Bool][self.r().below(4)].clone();
                let k = self.expr(&kt, d - 1);
                // Mostly a key of its own for every item.
                let k = match intro.split_once(',') {
                    Some((k0, _)) if self.r().chance(60) => k0.to_string(),
                    _ => k,
                };
                let e = match e {
                    Ty::List(x) if self.r().chance(60) => {
                        grp = "...";
                        (**x).clone()
                    }
                    e => e.clone(),
                };
                format!("{{for {intro} : {k} => {}{grp}", self.expr(&e, d - 1))
            }
        };
        if self.r().chance(35) {
            s += &format!(" if {}", self.expr(&Ty::Bool, d - 1));
        }
        self.scope.truncate(self.scope.len() - n);
        s + if key.is_some() { "}" } else { "]" }
    }

    fn any(&mut self, d: usize) -> String {
        let ty = self.ty(1);
        self.expr(&ty, d)
    }

    pub fn expr_any(&mut self, d: usize) -> String {
        let ty = self.ty(2);
        self.expr(&ty, d)
    }

    fn expr(&mut self, ty: &Ty, d: usize) -> String {
        let w = self.wrong;
        if self.r().chance(w) {
            return self.any(d);
        }
        if self.r().chance(w / 2) {
            // Calls with any arguments.
            let n = self.funcs.len();
            let f = self.r().below(n);
            let name = self.funcs[f].name.join("::");
            let n = (self.funcs[f].ps.len() + self.r().below(3)).saturating_sub(self.r().below(2));
            let args: Vec<String> = (0..n).map(|_| self.any(d.saturating_sub(1))).collect();
            let dots = if n > 0 && self.r().chance(20) { "..." } else { "" };
            return format!("{name}({}{dots})", args.join(", "));
        }
        if self.r().chance(w / 3) {
            return ["q", "nofn(1)", "ns::num(1)", "x.q", "null.a"][self.r().below(5)].into();
        }
        if d == 0 || self.r().chance(35) {
            return self.term(ty, d);
        }
        if self.r().chance(15) {
            let c = self.expr(&Ty::Bool, d - 1);
            let (a, b) = (self.expr(ty, d - 1), self.expr(ty, d - 1));
            return format!("{c} ? {a} : {b}");
        }
        if self.r().chance(4) {
            let c = self.call(d);
            return format!("({c}).1[0]");
        }
        match ty {
            Ty::Num => {
                if self.r().chance(15) {
                    return format!("-{}", self.term(ty, d - 1));
                }
                let op = self.r().pick(&["+", "-", "*", "/", "%", "+", "-"]).to_string();
                let (a, b) = (self.term(ty, d - 1), self.term(ty, d - 1));
                format!("{a} {op} {b}")
            }
            Ty::Bool => match self.r().below(4) {
                0 => format!("!{}", self.term(ty, d - 1)),
                1 => {
                    let op = self.r().pick(&["&&", "||"]).to_string();
                    let (a, b) = (self.term(ty, d - 1), self.term(ty, d - 1));
                    format!("{a} {op} {b}")
                }
                2 => {
                    let op = self.r().pick(&["<", "<=", ">", ">="]).to_string();
                    let (a, b) = (self.term(&Ty::Num, d - 1), self.term(&Ty::Num, d - 1));
                    format!("{a} {op} {b}")
                }
                _ => {
                    let op = self.r().pick(&["==", "!="]).to_string();
                    let t1 = self.ty(2);
                    let a = self.term(&t1, d - 1);
                    let b = if self.r().chance(30) { a.clone() } else { self.term(&t1, d - 1) };
                    format!("{a} {op} {b}")
                }
            },
            ty => self.term(ty, d),
        }
    }

    fn param_type(&mut self, d: usize) -> ParamType {
        match self.r().below(if d == 0 { 4 } else { 9 }) {
            0 => ParamType::Any,
            1 => ParamType::Bool,
            2 => ParamType::Number,
            3 => ParamType::String,
            4 => ParamType::array_of(self.param_type(d - 1)),
            5 => ParamType::object_of(self.param_type(d - 1)),
            6 => ParamType::nullable(self.param_type(d - 1)),
            _ => {
                let n = self.r().below(4);
                ParamType::one_of((0..n).map(|_| self.param_type(d - 1)).collect::<Vec<_>>())
            }
        }
    }

    fn random_funcs(&mut self) -> Vec<F> {
        const IMPLS: [Func; 4] = [echo::<12>, echo::<13>, echo::<14>, echo::<15>];
        const NAMES: [&[&str]; 4] = [&["r"], &["r", "r"], &["q"], &["r"]]; // the last definition of a name counts
        let n = self.r().below(4) + 1;
        (0..n)
            .map(|k| {
                let n = self.r().below(4);
                let ps = (0..n).map(|_| self.param_type(2)).collect();
                let var = if self.r().chance(40) { Some(self.param_type(2)) } else { None };
                F { name: NAMES[k], ps, var, tag: 12 + k, f: IMPLS[k] }
            })
            .collect()
    }

    fn fitting(&mut self, p: &ParamType) -> Ty {
        match p {
            ParamType::Any => self.ty(2),
            ParamType::Bool => Ty::Bool,
            ParamType::Number => Ty::Num,
            ParamType::String => Ty::Str,
            ParamType::Array(p) => Ty::List(Box::new(self.fitting(p))),
            ParamType::Object(p) => Ty::Map(Box::new(self.fitting(p))),
            ParamType::Nullable(p) => if self.r().chance(30) { Ty::Null } else { self.fitting(p) },
            ParamType::OneOf(ps) if ps.is_empty() => self.ty(1),
            ParamType::OneOf(ps) => {
                let k = self.r().below(ps.len());
                self.fitting(&ps[k])
            }
        }
    }

    fn random_call(&mut self, d: usize) -> String {
        let n = self.funcs.len();
        let k = self.r().below(n);
        let (name, mut ps, var) = (self.funcs[k].name, self.funcs[k].ps.clone(), self.funcs[k].var.clone());
        if let Some(v) = var {
            for _ in 0..self.r().below(3) {
                ps.push(v.clone());
            }
        }
        if self.r().chance(8) {
            ps.pop();
        }
        if self.r().chance(8) {
            ps.push(ParamType::Any);
        }
        let mut args: Vec<String> = vec![];
        let expand = if self.r().chance(30) { self.r().below(ps.len() + 1) } else { ps.len() + 1 };
        for (k, p) in ps.iter().enumerate() {
            if k >= expand {
                break;
            }
            let ty = if self.r().chance(8) { self.ty(2) } else { self.fitting(p) };
            args.push(self.expr(&ty, d));
        }
        let mut dots = "";
        if expand <= ps.len() {
            let rest: Vec<String> = ps[expand..]
                .iter()
                .map(|p| {
                    let ty = self.fitting(p);
                    self.expr(&ty, d)
                })
                .collect();
            args.push(format!("[{}]", rest.join(", ")));
            dots = "...";
        }
        format!("{}({}{dots})", name.join("::"), args.join(", "))
    }

    fn call(&mut self, d: usize) -> String {
        let d = d - 1;
        if self.r().chance(50) {
            return self.random_call(d);
        }
        let n = Box::new(Ty::Num);
        match self.r().below(7) {
            0 => format!("num({})", self.expr(&Ty::Num, d)),
            1 => format!("sa({}, {})", self.expr(&Ty::Str, d), self.any(d)),
            2 => {
                let ty = [Ty::Str, Ty::Null][self.r().below(2)].clone();
                format!("opt({})", self.expr(&ty, d))
            }
            3 => format!("arrs({}, true, null)", self.expr(&Ty::List(n), d)),
            4 => {
                let ty = Ty::Map(Box::new([Ty::Str, Ty::Bool][self.r().below(2)].clone()));
                format!("objs({})", self.expr(&ty, d))
            }
            5 => {
                let ty = [Ty::Num, Ty::List(Box::new(Ty::Str)), Ty::Null, Ty::Bool][self.r().below(4)].clone();
                let dots = ["", ", [\"a\", \"b\"]...", ", \"c\""][self.r().below(3)];
                format!("three({}, {}, {}{dots})", self.expr(&Ty::Bool, d), self.expr(&ty, d), self.expr(&Ty::Str, d))
            }
            _ => format!("ns::echo({}, {}...)", self.any(d), self.expr(&Ty::List(n), d)),
        }
    }

    fn template_expr(&mut self, d: usize) -> String {
        if self.heredocs == 0 && self.r().chance(15) {
            self.heredocs += 1;
            let flush = self.r().chance(50);
            let body = self.template(d - 1, false);
            self.heredocs -= 1;
            let pad = ["", "  "][self.r().below(2)];
            return format!("(<<{}E\n{pad}{body}\n{pad}E\n)", if flush { "-" } else { "" });
        }
        format!("\"{}\"", self.template(d - 1, true))
    }

    pub fn template(&mut self, d: usize, quoted: bool) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.r().below(3) {
            s += &self.element(d, quoted);
        }
        s
    }

    fn element(&mut self, d: usize, quoted: bool) -> String {
        let nl = if quoted { "\\n" } else { "\n" };
        let st = |r: &mut Rng| [["", "~"][r.below(2)], ["", "~"][r.below(2)]];
        let k = self.r().below(if d == 0 { 6 } else { 9 });
        match k {
            0 => [" x ", " ", "a", "\u{a0}b\u{2003}", "  \t"][self.r().below(if quoted { 4 } else { 5 })].replace('\t', " "),
            1 => format!(" {nl} ") + nl,
            2 => {
                let p = self.r().pick(&["foo", "", "é", "$${", "}"]).to_string();
                // A carriage return alone is nothing to strip.
                let n = if quoted { ["\\n", "\\r\\n", "\\r", "  \\r\\n  "][self.r().below(4)] } else { "\n" };
                if self.r().chance(50) { format!("{p}{n}") } else { format!("{n}{p}") }
            }
            3..=5 => {
                let [a, b] = st(self.r());
                let e = if self.r().chance(60) {
                    let ty = [Ty::Str, Ty::Num][self.r().below(2)].clone();
                    self.expr(&ty, d)
                } else {
                    self.any(d)
                };
                format!("${{{a}{e}{b}}}")
            }
            6 | 7 => {
                let ([a, b], [c, e], [f, g]) = (st(self.r()), st(self.r()), st(self.r()));
                let cond = self.expr(&Ty::Bool, d - 1);
                let x = self.template(d - 1, quoted);
                let els = if self.r().chance(50) { format!("%{{{c} else {e}}}{}", self.template(d - 1, quoted)) } else { String::new() };
                format!("%{{{a} if {cond} {b}}}{x}{els}%{{{f} endif {g}}}")
            }
            _ => {
                let ([a, b], [c, e]) = (st(self.r()), st(self.r()));
                let (intro, n) = self.intro(d);
                let x = self.template(d - 1, quoted);
                self.scope.truncate(self.scope.len() - n);
                format!("%{{{a} for {intro} {b}}}{x}%{{{c} endfor {e}}}")
            }
        }
    }

    pub fn body(&mut self, d: usize, depth: usize) -> String {
        let mut s = String::new();
        for k in 0..self.r().below(4) {
            if depth > 0 && self.r().chance(30) {
                let inner = self.body(d, depth - 1);
                s += &format!("b{k} \"l\" {{\n{inner}}}\n");
            } else {
                s += &format!("a{k} = {}\n", self.expr_any(d));
            }
        }
        s
    }
}

fn error(e: &Error) -> Value {
    let f = |k: &str, op: &str, s: &str, vs: &[&HclValue]| {
        json!({"r": "err", "k": k, "op": op, "s": t(s), "vs": vs.iter().map(|v| rs::value(v)).collect::<Vec<_>>(),
            "at": e.expr().map_or(json!({"k": "none"}), rs::expr), "text": t(&e.to_string())})
    };
    match e.kind() {
        ErrorKind::Message(_) => f("msg", "", "", &[]),
        ErrorKind::UndefinedVar(i) => f("var", "", i, &[]),
        ErrorKind::UndefinedFunc(n) => f("func", "", &n.to_string(), &[]),
        ErrorKind::Unexpected(v, w) => f("unexpected", w, "", &[v]),
        ErrorKind::Index(n) => f("index", "", &n.to_string(), &[]),
        ErrorKind::UnaryOp(o, v) => f("unary", o.as_str(), "", &[v]),
        ErrorKind::BinaryOp(l, o, r) => f("binary", o.as_str(), "", &[l, r]),
        ErrorKind::NoSuchKey(k) => f("nokey", "", k, &[]),
        ErrorKind::KeyExists(k) => f("keyexists", "", k, &[]),
        ErrorKind::FuncCall(n, m) => {
            let at = m.split_once("at position ").and_then(|x| x.1.split(' ').next()).and_then(|x| x.parse::<u64>().ok());
            let (op, vs) = match at {
                _ if m == "no" => ("fail", vec![]),
                _ if m.contains("positional arguments, got") => ("arity", vec![]),
                Some(p) => ("type", vec![HclValue::from(p)]),
                None => ("?", vec![]),
            };
            f("call", op, &n.to_string(), &vs.iter().collect::<Vec<_>>())
        }
        k => f(&format!("{k:?}"), "", "", &[]),
    }
}

fn observe<T: Evaluate + Clone>(x: &T, ctx: &Context, dump: impl Fn(T::Output) -> Value, tree: impl Fn(&T) -> Value) -> (Value, Value) {
    let res = catch_unwind(AssertUnwindSafe(|| match x.evaluate(ctx) {
        Ok(v) => json!({"r": "ok", "v": dump(v)}),
        Err(e) => error(&e),
    }));
    let inp = catch_unwind(AssertUnwindSafe(|| {
        let mut y = x.clone();
        let r = y.evaluate_in_place(ctx);
        let (errs, text): (Vec<Value>, String) = r.err().map_or((vec![], String::new()), |es| {
            assert_eq!(es.len(), es.iter().count());
            (es.iter().map(error).collect(), es.to_string())
        });
        json!({"r": "ok", "n": tree(&y), "errs": errs, "text": t(&text)})
    }));
    (res.unwrap_or(json!({"r": "panic"})), inp.unwrap_or(json!({"r": "panic"})))
}

fn outcome(f: impl FnOnce() -> hcl::Result<Value>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => json!({"r": "ok", "v": v}),
        Ok(Err(e)) => json!({"r": "err", "text": t(&e.to_string())}),
        Err(_) => json!({"r": "panic"}),
    }
}

pub fn run(out: &mut Out, seed: u64, tier: &str, what: &str) {
    let n = if tier == "thorough" { 16000 } else { 2600 };
    let mut e = Ev::new(seed ^ 0xE7A1);
    let mut i = 0;
    while i < n {
        e.wrong = [0, 3, 8][i % 3];
        e.scope.clear();
        let mut ctx = Context::new();
        let mut vars = vec![];
        for _ in 0..2 + i % 4 {
            let ty = e.ty(2);
            let name = e.r().pick(VARS).to_string();
            let v = e.value(&ty);
            ctx.declare_var(Identifier::new(name.clone()).unwrap(), v.clone());
            e.scope.retain(|(n, _)| *n != name);
            e.scope.push((name.clone(), ty));
            vars.push(json!([t(&name), rs::value(&v)]));
        }
        e.funcs = funcs();
        let more = e.random_funcs();
        e.funcs.extend(more);
        let fs: Vec<Value> = e.funcs.iter().map(fn_json).collect();
        for f in &e.funcs {
            declare(&mut ctx, f, &mut e.g.r);
        }
        let d = 1 + i % 4;
        let m = match what {
            "tpl" => ["tpl", "tpl", "expr"][i % 3],
            _ => ["expr", "expr", "expr", "body", "tpl"][i % 5],
        };
        let s = match m {
            "tpl" => e.template(d, false),
            "body" => e.body(d.min(3), 2),
            _ if what == "fn" => e.call(d),
            _ if what == "tpl" => e.template_expr(d),
            _ => e.expr_any(d),
        };
        if s.chars().count() > 300 {
            continue;
        }
        out.current(&s);
        i += 1;
        let r = match m {
            "expr" => s.parse::<Expression>().ok().map(|x| observe(&x, &ctx, |v| rs::value(&v), rs::expr)),
            "body" => s.parse::<Body>().ok().map(|x| {
                observe(&x, &ctx, |b| Value::from(b.iter().map(rs::structure).collect::<Vec<_>>()), rs::body)
            }),
            _ => s
                .parse::<Template>()
                .ok()
                .map(|x| observe(&x, &ctx, |s| t(&s), |x| json!({"k": "template", "els": rs::template(x)}))),
        };
        // Texts which are not accepted do not matter here.
        if let Some((res, inp)) = r {
            let mut o = json!({"m": m, "s": t(&s), "vars": vars, "fns": fs, "res": res, "inp": inp});
            if m == "body" {
                let body: Body = s.parse().unwrap();
                o["text"] = outcome(|| hcl::eval::to_string(&body, &ctx).map(|x| t(&x)));
                o["val"] = outcome(|| hcl::eval::from_str::<HclValue>(&s, &ctx).map(|v| rs::value(&v)));
                o["doc"] = outcome(|| hcl::eval::from_str::<Body>(&s, &ctx).map(|b| Value::from(b.iter().map(rs::structure).collect::<Vec<_>>())));
            }
            out.put(&o);
        }
    }
}
