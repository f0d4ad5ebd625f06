//! Invocations of the macros of hcl-rs: writes them as Rust code, which check.py has compiled.

use crate::gen::Rng;
use crate::Out;
use serde_json::{json, Value};
use std::fmt::Write;

fn txt(v: &Value) -> String {
    crate::build::txt(v)
}

fn t(s: &str) -> Value {
    crate::dump::t(s)
}

fn number(v: &Value) -> String {
    let digs: String = v["digs"].as_array().unwrap().iter().map(|d| d.to_string()).collect();
    let (n, x) = (digs.len() as i64, v["x"].as_i64().unwrap());
    let s = match x {
        _ if n == 0 => "0".into(),
        x if x <= 0 => format!("0.{}{digs}", "0".repeat(-x as usize)),
        x if x < n => format!("{}.{}", &digs[..x as usize], &digs[x as usize..]),
        x => digs + &"0".repeat((x - n) as usize),
    };
    if v["neg"] == true {
        format!("-{s}")
    } else {
        s
    }
}

/// Rust code of a value.
fn value(v: &Value) -> String {
    match v["t"].as_str().unwrap() {
        "null" => "None::<u8>".into(),
        "bool" => v["v"].to_string(),
        "num" => {
            let n = number(&v["v"]);
            // beyond the default type of literals
            if !n.contains('.') && n.len() > 9 {
                n + "i64"
            } else {
                n
            }
        }
        "str" => format!("{:?}", txt(&v["v"])),
        "var" => format!("hcl::expr::Variable::unchecked({:?})", txt(&v["v"])),
        _ => {
            let items: Vec<String> = v["v"].as_array().unwrap().iter().map(value).collect();
            match items.len() {
                0 => "Vec::<u8>::new()".into(),
                1 => format!("({},)", items[0]),
                _ => format!("({})", items.join(", ")),
            }
        }
    }
}

fn tokens(ts: &Value) -> String {
    let mut s = String::new();
    for x in ts.as_array().unwrap() {
        let tok = match x["t"].as_str().unwrap() {
            "id" => txt(&x["s"]),
            "lit" if x["c"] == true => format!("{:?}", txt(&x["v"]["v"]).chars().next().unwrap()),
            "lit" => value(&x["v"]),
            "par" => format!("({})", value(&x["v"])),
            "rust" => x["src"].as_str().unwrap().to_string(),
            "eq" => "=".into(),
            "comma" => ",".into(),
            "neg" => "-".into(),
            "arr" => format!("[{}]", tokens(&x["ts"])),
            _ => format!("{{{}}}", tokens(&x["ts"])),
        };
        write!(s, " {tok}").unwrap();
    }
    s
}

fn rust(case: &Value, n: usize) -> String {
    let kind = case["kind"].as_str().unwrap();
    let dump = match kind {
        "structure" => "structure",
        "attribute" => "attr",
        "block" => "block",
        "body" => "body",
        "value" => "value",
        _ => "expr",
    };
    format!(
        "fn m{n}() -> Value {{ {} rs::{dump}(&hcl::{kind}!({})) }}\n",
        if tokens(&case["ts"]).contains("x_") { VARS } else { "" },
        tokens(&case["ts"])
    )
}

const VARS: &str = "let (x_str, x_num, x_vec, x_none) = (\"a b\", 7u8, vec![1.5, 2.0], None::<bool>);";

struct G<'a> {
    r: &'a mut Rng,
    data: bool,
}

const WORDS: [&str; 12] = ["a", "b", "c", "k1", "foo_bar", "type", "for", "null", "true", "self", "é", "_x"];
const STRINGS: [&str; 12] = ["", "a", "b", "foo bar", "${a}", "1", "é\n", "\"", "\\", "%{", "null", "a-b"];

impl G<'_> {
    fn word(&mut self) -> Value {
        json!({"t": "id", "s": t(WORDS[self.r.below(WORDS.len())])})
    }

    fn string(&mut self) -> Value {
        json!({"t": "str", "v": t(STRINGS[self.r.below(STRINGS.len())])})
    }

    fn num(&mut self, neg: bool) -> Value {
        const NS: [&str; 12] =
            ["0", "1", "2", "10", "120", "255", "65536", "0.5", "1.5", "12.25", "2147483647", "9223372036854775807"];
        let s = NS[self.r.below(NS.len())];
        let minus = if neg && s != "0" && self.r.below(3) == 0 { "-" } else { "" };
        json!({"t": "num", "v": crate::dump::decimal(&format!("{minus}{s}"))})
    }

    fn val(&mut self, d: usize) -> Value {
        match self.r.below(if d == 0 { 6 } else { 8 }) {
            0 => json!({"t": "null"}),
            1 => json!({"t": "bool", "v": self.r.below(2) == 0}),
            2 | 3 => self.num(true),
            4 => self.string(),
            5 if self.data => self.string(),
            5 => json!({"t": "var", "v": t(["x", "y", "foo"][self.r.below(3)])}),
            _ => {
                let n = self.r.below(4);
                json!({"t": "arr", "v": (0..n).map(|_| self.val(d - 1)).collect::<Vec<_>>()})
            }
        }
    }

    fn lit(&mut self) -> Value {
        match self.r.below(5) {
            0 => json!({"t": "lit", "c": true, "v": {"t": "str", "v": t(["a", "'", "é"][self.r.below(3)])}}),
            1 | 2 => json!({"t": "lit", "v": self.string()}),
            _ => json!({"t": "lit", "v": self.num(false)}),
        }
    }

    fn strtok(&mut self) -> Value {
        match self.r.below(4) {
            0 => json!({"t": "lit", "c": true, "v": {"t": "str", "v": t(["a", "'", "é"][self.r.below(3)])}}),
            1 => json!({"t": "par", "v": self.string()}),
            _ => json!({"t": "lit", "v": self.string()}),
        }
    }

    /// An expression that is a single token tree.
    fn single(&mut self, d: usize) -> Value {
        match self.r.below(if d == 0 { 6 } else { 9 }) {
            0 => json!({"t": "id", "s": t(["null", "true", "false"][self.r.below(3)])}),
            1 | 2 => self.lit(),
            3 => json!({"t": "par", "v": self.val(1)}),
            4 => {
                let (src, v) = [
                    ("x_str", json!({"t": "str", "v": t("a b")})),
                    ("x_num", json!({"t": "num", "v": crate::dump::decimal("7")})),
                    ("x_vec", json!({"t": "arr", "v": [{"t": "num", "v": crate::dump::decimal("1.5")}, {"t": "num", "v": crate::dump::decimal("2")}]})),
                    ("x_none", json!({"t": "null"})),
                ][self.r.below(4)]
                .clone();
                json!({"t": "rust", "one": true, "src": src, "v": v})
            }
            5 => self.lit(),
            6 | 7 => json!({"t": "obj", "ts": self.items(d - 1)}),
            _ => json!({"t": "arr", "ts": self.elems(d - 1)}),
        }
    }

    /// Any expression; only a comma may follow those of several tokens.
    fn expr(&mut self, d: usize) -> Vec<Value> {
        match self.r.below(8) {
            0 => vec![json!({"t": "neg"}), json!({"t": "lit", "v": self.num(false)})],
            1 => {
                let n = |s: &str| json!({"t": "num", "v": crate::dump::decimal(s)});
                let (src, v) = [
                    ("1 + 2", n("3")),
                    ("Some(x_num)", n("7")),
                    ("x_str.to_uppercase()", json!({"t": "str", "v": t("A B")})),
                    ("vec![1, -2]", json!({"t": "arr", "v": [n("1"), n("-2")]})),
                    ("(1, \"a\", None::<()>)", json!({"t": "arr", "v": [n("1"), {"t": "str", "v": t("a")}, {"t": "null"}]})),
                    ("if x_num > 3 { \"yes\" } else { \"no\" }", json!({"t": "str", "v": t("yes")})),
                    ("x_vec[0]", n("1.5")),
                    ("&x_str[..1]", json!({"t": "str", "v": t("a")})),
                    ("!true", json!({"t": "bool", "v": false})),
                ][self.r.below(9)]
                .clone();
                vec![json!({"t": "rust", "one": false, "src": src, "v": v})]
            }
            _ => vec![self.single(d)],
        }
    }

    fn elems(&mut self, d: usize) -> Vec<Value> {
        let n = self.r.below(4);
        let mut ts = vec![];
        for k in 0..n {
            ts.extend(self.expr(d));
            if k + 1 < n || self.r.below(3) == 0 {
                ts.push(json!({"t": "comma"}));
            }
        }
        ts
    }

    fn items(&mut self, d: usize) -> Vec<Value> {
        let n = self.r.below(4);
        let mut ts: Vec<Value> = vec![];
        let mut keys: Vec<Value> = vec![];
        for _ in 0..n {
            // what follows a single token may be taken for its continuation
            let plain = ts.last().is_some_and(|x| x["t"] != "comma");
            let from = ts.len();
            match self.r.below(6) {
                _ if !keys.is_empty() && self.r.below(4) == 0 => ts.push(keys[self.r.below(keys.len())].clone()),
                0 | 1 => ts.push(self.strtok_plain(plain)),
                2 if !self.data && !plain => ts.push(json!({"t": "par", "v": self.val(0)})),
                3 if !self.data => ts.push(self.lit()),
                4 if !self.data && !plain => {
                    ts.extend([json!({"t": "neg"}), json!({"t": "lit", "v": self.num(false)})])
                }
                _ => ts.push(self.word()),
            }
            if ts[from]["t"] == "id" || ts[from]["t"] == "lit" {
                keys.push(ts[from].clone());
            }
            ts.push(json!({"t": "eq"}));
            let comma = self.r.below(2) == 0;
            if comma {
                ts.extend(self.expr(d));
            } else {
                ts.push(self.single(d));
            }
            if comma {
                ts.push(json!({"t": "comma"}));
            }
        }
        ts
    }

    fn strtok_plain(&mut self, plain: bool) -> Value {
        loop {
            let x = self.strtok();
            if !plain || x["t"] == "lit" {
                return x;
            }
        }
    }

    fn name(&mut self) -> Value {
        if self.r.below(3) == 0 {
            json!({"t": "par", "v": self.string()})
        } else {
            self.word()
        }
    }

    fn block(&mut self, d: usize) -> Vec<Value> {
        let mut ts = vec![self.name()];
        for _ in 0..self.r.below(4) {
            ts.push(if self.r.below(3) == 0 { self.word() } else { self.strtok() });
        }
        let inner = self.structures(d);
        ts.push(json!({"t": "obj", "ts": inner}));
        ts
    }

    fn structures(&mut self, d: usize) -> Vec<Value> {
        let n = self.r.below(if d == 0 { 3 } else { 4 });
        let mut ts = vec![];
        for _ in 0..n {
            if d > 0 && self.r.below(2) == 0 {
                ts.extend(self.block(d - 1));
            } else {
                ts.push(self.name());
                ts.push(json!({"t": "eq"}));
                ts.push(self.single(2));
            }
        }
        ts
    }

    fn attr(&mut self) -> Vec<Value> {
        let mut ts = vec![self.name(), json!({"t": "eq"})];
        ts.extend(self.expr(2));
        ts
    }

    fn braced(&mut self, ts: Vec<Value>) -> Vec<Value> {
        if self.r.below(4) == 0 {
            vec![json!({"t": "obj", "ts": ts})]
        } else {
            ts
        }
    }

    fn case(&mut self) -> Value {
        let kind = ["body", "body", "structure", "attribute", "block", "expression", "value", "value"][self.r.below(8)];
        self.data = kind == "value";
        let ts = match kind {
            "body" => self.structures(2),
            "structure" if self.r.below(2) == 0 => self.attr(),
            "attribute" => self.attr(),
            "structure" | "block" => self.block(2),
            _ if self.r.below(2) == 0 => vec![json!({"t": "obj", "ts": self.items(2)})],
            _ => self.expr(3),
        };
        let ts = if kind == "expression" || kind == "value" { ts } else { self.braced(ts) };
        json!({"kind": kind, "ts": ts})
    }
}

/// Writes the invocations to `out`, and the code making them next to it.
pub fn run(out: &mut Out, seed: u64, tier: &str, input: &str, code: &str) {
    let mut rs = String::new();
    let mut n = 0;
    let mut put = |out: &mut Out, case: &Value| {
        rs += &rust(case, n);
        n += 1;
        out.put(case);
    };
    if input.is_empty() {
        let mut r = Rng::new(seed);
        for _ in 0..if tier == "quick" { 250 } else { 1500 } {
            let case = G { r: &mut r, data: false }.case();
            put(out, &case);
        }
    } else {
        for l in std::fs::read_to_string(input).unwrap().lines() {
            put(out, &serde_json::from_str(l).unwrap());
        }
    }
    rs += "pub const ALL: &[fn() -> Value] = &[";
    for k in 0..n {
        write!(rs, "m{k}, ").unwrap();
    }
    rs += "];\n";
    std::fs::write(code, rs).unwrap();
}
