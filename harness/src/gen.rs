//! Input generation: exhaustive enumeration over token alphabets, random documents with random
//! trivia, and mutations of those. Everything is determined by the seed.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
}

/// All sequences over `toks` of length 0..=max.
pub fn enumerate(toks: &[&str], max: usize, f: &mut dyn FnMut(&str)) {
    fn go(toks: &[&str], left: usize, s: &mut String, f: &mut dyn FnMut(&str)) {
        f(s);
        if left == 0 {
            return;
        }
        for t in toks {
            let n = s.len();
            s.push_str(t);
            go(toks, left - 1, s, f);
            s.truncate(n);
        }
    }
    go(toks, max, &mut String::new(), f);
}

pub struct Gen {
    pub r: Rng,
    /// Percentage of trivia positions which get something unusual.
    pub noise: usize,
    pub crlf: bool,
    pub tabs: bool,
    heredocs: usize,
}

const IDENTS: &[&str] = &["a", "b", "foo", "x-1", "_", "for1", "iff", "é", "in", "null1", "a\u{301}", "if", "T"];
const STRS: &[&str] = &[
    "", "x", "foo bar", "\\n", "\\\"", "\\\\", "$", "%", "$${", "%%{", "$$", "${", "é", "\\u00e9", "\\t",
    "你", "a b", "{", "}", "\\U0001F600", "😀", "#", "//", "\\/", "\\u0024", "~",
];

impl Gen {
    pub fn new(seed: u64, noise: usize) -> Gen {
        Gen { r: Rng::new(seed), noise, crlf: false, tabs: false, heredocs: 1 }
    }

    pub fn nl(&mut self) -> String {
        if self.crlf && self.r.chance(30) { "\r\n".into() } else { "\n".into() }
    }

    /// Inline trivia.
    pub fn sp(&mut self) -> String {
        if !self.r.chance(self.noise) {
            return if self.r.chance(40) { " ".into() } else { String::new() };
        }
        let tab = if self.tabs { "\t" } else { "  " };
        self.r.pick(&["", " ", "  ", tab, "/**/", " /* c */ ", "/* é */", " /***/", "/*a*/ /*b*/"]).to_string()
    }

    /// Inline trivia which separates two words.
    pub fn sp1(&mut self) -> String {
        let s = self.sp();
        if s.is_empty() { " ".into() } else { s }
    }

    /// Trivia which may span lines.
    pub fn ws(&mut self) -> String {
        if !self.r.chance(self.noise) {
            return self.sp();
        }
        let n = self.nl();
        match self.r.below(7) {
            0 => n,
            1 => format!("{n}  "),
            2 => format!(" # c{n} "),
            3 => format!("// x{n}"),
            4 => format!("{n}/* m{n} */"),
            5 => format!(" #{n}"),
            _ => format!(" {n}{n} /* é */ "),
        }
    }

    pub fn ws1(&mut self) -> String {
        let s = self.ws();
        if s.is_empty() { " ".into() } else { s }
    }

    fn w(&mut self, nl: bool) -> String {
        if nl { self.ws() } else { self.sp() }
    }

    pub fn ident(&mut self) -> String {
        IDENTS[if self.r.chance(60) { self.r.below(3) } else { self.r.below(IDENTS.len()) }].into()
    }

    pub fn number(&mut self) -> String {
        self.r
            .pick(&["0", "1", "42", "1.5", "1e3", "0.25", "2.5E-3", "007", "12e+2", "123456789012",
                    "4294967296", "1.0", "100", "3.14", "9007199254740993", "18446744073709551615", "0.1000000000000000055", "1e23"])
            .to_string()
    }

    fn strlit(&mut self) -> String {
        let n = self.r.below(3);
        let mut s = String::new();
        for _ in 0..n {
            let p = STRS[self.r.below(STRS.len())];
            // A bare marker would start an interpolation.
            if p == "${" { s.push_str("$${") } else { s.push_str(p) }
            if s.ends_with('$') || s.ends_with('%') { s.push(' ') }
        }
        s
    }

    fn rawlit(&mut self, nl: bool) -> String {
        let n = self.nl();
        let p: &[&str] = if nl {
            &["x", "foo ", " ", "$${", "%%{", "é", "\n", "  ", "a\n", "\n\n", "   b", "\\n", "\"", "E", "}", "~", "\t"]
        } else {
            &["x", "foo ", " ", "$${", "%%{", "é", "  ", "\"", "\\n", "}"]
        };
        let mut s = String::new();
        for _ in 0..self.r.below(4) {
            let x = self.r.pick(p);
            if x == "\t" && !self.tabs {
                continue;
            }
            s.push_str(&x.replace('\n', &n));
        }
        s
    }

    fn strip(&mut self) -> &'static str {
        if self.r.chance(25) { "~" } else { "" }
    }

    pub fn elements(&mut self, d: usize, quoted: bool, nl: bool) -> String {
        let mut s = String::new();
        for _ in 0..self.r.below(3) + 1 {
            match self.r.below(10) {
                0..=4 => s.push_str(&if quoted { self.strlit() } else { self.rawlit(nl) }),
                5..=7 => {
                    let e = self.expr(d.saturating_sub(1), true);
                    s.push_str(&format!("${{{}{}{}{}{}}}", self.strip(), self.ws(), e, self.ws(), self.strip()));
                }
                _ if d == 0 => s.push('y'),
                8 => {
                    let c = self.expr(d - 1, false);
                    s.push_str(&format!("%{{{}{}if{}{}{}{}}}", self.strip(), self.ws(), self.ws1(), c, self.ws(), self.strip()));
                    s.push_str(&self.elements(d - 1, quoted, nl));
                    if self.r.chance(50) {
                        s.push_str(&format!("%{{{}{}else{}{}}}", self.strip(), self.ws(), self.ws(), self.strip()));
                        s.push_str(&self.elements(d - 1, quoted, nl));
                    }
                    s.push_str(&format!("%{{{}{}endif{}{}}}", self.strip(), self.ws(), self.ws(), self.strip()));
                }
                _ => {
                    let c = self.expr(d - 1, false);
                    let k = if self.r.chance(40) { format!("{}{},", self.ident(), self.ws()) } else { String::new() };
                    s.push_str(&format!(
                        "%{{{}{}for{}{}{}{}{}in{}{}{}{}}}",
                        self.strip(), self.ws(), self.ws1(), k, self.ws(), self.ident(), self.ws1(), self.ws1(), c, self.ws(), self.strip()
                    ));
                    s.push_str(&self.elements(d - 1, quoted, nl));
                    s.push_str(&format!("%{{{}{}endfor{}{}}}", self.strip(), self.ws(), self.ws(), self.strip()));
                }
            }
        }
        s
    }

    pub fn heredoc(&mut self, d: usize) -> String {
        self.heredocs += 1;
        let delim = self.r.pick(&["E", "EOT", "é"]).to_string();
        let flush = self.r.chance(60);
        let mut s = format!("<<{}{}{}", if flush { "-" } else { "" }, delim, self.nl());
        let ind = self.r.below(4);
        for _ in 0..self.r.below(4) {
            match self.r.below(5) {
                0 => s.push_str(&self.nl()),
                1 => s.push_str(&format!("{}{}", " ".repeat(self.r.below(5)), self.nl())),
                _ => {
                    let extra = if self.r.chance(30) { self.r.below(3) } else { 0 };
                    s.push_str(&" ".repeat(ind + extra));
                    s.push_str(&self.elements(d.min(1), false, true));
                    s.push_str(&self.nl());
                }
            }
        }
        s.push_str(&" ".repeat(self.r.below(3)));
        s.push_str(&delim);
        s
    }

    fn args(&mut self, d: usize) -> String {
        let n = self.r.below(3);
        let mut s = String::from("(");
        for i in 0..n {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&self.ws());
            s.push_str(&self.expr(d, true));
            s.push_str(&self.ws());
        }
        if n > 0 {
            match self.r.below(6) {
                0 => s.push(','),
                1 => s.push_str("..."),
                _ => {}
            }
        }
        s.push_str(&self.ws());
        s.push(')');
        s
    }

    fn for_intro(&mut self, d: usize) -> String {
        let k = if self.r.chance(40) { format!("{}{},{}", self.ident(), self.ws(), self.ws()) } else { String::new() };
        format!(
            "{}for{}{}{}{}in{}{}{}:",
            self.ws(), self.sp1(), k, self.ident(), self.ws1(), self.ws1(), self.expr(d, false), self.ws()
        )
    }

    pub fn term(&mut self, d: usize, nl: bool) -> String {
        let k = if d == 0 { self.r.below(6) } else { self.r.below(20) };
        self.term_of(k, d, nl)
    }

    /// A template, array, object, call or heredoc.
    pub fn compound(&mut self, d: usize) -> String {
        match self.r.below(10) {
            0 | 1 => self.heredoc(d),
            k => self.term_of([6, 7, 8, 9, 10, 11, 13, 13][k - 2], d, false),
        }
    }

    fn term_of(&mut self, k: usize, d: usize, nl: bool) -> String {
        match k {
            0..=1 => self.ident(),
            2 => self.number(),
            3 => format!("\"{}\"", self.strlit()),
            4 => self.r.pick(&["null", "true", "false"]).to_string(),
            5 => format!("-{}{}", self.sp(), self.number()),
            6..=7 => format!("\"{}\"", self.elements(d - 1, true, false)),
            8..=9 => {
                let n = self.r.below(4);
                let mut s = String::from("[");
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(&self.ws());
                    s.push_str(&self.expr(d - 1, true));
                    s.push_str(&self.ws());
                }
                if n > 0 && self.r.chance(25) {
                    s.push(',');
                }
                s.push_str(&self.ws());
                s.push(']');
                s
            }
            10..=11 => {
                let n = self.r.below(4);
                let mut s = String::from("{");
                for i in 0..n {
                    s.push_str(&self.ws());
                    let key = match self.r.below(6) {
                        0 => format!("\"{}\"", self.strlit()),
                        1 => format!("({})", self.expr(d - 1, true)),
                        2 => self.expr(d - 1, false),
                        _ => self.ident(),
                    };
                    s.push_str(&key);
                    s.push_str(&self.sp());
                    s.push_str(self.r.pick(&["=", ":", "="]));
                    s.push_str(&self.sp());
                    let v = if self.r.chance(10) { self.heredoc(d - 1) } else { self.expr(d - 1, false) };
                    s.push_str(&v);
                    s.push_str(&self.sp());
                    match self.r.below(6) {
                        0..=1 => s.push_str(&self.nl()),
                        2 => s.push_str(&format!("# c{}", self.nl())),
                        3 if i + 1 == n => {}
                        4 => s.push_str(&format!("//{}", self.nl())),
                        _ => s.push(','),
                    }
                }
                s.push_str(&self.ws());
                s.push('}');
                s
            }
            12 => format!("({}{}{})", self.ws(), self.expr(d - 1, true), self.ws()),
            13 => {
                let mut s = String::new();
                if self.r.chance(25) {
                    for _ in 0..self.r.below(2) + 1 {
                        s.push_str(&format!("{}{}::{}", self.ident(), self.w(nl), self.w(nl)));
                    }
                }
                s.push_str(&self.ident());
                s.push_str(&self.w(nl));
                s.push_str(&self.args(d - 1));
                s
            }
            14 => {
                let mut s = format!("[{}{}{}{}", self.for_intro(d - 1), self.ws(), self.expr(d - 1, true), self.ws());
                if self.r.chance(40) {
                    s.push_str(&format!(" if{}{}{}", self.ws1(), self.expr(d - 1, true), self.ws()));
                }
                s.push(']');
                s
            }
            15 => {
                let mut s = format!(
                    "{{{}{}{}{}=>{}{}{}",
                    self.for_intro(d - 1), self.ws(), self.expr(d - 1, false), self.ws(), self.ws(), self.expr(d - 1, false), self.ws()
                );
                if self.r.chance(40) {
                    s.push_str("...");
                    s.push_str(&self.ws());
                }
                if self.r.chance(40) {
                    s.push_str(&format!(" if{}{}{}", self.ws1(), self.expr(d - 1, true), self.ws()));
                }
                s.push('}');
                s
            }
            16 => format!("{}{}{}", self.r.pick(&["-", "!"]), self.sp(), self.term(d - 1, nl)),
            _ => {
                let mut s = self.term(d - 1, nl);
                for _ in 0..self.r.below(3) + 1 {
                    s.push_str(&self.w(nl));
                    match self.r.below(6) {
                        0..=1 => s.push_str(&format!(".{}{}", self.ws(), self.ident())),
                        2 => s.push_str(&format!(".{}*", self.ws())),
                        3 => s.push_str(&format!("[{}*{}]", self.ws(), self.ws())),
                        4 => s.push_str(&format!(".{}{}", self.ws(), self.r.pick(&["0", "12"]))),
                        _ => s.push_str(&format!("[{}{}{}]", self.ws(), self.expr(d - 1, true), self.ws())),
                    }
                }
                s
            }
        }
    }

    pub fn expr(&mut self, d: usize, nl: bool) -> String {
        let mut s = self.term(d, nl);
        if d > 0 && self.r.chance(25) {
            for _ in 0..self.r.below(3) + 1 {
                let op = self.r.pick(&["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]);
                s.push_str(&format!("{}{}{}{}", self.w(nl), op, self.w(nl), self.term(d - 1, nl)));
            }
        }
        if d > 0 && self.r.chance(10) {
            s.push_str(&format!(
                "{}?{}{}{}:{}{}",
                self.w(nl), self.w(nl), self.expr(d - 1, nl), self.w(nl), self.w(nl), self.expr(d - 1, nl)
            ));
        }
        s
    }

    fn attr(&mut self, key: &str, d: usize, multi: bool) -> String {
        let v = if multi && self.r.chance(15) { self.heredoc(d) } else { self.expr(d, false) };
        format!("{key}{}={}{}", self.sp(), self.sp(), v)
    }

    pub fn body(&mut self, d: usize, top: bool) -> String {
        let n = self.r.below(4);
        let mut s = String::new();
        for i in 0..n {
            s.push_str(&self.ws());
            let name = self.ident();
            if d == 0 || self.r.chance(60) {
                // Most of the time avoid redefining an attribute.
                let key = if self.r.chance(95) { format!("{name}{i}") } else { name };
                s.push_str(&self.attr(&key, d.min(2), true));
            } else {
                s.push_str(&name);
                s.push_str(&self.sp1());
                for _ in 0..self.r.below(3) {
                    let l = if self.r.chance(50) { self.ident() } else { format!("\"{}\"", self.strlit()) };
                    s.push_str(&l);
                    s.push_str(&self.sp1());
                }
                s.push('{');
                match self.r.below(4) {
                    0 => s.push_str(&self.sp()),
                    1 => {
                        let k = self.ident();
                        s.push_str(&self.sp());
                        s.push_str(&self.attr(&k, d - 1, false));
                        s.push_str(&self.sp());
                    }
                    _ => {
                        s.push_str(&self.sp());
                        if self.r.chance(20) {
                            s.push_str("# c");
                        }
                        s.push_str(&self.nl());
                        s.push_str(&self.body(d - 1, false));
                        s.push_str(&self.ws());
                    }
                }
                s.push('}');
            }
            s.push_str(&self.sp());
            if self.r.chance(15) {
                s.push_str(self.r.pick(&["# c", "// é", "#"]));
            }
            if !(top && i + 1 == n && self.r.chance(20)) {
                s.push_str(&self.nl());
            }
        }
        if top {
            s.push_str(&self.ws());
        }
        s
    }

    pub fn mutate(&mut self, s: &str) -> String {
        const TOK: &[&str] = &[
            "\"", "{", "}", "[", "]", "(", ")", "=", ":", ",", ".", "..", "...", "\n", " ", "a", "1", "-", "!", "+",
            "${", "%{", "~", "\\", "#", "/*", "*/", "//", "<<E\n", "E", "?", "\r\n", "\r", "é", "\u{301}", "&", "|", "=>",
            "for ", "if ", "in", "endif", "e", "::", "*", "\t", "\\u00", "$${", "<", "%{ if a }", "\u{a0}",
        ];
        let mut cs: Vec<char> = s.chars().collect();
        for _ in 0..self.r.below(2) + 1 {
            let i = self.r.below(cs.len() + 1);
            match self.r.below(4) {
                0 if i < cs.len() => {
                    cs.remove(i);
                }
                1 => {
                    let j = (i + self.r.below(4)).min(cs.len());
                    cs.drain(i..j);
                }
                2 if i < cs.len() => {
                    let t: Vec<char> = TOK[self.r.below(TOK.len())].chars().collect();
                    cs.splice(i..i + 1, t);
                }
                _ => {
                    let t: Vec<char> = TOK[self.r.below(TOK.len())].chars().collect();
                    cs.splice(i..i, t);
                }
            }
        }
        cs.into_iter().collect()
    }
}
