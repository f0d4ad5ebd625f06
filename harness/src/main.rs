mod acc;
mod build;
mod cli;
mod conv;
mod data;
mod dump;
mod edit;
mod eq;
mod eval;
mod foreign;
mod format;
mod gen;
mod ident;
mod io;
mod iter;
mod json;
mod macros;
mod num;
mod own;
mod parse;
mod probe;
mod rs;
mod sess;
mod steps;
mod text;
mod unrs;
mod visit;

use std::io::Write;

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
    cur: std::fs::File,
    cur_len: usize,
}

impl Out {
    pub fn new(path: &str) -> Out {
        let cur = if path == "/dev/null" { path.to_string() } else { format!("{path}.cur") };
        Out {
            w: std::io::BufWriter::new(std::fs::File::create(path).unwrap()),
            n: 0,
            cur: std::fs::File::create(cur).unwrap(),
            cur_len: 0,
        }
    }
    /// Notes what is about to be done, for the case that it takes this process down.
    pub fn current(&mut self, what: &str) {
        use std::os::unix::fs::FileExt;
        let _ = self.cur.write_all_at(what.as_bytes(), 0);
        if what.len() < self.cur_len {
            let _ = self.cur.set_len(what.len() as u64);
        }
        self.cur_len = what.len();
    }
    pub fn put(&mut self, v: &serde_json::Value) {
        // TLC's JSON reader takes at most 255 levels.
        if depth(v) > 250 {
            return;
        }
        serde_json::to_writer(&mut self.w, v).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.n += 1;
    }
}

fn depth(v: &serde_json::Value) -> usize {
    use serde_json::Value::*;
    1 + match v {
        Array(a) => a.iter().map(depth).max().unwrap_or(0),
        Object(o) => o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let args = a.clone();
    let get = move |k: &str, d: &str| -> String {
        args.iter().position(|x| x == k).map_or(d.to_string(), |i| args[i + 1].clone())
    };
    let mut out = Out::new(&get("--out", "/dev/null"));
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let tier = get("--tier", "quick");
    let work = move || {
        match a[1].as_str() {
            "parse" => parse::run(&mut out, seed, &tier, &get("--what", "ast")),
            "probe" => probe::run(&mut out, &get("--in", ""), get("--what", "ast") != "full"),
            "edit" => edit::run(&mut out, seed, &tier, &get("--what", "body"), &get("--in", "")),
            "visit" => visit::run(&mut out, seed, &tier),
            "data" => data::run(&mut out, seed, &tier, &get("--what", "ser"), &get("--in", "")),
            "steps" => steps::run(&mut out, seed, &tier, &get("--in", "")),
            "conv" => conv::run(&mut out, seed, &tier),
            "iter" => iter::run(&mut out, seed, &tier, &get("--in", "")),
            "acc" => acc::run(&mut out, seed, &tier),
            "foreign" => foreign::run(&mut out, seed, &tier),
            "sess" => sess::run(&mut out, seed, &tier, &get("--in", "")),
            "io" => io::run(&mut out, seed, &tier, &get("--in", "")),
            "own" => own::run(&mut out, seed, &tier),
            "json" => json::run(&mut out, seed, &tier, &get("--in", "")),
            "text" => text::run(&mut out, seed, &tier, &get("--in", "")),
            "ident" => ident::run(&mut out, seed, &tier, &get("--in", "")),
            "cli" => cli::run(&mut out, seed, &tier, &get("--in", "")),
            "macros" => macros::run(&mut out, seed, &tier, &get("--in", ""), &get("--code", "/dev/null")),
            "eq" => eq::run(&mut out, seed, &tier),
            "numbers" => num::run(&mut out, seed, &tier),
            "eval" => eval::run(&mut out, seed, &tier, &get("--what", "expr")),
            "format" => format::run(&mut out, seed, &tier),
            "convert" => format::convert(&mut out, seed, &tier),
            x => {
                eprintln!("unknown subcommand {x}");
                std::process::exit(2);
            }
        }
        out.w.flush().unwrap();
        println!("{}", out.n);
    };
    // Deeply nested inputs need some stack in unoptimised builds.
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}
