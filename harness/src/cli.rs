//! Observations of the program hcl2json: what it prints and reports for a call on some files.

use crate::build::txt;
use crate::dump::{decimal, t};
use crate::gen::{Gen, Rng};
use crate::json::structures;
use crate::Out;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn list<'a>(v: &'a Value) -> impl Iterator<Item = &'a Value> {
    v.as_array().unwrap().iter()
}

fn at(root: &Path, names: &Value) -> PathBuf {
    list(names).fold(root.to_path_buf(), |p, n| p.join(txt(n)))
}

/// What cannot be read as text is the text with a stray byte in the middle.
fn bytes(f: &Value) -> Vec<u8> {
    let s = txt(&f["s"]);
    let mut b = s.into_bytes();
    if f["utf8"] == json!(false) {
        b.insert(b.len() / 2, 0xff);
    }
    b
}

fn lay(root: &Path, fs: &Value) {
    std::fs::create_dir_all(root).unwrap();
    for d in list(&fs["dirs"]) {
        std::fs::create_dir_all(at(root, d)).unwrap();
    }
    for f in list(&fs["files"]) {
        let p = at(root, &f["path"]);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, bytes(f)).unwrap();
    }
}

/// The text with a stand-in for every number, and the numbers.
fn apart(s: &str) -> (Value, Vec<Value>) {
    let c: Vec<char> = s.chars().collect();
    let (mut out, mut nums) = (Vec::new(), Vec::new());
    let (mut i, mut quoted) = (0, false);
    while i < c.len() {
        if quoted && c[i] == '\\' {
            out.push(c[i] as u32);
            i += 1;
        } else if c[i] == '"' {
            quoted = !quoted;
        } else if !quoted && (c[i] == '-' || c[i].is_ascii_digit()) {
            let start = i;
            while i < c.len() && matches!(c[i], '0'..='9' | '-' | '+' | '.' | 'e' | 'E') {
                i += 1;
            }
            nums.push(decimal(&c[start..i].iter().collect::<String>()));
            out.push(0x11_0000);
            continue;
        }
        if i < c.len() {
            out.push(c[i] as u32);
        }
        i += 1;
    }
    (json!(out), nums)
}

/// All texts between `a` and the next `b`.
fn between(s: &str, a: &str, b: &str) -> Vec<Value> {
    s.match_indices(a)
        .filter_map(|(i, _)| {
            let rest = &s[i + a.len()..];
            rest.find(b).map(|j| t(&rest[..j]))
        })
        .collect()
}

fn call(root: &Path, c: &Value, threads: usize) -> Value {
    let mut cmd = Command::new(std::env::var("HCL2JSON").expect("HCL2JSON"));
    cmd.current_dir(root).env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", threads.to_string());
    for g in list(&c["glob"]) {
        cmd.arg(if threads % 2 == 0 { "-g" } else { "--glob" }).arg(txt(g));
    }
    let long = threads > 2;
    for (k, a, b) in [("keyed", "-P", "--file-paths"), ("pretty", "-p", "--pretty"), ("go", "-C", "--continue-on-error"), ("simplify", "-s", "--simplify")] {
        if c[k] == json!(true) {
            cmd.arg(if long { b } else { a });
        }
    }
    cmd.args(list(&c["paths"]).map(txt));
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = cmd.spawn().expect("hcl2json runs");
    // It may not read its input at all.
    let _ = p.stdin.take().unwrap().write_all(&bytes(&c["stdin"]));
    let o = p.wait_with_output().unwrap();
    let (out, nums) = apart(&String::from_utf8_lossy(&o.stdout));
    let err = String::from_utf8_lossy(&o.stderr);
    let mut skipped = between(&err, "Warning: file `", "` ignored");
    skipped.extend(between(&err, "Warning: directory `", "` ignored"));
    let named = between(&err, "failed to process file `", "`");
    json!({"code": o.status.code().unwrap_or(-1), "out": out, "nums": nums, "skipped": skipped, "named": named})
}

fn file(path: &[&str], s: &str, utf8: bool) -> Value {
    json!({"path": path.iter().map(|n| t(n)).collect::<Vec<_>>(), "s": t(s), "utf8": utf8})
}

fn document(g: &mut Gen) -> String {
    loop {
        let mut s = String::new();
        g.noise = [0, 10][g.r.below(2)];
        match g.r.below(8) {
            0 => {}
            1 | 2 => structures(g, 2, &mut s),
            3 => s = g.body(1, true).chars().take(20).collect(),
            k => s = g.body(k % 3, true),
        }
        if s.chars().count() < 300 {
            return s;
        }
    }
}

const NAMES: &[&str] = &["a.hcl", "b.hcl", "z.tf", "x y.hcl", "üb.hcl", ".h.hcl", "a", "c[1].hcl", "B.hcl", "a-b.hcl"];
const DIRS: &[&str] = &["d", "x[1]", "e.hcl", "{q}", "n*", "?", "a b", "[!d]"];
const GLOBS: &[&str] = &["*.hcl", "**/*.hcl", "**", "*", "?.hcl", "*.tf", "*/*.hcl", "d/*.hcl", "a.hcl", "**/d/**", "**/a*", "*.*", "d/**/*.hcl", "a["];

fn tree(g: &mut Gen) -> Value {
    let mut dirs: Vec<Vec<&str>> = vec![vec![]];
    let mut plain: Vec<Value> = Vec::new();
    for _ in 0..g.r.below(4) {
        let mut d = dirs[g.r.below(dirs.len())].clone();
        d.push(g.r.pick(DIRS));
        plain.push(json!(d.iter().map(|n| t(n)).collect::<Vec<_>>()));
        dirs.push(d);
    }
    let mut files: Vec<Value> = Vec::new();
    for _ in 0..g.r.below(7) {
        let mut p = dirs[g.r.below(dirs.len())].clone();
        p.push(g.r.pick(NAMES));
        let s = document(g);
        let f = file(&p, &s, !g.r.chance(4));
        if files.iter().all(|x| x["path"] != f["path"]) {
            files.push(f);
        }
    }
    json!({"files": files, "dirs": plain})
}

fn spelled(names: &Value, dir: bool, r: &mut Rng) -> Value {
    let mut s = list(names).map(txt).collect::<Vec<_>>().join(if r.chance(10) { "//" } else { "/" });
    if s.is_empty() {
        s.push('.');
    } else if r.chance(20) {
        s.insert_str(0, "./");
    }
    if dir && r.chance(30) {
        s.push_str(["/", "//", "/.", "/./"][r.below(4)]);
    }
    t(&s)
}

fn random(g: &mut Gen, fs: &Value) -> Value {
    let files = fs["files"].as_array().unwrap();
    let dirs = fs["dirs"].as_array().unwrap();
    let mut paths = Vec::new();
    for _ in 0..g.r.below(5) {
        paths.push(match g.r.below(10) {
            0 => t(g.r.pick(&["nope", "-", "no/pe.hcl", "."])),
            1..=5 if !files.is_empty() => {
                let f = files[g.r.below(files.len())]["path"].clone();
                spelled(&f, false, &mut g.r)
            }
            _ if !dirs.is_empty() => {
                let d = dirs[g.r.below(dirs.len())].clone();
                spelled(&d, true, &mut g.r)
            }
            _ => t("."),
        });
    }
    let glob = if g.r.chance(85) { json!([t(g.r.pick(GLOBS))]) } else { json!([]) };
    let s = document(g);
    json!({"glob": glob, "keyed": g.r.chance(50), "pretty": g.r.chance(40), "go": g.r.chance(60), "simplify": g.r.chance(50),
           "paths": paths, "stdin": file(&[], &s, !g.r.chance(5))})
}

pub fn run(out: &mut Out, seed: u64, tier: &str, given: &str) {
    // Calls, with the index of the file system they are made on
    let mut systems: Vec<Value> = Vec::new();
    let mut calls: Vec<(usize, Value)> = Vec::new();
    if given.is_empty() {
        let mut g = Gen::new(seed ^ 0xc11, 5);
        for k in 0..if tier == "thorough" { 4000 } else { 400 } {
            systems.push(tree(&mut g));
            for _ in 0..5 {
                let c = random(&mut g, &systems[k]);
                calls.push((k, c));
            }
        }
    } else {
        let mut known: HashMap<String, usize> = HashMap::new();
        for line in std::fs::read_to_string(given).unwrap().lines() {
            let mut v: Value = serde_json::from_str(line).unwrap();
            let k = *known.entry(v["fs"].to_string()).or_insert(systems.len());
            if k == systems.len() {
                systems.push(v["fs"].take());
            }
            calls.push((k, v["call"].take()));
        }
    }
    let base = std::env::temp_dir().join(format!("hclverif-cli-{}", std::process::id()));
    for (k, fs) in systems.iter().enumerate() {
        lay(&base.join(k.to_string()), fs);
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut done: Vec<(usize, Value)> = std::thread::scope(|s| {
        let workers: Vec<_> = (0..8)
            .map(|_| {
                s.spawn(|| {
                    let mut done = Vec::new();
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let Some((k, c)) = calls.get(i) else { return done };
                        done.push((i, call(&base.join(k.to_string()), c, 1 + (i * 7 + i / 5) % 4)));
                    }
                })
            })
            .collect();
        workers.into_iter().flat_map(|w| w.join().unwrap()).collect()
    });
    let _ = std::fs::remove_dir_all(&base);
    done.sort_by_key(|d| d.0);
    for (i, ran) in done {
        let (k, c) = &calls[i];
        out.put(&json!({"fs": systems[*k], "call": c, "ran": ran}));
    }
}
