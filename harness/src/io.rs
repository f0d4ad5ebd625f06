//! Streams: readers which deliver what they have in pieces, writers which take only some of what
//! they are offered, and both may be interrupted or fail.

use crate::data::route;
use crate::format::Cfg;
use crate::gen::{Gen, Rng};
use crate::{rs, Out};
use hcl::format::{Format, Formatter};
use hcl::structure::Body;
use hcl::Value as HclValue;
use serde_json::{json, Value};
use std::io::{Error, ErrorKind, Read, Write};

/// Follows a schedule: n > 0 bytes, 0 interrupted, -1 failure; in the end everything at once.
#[derive(Clone)]
struct Stream {
    bytes: Vec<u8>,
    plan: Vec<i64>,
    at: usize,
    /// what happened
    evs: Vec<Value>,
    kinds: usize,
}

impl Stream {
    fn new(bytes: &[u8], plan: &[i64]) -> Stream {
        Stream { bytes: bytes.to_vec(), plan: plan.to_vec(), at: 0, evs: vec![], kinds: plan.len() }
    }
    fn next(&mut self) -> Option<i64> {
        let e = self.plan.get(self.at).copied();
        self.at += 1;
        e
    }
    fn failure(&self) -> Error {
        match self.kinds % 3 {
            0 => Error::new(ErrorKind::UnexpectedEof, "eof"),
            1 => Error::new(ErrorKind::WouldBlock, "later"),
            _ => Error::new(ErrorKind::Other, "failed"),
        }
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.next() {
            Some(0) => {
                self.evs.push(json!(0));
                Err(Error::new(ErrorKind::Interrupted, "interrupted"))
            }
            Some(-1) => {
                self.evs.push(json!(-1));
                Err(self.failure())
            }
            e => {
                let n = (e.unwrap_or(i64::MAX).min(1 << 20) as usize).min(buf.len()).min(self.bytes.len());
                buf[..n].copy_from_slice(&self.bytes[..n]);
                self.bytes.drain(..n);
                self.evs.push(if n == 0 { json!(-2) } else { json!(n) });
                Ok(n)
            }
        }
    }
}

impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let (r, out) = match self.next() {
            Some(0) => (0, Err(Error::new(ErrorKind::Interrupted, "interrupted"))),
            Some(-1) => (-1, Err(self.failure())),
            Some(-2) => (-2, Ok(0)),
            e => {
                let n = (e.unwrap_or(i64::MAX).min(1 << 20) as usize).min(buf.len());
                (n as i64, Ok(n))
            }
        };
        self.evs.push(json!({"off": buf, "r": r}));
        out
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn read(out: &mut Out, bytes: &[u8], plan: &[i64]) {
    let mut reads = vec![];
    let mut s = Stream::new(bytes, plan);
    let o = route(|| hcl::from_reader::<Body, _>(&mut s), rs::body);
    reads.push(json!({"what": "body", "evs": s.evs, "o": o}));
    let mut s = Stream::new(bytes, plan);
    let o = route(|| hcl::from_reader::<HclValue, _>(&mut s), rs::value);
    reads.push(json!({"what": "val", "evs": s.evs, "o": o}));
    let mut s = Stream::new(bytes, plan);
    let o = route(|| hcl::from_reader::<Body, _>(std::io::BufReader::with_capacity(3, &mut s)), rs::body);
    reads.push(json!({"what": "body", "evs": s.evs, "o": o}));
    let slices = [
        json!({"what": "body", "o": route(|| hcl::from_slice::<Body>(bytes), rs::body)}),
        json!({"what": "val", "o": route(|| hcl::from_slice::<HclValue>(bytes), rs::value)}),
    ];
    out.put(&json!({"k": "read", "bytes": bytes, "reads": reads, "slices": slices}));
}

fn write(out: &mut Out, b: &Body, cfg: &Option<Cfg>, plan: &[i64], ways: std::ops::Range<usize>) {
    for way in ways {
        let mut s = Stream::new(&[], plan);
        let cfg = if way < 4 { &None } else { cfg };
        let o = route(
            || match way {
                0 => hcl::to_writer(&mut s, b),
                1 => hcl::format::to_writer(&mut s, b),
                2 => hcl::ser::Serializer::new(&mut s).serialize(b),
                3 => b.format(&mut Formatter::new(&mut s)),
                _ => match cfg {
                    None => b.format(&mut Formatter::builder().prefer_ident_keys(false).build(&mut s)),
                    Some(c) => b.format(&mut c.builder().build(&mut s)),
                },
            },
            |()| json!(true),
        );
        out.put(&json!({"k": "write", "way": way, "bd": rs::body(b), "cfg": Cfg::json(cfg), "evs": s.evs, "o": o}));
    }
}

fn plan(r: &mut Rng, fails: usize) -> Vec<i64> {
    let n = r.below(40);
    let mut p: Vec<i64> = (0..n)
        .map(|_| match r.below(8) {
            0 => 0,
            1 => 64,
            2 => 7,
            _ => 1 + r.below(4) as i64,
        })
        .collect();
    if r.chance(fails) {
        p.push([-1, -2][r.below(2)]);
    }
    p
}

const ODD: &[&[u8]] = &[
    b"\xff", b"\xc3", b"\xc3\xa9", b"\xed\xa0\x80", b"\xed\x9f\xbf", b"\xe2\x82", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xf4\x90\x80\x80",
    b"\xf4\x8f\xbf\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x9f\xbf", b"\xe0\xa0\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80\x80", b"\x80",
    b"\xbf", b"\xf5\x80\x80\x80", b"\xee\x80\x80", b"\x7f", b"\x00", b"\xfe", b"\xef\xbf\xbf", b"\xc2\x80", b"\xdf\xbf",
];

pub fn run(out: &mut Out, seed: u64, tier: &str, file: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    if !file.is_empty() {
        for (i, line) in std::fs::read_to_string(file).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(line).unwrap();
            let bytes: Vec<u8> = serde_json::from_value(v["bytes"].clone()).unwrap();
            let plan: Vec<i64> = serde_json::from_value(v["evs"].clone()).unwrap();
            out.current(line);
            read(out, &bytes, &plan);
            if let Ok(b) = hcl::from_slice::<Body>(&bytes) {
                write(out, &b, &None, &plan, i % 4..i % 4 + 1);
            }
        }
        return;
    }
    let n = if tier == "thorough" { 8000 } else { 800 };
    let mut g = Gen::new(seed ^ 0x10, 0);
    for i in 0..n {
        g.noise = [0, 20][i % 2];
        let s = g.body(1 + i % 2, true);
        let mut bytes = s.clone().into_bytes();
        if bytes.len() > 300 {
            continue;
        }
        // wrong bytes only where all characters may be: comments and strings
        if g.r.chance(60) {
            let x = [ODD[g.r.below(ODD.len())], ODD[g.r.below(ODD.len())]].concat();
            let x = &x[..g.r.below(x.len() + 1)];
            let (a, b) = [("# ", "\n"), ("x = \"", "\"\n"), ("/*", "*/"), ("#", ""), ("y = <<E\n", "\nE\n")][g.r.below(5)];
            let (a, b) = (a.as_bytes(), b.as_bytes());
            let more = [a, x, b].concat();
            bytes = if b.is_empty() || g.r.chance(50) { bytes.push(b'\n'); [bytes, more].concat() } else { [more, bytes].concat() };
        }
        let p = plan(&mut g.r, 25);
        let p: Vec<i64> = p.into_iter().map(|x| if x == -2 { -1 } else { x }).collect();
        out.current(&format!("{bytes:?} {p:?}"));
        read(out, &bytes, &p);
        if let Ok(b) = hcl::from_str::<Body>(&s) {
            let p = plan(&mut g.r, 40);
            let cfg = Cfg::random(&mut g.r);
            write(out, &b, &cfg, &p, 0..5);
        }
    }
}
