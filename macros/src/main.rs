//! Runs the macro invocations which the environment variable HV_CODE names a file of, and adds
//! what each made to the cases which describe them: `hclmacros CASES OUT`.
#![recursion_limit = "1024"]
#![allow(unused, clippy::all)]

#[path = "../../harness/src/dump.rs"]
mod dump;
#[path = "../../harness/src/rs.rs"]
mod rs;

mod code {
    use crate::rs;
    use serde_json::Value;
    include!(env!("HV_CODE"));
}

use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let cases = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    let mut n = 0;
    for (line, f) in cases.lines().zip(code::ALL) {
        let mut case: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        case["out"] = match std::panic::catch_unwind(f) {
            Ok(v) => serde_json::json!({"r": "ok", "v": v}),
            Err(_) => serde_json::json!({"r": "panic"}),
        };
        serde_json::to_writer(&mut out, &case).unwrap();
        out.write_all(b"\n").unwrap();
        n += 1;
    }
    println!("{n}");
}
