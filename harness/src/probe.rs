//! Fixed inputs which show known findings, and inputs read from a file.

use crate::parse::observe;
use crate::Out;

/// Reads lines `mode JSON-string` from the file `path`.
pub fn run(out: &mut Out, path: &str, bare: bool) {
    for line in std::fs::read_to_string(path).unwrap().lines() {
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (mode, s) = line.split_once(' ').unwrap();
        let s: String = serde_json::from_str(s).unwrap();
        out.current(&s);
        out.put(&observe(mode, &s, bare));
    }
}
