//! Dumps the syntax tree of a Rust crate as JSON.
//!
//! `rsast ROOT.rs` follows `mod` declarations from ROOT.rs, leaves out everything under
//! `#[cfg(test)]`, expands the crate's own `macro_rules!` macros, and prints one JSON object:
//! `{"files": [...], "items": [...], "errors": [...]}`.
mod lower;
mod mexp;

use serde_json::json;
use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: rsast ROOT.rs...");
        std::process::exit(2);
    }
    let mut out = Vec::new();
    for root in &args {
        let mut l = lower::Lower::new();
        let items = l.load_file(Path::new(root), true);
        out.push(json!({
            "root": root,
            "files": l.files,
            "items": items,
            "errors": l.errors,
        }));
    }
    println!("{}", serde_json::Value::Array(out));
}
