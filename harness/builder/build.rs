//! The command-line tool's main.rs, as a module of the harness.
use std::fs;

const TOOL: &str = "/repo/wayfinder-cmd/src";

fn main() {
    println!("cargo:rerun-if-changed={}", TOOL);
    let text = fs::read_to_string(format!("{}/main.rs", TOOL)).unwrap();
    let mut out = String::new();
    for line in text.lines() {
        let l = line.trim();
        let m = l.trim_start_matches("pub ").strip_prefix("mod ").and_then(|m| m.strip_suffix(";"));
        if l.starts_with("//!") || l.starts_with("#![") {
            continue;
        }
        if let Some(m) = m {
            let at = [format!("{}/{}.rs", TOOL, m), format!("{}/{}/mod.rs", TOOL, m)];
            let at = at.iter().find(|p| fs::metadata(p).is_ok()).unwrap();
            out.push_str(&format!("#[path = {:?}]\n", at));
        }
        out.push_str(line);
        out.push('\n');
    }
    out.push_str("pub fn run() -> bool {\n    super::Outcome::ok(main())\n}\n");
    fs::write(format!("{}/cmd.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
