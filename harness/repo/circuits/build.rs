//! Lists the modules of /repo/circuits/src/lib.rs with absolute paths, without
//! test utilities.
use std::path::Path;
use std::{env, fs};

fn strip_comments(s: &str) -> String {
    s.lines().map(|l| match l.find("//") { Some(i) => &l[..i], None => l }).collect::<Vec<_>>().join("\n")
}

/// Replaces `mod x;` by `#[path = ..] mod x;`; other items are kept.
fn rewrite(file: &str, dir: &str, drop: &[&str], special: &dyn Fn(&str) -> Option<String>) -> String {
    println!("cargo:rerun-if-changed={file}");
    let src = strip_comments(&fs::read_to_string(file).unwrap());
    let mut out = String::new();
    for l in src.lines() {
        let t = l.trim();
        if t.starts_with("#![") || t.starts_with("#[cfg(any(feature = \"test\"") || t.starts_with("#[cfg(test)") {
            continue;
        }
        let words: Vec<&str> = t.trim_end_matches(';').split_whitespace().collect();
        let is_mod = t.ends_with(';') && words.len() >= 2 && words[words.len() - 2] == "mod";
        if !is_mod {
            out.push_str(l);
            out.push('\n');
            continue;
        }
        let name = words[words.len() - 1];
        if drop.contains(&name) { continue; }
        if let Some(s) = special(name) {
            out.push_str(&format!("{} {{ {s} }}\n", t.trim_end_matches(';')));
            continue;
        }
        let f = format!("{dir}/{name}.rs");
        let p = if Path::new(&f).exists() { f } else { format!("{dir}/{name}/mod.rs") };
        out.push_str(&format!("#[path = \"{p}\"] {t}\n"));
    }
    out
}

fn main() {
    let root = "/repo/circuits/src";
    let none = |_: &str| None;
    let stark = |n: &str| (n == "stark").then(|| rewrite(&format!("{root}/stark/mod.rs"), &format!("{root}/stark"), &[], &none));
    let m = rewrite(&format!("{root}/lib.rs"), root, &["test_utils"], &stark);
    fs::write(format!("{}/modules.rs", env::var("OUT_DIR").unwrap()), m).unwrap();
}
