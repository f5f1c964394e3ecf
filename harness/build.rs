//! The program itself (`main.rs`), to be included as a module.
use std::{env, fs, path::Path};

fn main() {
    let program = concat!("/repo", "/src/main.rs");
    println!("cargo:rerun-if-changed={program}");
    let text = fs::read_to_string(program).unwrap();
    // comments and attributes of the whole file only go at the start of one
    let text = text.lines().map(|l| if l.starts_with("//!") || l.starts_with("#![") { "" } else { l }).collect::<Vec<_>>().join("\n");
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("program.rs");
    fs::write(out, text + "\n").unwrap();
}
