//! C05: whatever the input, the compiler answers: a spreadsheet or an error, never a crash or a hang.
use crate::pipe::*;
use crate::vf::*;

/// `n` characters: printable ASCII, tab, line breaks, a two-byte letter and a wide space
fn anything(n: usize) -> String {
    let v = bytes(n, "any");
    for b in &v { assume((*b >= 1) & (*b <= 3) | (*b == 9) | (*b == 10) | (*b >= 0x20) & (*b <= 0x7e)); }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let mut o = String::new();
    for c in s.bytes() {
        match c { 1 => o.push('\u{e9}'), 2 => o.push('\u{3000}'), 3 => o.push_str("\r\n"), c => o.push(c as char) }
    }
    o
}
fn some(n: usize, alphabet: &[u8]) -> String { expand(&text(n, "some", alphabet), 1, "\u{e9}") }
fn answers(src: &str) {
    limit(60_000_000);
    match to_csv(src) {
        Ok(_) => witness("compiled"),
        Err(e) => { check(!e.to_string().is_empty(), "an error says something"); witness("error"); }
    }
}
const CELL: &[(&str, &str)] = &[("", ""), ("a,", "b\n"), ("\"", "\""), ("x,y\nz,", ""), ("a\\\n", ",b"), ("\"a\n", "\",\u{e9}")];
const FORMULA: &[(&str, &str)] = &[("=", ""), ("=f(", ")"), ("=1", ""), ("\"=", "\""), ("=\"\"", ""), ("\"=1 +\n", ")\"")];
const OPTS: &[(&str, &str)] = &[("[[", "]]"), ("![[", "]]x"), ("[[v=", "]]"), ("[[t=", "/f=2]]"), ("[[c=#", "]]"), ("[[n='", "']]"), ("[[", ""), ("[[c=12", " n=x]]"), ("a,[[", "=b]]=1")];
const VALID: &[(&str, &str)] = &[("[[dv=in_list(", ")]]"), ("[[dv=in_list(1", ")]]"), ("[[dv=", "]]"), ("[[dv=num_btwn(1", "2)]]"), ("[[dv=date_eq(1/2/", ")]]"), ("[[dv=in_range(A", ")]]"), ("[[dv=c('", "')]]"), ("[[dv=date_btwn(1/1/23", "12/31/23)]]")];
const CODE: &[(&str, &str)] = &[("", "\n---\n"), ("a := ", "\n---\n=a"), ("fn f(", ") 1\n---\n"), ("use ", "\n---\n"), ("a := 1", "\nb := 2\n---\n=a"), ("fn f(x) ", "\n---\n=f(1)"), ("# \u{e9}\nfn f(a)\n  a", "\n---\n")];
fn run(ctx: &[(&str, &str)], n: usize) {
    warm();
    let (a, b) = ctx[choice(ctx.len(), "context")];
    let n = choice(n + 1, "n");
    answers(&format!("{a}{}{b}", anything(n)));
}
fn exactly(ctx: &[(&str, &str)], n: usize) {
    warm();
    let (a, b) = ctx[choice(ctx.len(), "context")];
    answers(&format!("{a}{}{b}", anything(n)));
}
pub fn c05_cell() { run(CELL, 3) }
pub fn c05_formula() { run(FORMULA, 2) }
pub fn c05_opts() { run(OPTS, 3) }
pub fn c05_valid() { run(VALID, 2) }
pub fn c05_code() { run(CODE, 2) }
pub fn c05_cell4() { exactly(CELL, 4) }
pub fn c05_formula4() { formula(4) }
pub fn c05_formula5() { formula(5) }
fn formula(n: usize) {
    warm();
    let (a, b) = FORMULA[choice(FORMULA.len(), "context")];
    answers(&format!("{a}{}{b}", some(n, b"1a\x01(,\"-% ")));
}
pub fn c05_opts4() { exactly(OPTS, 4) }
pub fn c05_valid3() { exactly(VALID, 3) }
pub fn c05_code4() { code(4) }
pub fn c05_code5() { code(5) }
fn code(n: usize) {
    warm();
    let (a, b) = CODE[choice(CODE.len(), "context")];
    answers(&format!("{a}{}{b}", some(n, b"a1\x01 \n:=(,")));
}
/// errors about long inputs are shortened for display
pub fn c05_long() {
    warm();
    let n = 46 + choice(6, "length");
    let mut s = String::from(["=@", "=1+@", "[[@", "=\"", "=f("][choice(5, "start")]);
    for _ in 0..n { s.push('x'); }
    answers(&format!("{s}{}", anything(2)));
}
/// numbers of any size, wherever the language takes one
pub fn c05_number() {
    warm();
    let (a, b) = [("=", ""), ("=-", "+1"), ("[[fs=", "]]"), ("[[dv=num_eq(-", ")]]"), ("[[dv=in_list(", " 1)]]"), ("[[dv=date_eq(1/1/", ")]]"), ("[[dv=date_eq(", "/1/23)]]"), ("[[c=", "]]"), ("[[dv=in_range(A", ":B)]]")][choice(9, "context")];
    let lead = ["", "0", "25", "-", "1844674407370955161", "922337203685477580", "99999999999999999999999999999999"][choice(7, "lead")];
    let n = choice(2, "n");
    let d = text(n, "digits", b"0123456789");
    answers(&format!("{a}{lead}{d}{b}"));
}
/// decimal fractions
pub fn c05_float() {
    warm();
    let (a, b) = [("=", ""), ("=1-", "%"), ("[[dv=in_list(", " 1)]]")][choice(3, "context")];
    let lead = ["", "0", "1E", "12345678901234567", "0.000000000000000000000"][choice(5, "lead")];
    let d = pick(&["0", "5", "9", ".", "1.5", ".9", "5.", "05", "308", "309", "-400"], "digits");
    answers(&format!("{a}{lead}{d}{}{b}", text(1, "last", b"059.")));
}
/// `key=value` pairs from the command line
pub fn c05_kv() {
    warm();
    let n = choice(3, "n");
    let kv = format!("{}{}", ["", "a=", "=", "a=1+"][choice(4, "start")], anything(n));
    std::fs::write("main.csvpp", "=a").unwrap();
    let mut a = args("main.csvpp", "out.csv");
    a.key_values = vec![kv];
    limit(60_000_000);
    match build(&a) { Ok(_) => witness("compiled"), Err(e) => { check(!e.to_string().is_empty(), "an error says something"); witness("error"); } }
}
/// repetition counts of any size
pub fn c05_fill() {
    warm();
    let lead = ["", "184467440737095516", "10485", "1"][choice(4, "lead")];
    let n = choice(2, "n");
    let d = text(n, "digits", b"0123456789");
    let tail = if lead == "10485" { "77" } else { "" };
    let second = ["", "\n![[f=18446744073709551615]]b", "\n![[f=0]]=c"][choice(3, "second")];
    limit(60_000_000);
    match to_csv(&format!("![[f={lead}{tail}{d}]]a{second}")) {
        Ok(_) => witness("compiled"), Err(e) => { check(!e.to_string().is_empty(), "an error says something"); witness("error"); }
    }
}
/// long texts: the depth of the stack does not depend on how long a cell, a record or a text is
pub fn c05_many() {
    warm();
    let (a, b) = [("", ""), ("\"", "\""), ("=1+\"", "\""), ("[[n='", "']]"), ("# ", "\nx"), ("x := \"", "\"\n---\n=x")][choice(6, "context")];
    let piece = match choice(4, "piece") { 0 => some(1, b"a\x01 #"), 1 => String::from("\"\""), 2 => String::from("\\\n"), _ => String::from("\\'") };
    limit(3_000_000_000);
    match to_csv(&format!("{a}{}{b}", piece.repeat(7000))) {
        Ok(_) => witness("compiled"), Err(e) => { check(!e.to_string().is_empty(), "an error says something"); witness("error"); }
    }
}
