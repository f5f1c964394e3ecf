//! C15: errors name the file, the cell and the place in the source.
use crate::pipe::*;
use crate::vf::*;
use csvpp::Error;
use std::fs;

/// source text under construction, in which the offending piece is marked
#[derive(Default)]
struct Src { text: String, from: usize, to: usize }
impl Src {
    fn put(&mut self, s: &str) { self.text.push_str(s) }
    /// the offending piece
    fn bad(&mut self, s: &str) { self.from = self.text.len(); self.put(s); self.to = self.text.len(); }
    /// the text ends too early: anywhere from its last character to here
    fn early(&mut self) { self.to = self.text.len() + 1; self.from = self.text.trim_end().len() - 1; }
}
/// byte offset of a line and character
fn at(text: &str, line: usize, ch: usize) -> Option<usize> {
    let mut start = 0;
    for (i, l) in text.split('\n').enumerate() {
        if i == line {
            let mut n = 0;
            for (o, c) in l.char_indices() { if n == ch { return Some(start + o); } n += c.len_utf8().min(1); }
            return if n == ch { Some(start + l.len()) } else { None };
        }
        start += l.len() + 1;
    }
    None
}
fn located(e: &csvpp::ParseError, s: &Src) {
    let (line, ch) = (e.position.line_number, e.position.line_offset);
    note("position", &format!("line {line} offset {ch}, marked {}..{}", s.from, s.to));
    let Some(o) = at(&s.text, line, ch) else { fail("error: names a place outside of the source") };
    // blanks before the offending piece are part of it
    let lead = s.text[..s.from].trim_end().len();
    check(o >= lead && o < s.to, "error: names another place than that of the offending text");
    let l = s.text.split('\n').nth(line).unwrap();
    let h = &e.highlighted_lines;
    // an end beyond the last line cannot be shown
    if h.is_empty() { check(line >= s.text.lines().count(), "error: does not show the line"); return; }
    let no = (line + 1).to_string();
    let Some(i) = h.iter().position(|x| x.ends_with(l) && x.trim_start().strip_prefix(no.as_str()).is_some_and(|r| r.starts_with(|c: char| !c.is_ascii_digit()))) else { fail("error: does not show the line") };
    let margin = h[i].chars().count() - l.chars().count();
    let caret = h.get(i + 1).and_then(|c| c.chars().position(|c| c == '^'));
    check(caret == Some(margin + ch), "error: the caret is under another character");
    check(e.to_string().contains(&format!("line {no} ")), "error: names another line");
}
fn run(s: &Src) -> Error {
    note("src", &s.text);
    fs::write("main.csvpp", &s.text).unwrap();
    limit(100_000_000);
    match build(&args("main.csvpp", "out.csv")) { Ok(_) => fail("error: none reported"), Err(e) => e }
}
fn in_cell(s: &Src, x: usize, y: usize) {
    let e = run(s);
    let t = e.to_string();
    note("error", &t);
    match e {
        Error::CellSyntaxError { filename, address, parse_error } => {
            check(filename.ends_with("main.csvpp") && t.contains("main.csvpp"), "error: names another file");
            check(address.column.x == x && address.row.y == y, "error: names another cell");
            check(t.contains(&format!("cell {}{} ", ["A", "B"][x], y + 1)), "error: names another cell");
            located(&parse_error, s);
        }
        _ => fail("error: not reported as one of a cell"),
    }
}
const CODE: [&str; 4] = ["", "x := 1\n---\n", "# c\n\nx := \"a\nb\"\n ---\n", "fn f(a)\n  a\n---\n"];
const ROWS: [(&str, usize); 5] = [("", 0), ("a,b\n", 1), ("\"q\nr\",b\na,b\n", 2), ("# \"c\na\n", 1), ("a,\\\nb\n", 1)];
/// what comes before the cell
fn cell(s: &mut Src, deep: bool) -> (usize, usize, bool) {
    s.put(if deep { CODE[choice(CODE.len(), "code")] } else { CODE[2 * choice(2, "code")] });
    let (t, y) = if deep { ROWS[choice(ROWS.len(), "rows")] } else { ROWS[2 * choice(3, "rows")] };
    s.put(t);
    let x = choice(2, "column");
    if x == 1 { s.put([" \u{e9} ,", "\"c\"\"\n\",", "a,", "[[t=b]]a,"][choice(if deep { 4 } else { 2 }, "beside")]); }
    let quoted = choice(2, "quoted") == 1;
    s.put(["", " "][choice(2, "blank")]);
    if quoted { s.put("\""); }
    (x, y, quoted)
}
/// symbolic text, some of whose characters stand for others
fn free(n: usize, nm: &str, alphabet: &[u8]) -> String {
    let n = choice(n + 1, nm);
    text(n, nm, alphabet).chars().map(|c| match c { 'E' => '\u{e9}', 'L' => '\n', c => c }).collect()
}
fn finish(s: &mut Src, quoted: bool, deep: bool) {
    if quoted { s.put("\""); }
    s.put(["", ",z\nw\n", "\n"][choice(if deep { 3 } else { 2 }, "rest")]);
}
/// an error in a formula
pub fn c15_formula() { formula(false) }
pub fn c15_formula_deep() { formula(true) }
fn formula(deep: bool) {
    warm();
    let mut s = Src::default();
    let (x, y, quoted) = cell(&mut s, deep);
    s.put(["", "[[t=b]]", " [[fs=12 t=b]] "][choice(3, "options")]);
    s.put("=1");
    match choice(if quoted { 3 } else { 2 }, "before") {
        0 => s.put(&free(if deep { 3 } else { 2 }, "blanks", if quoted { b" L" } else { b" " })),
        1 => s.put(" +2"),
        _ => { s.put("&\"\""); s.put(&free(if deep { 3 } else { 2 }, "text", b"aEL ,['#")); s.put("\"\""); }
    }
    s.put("+ ");
    match choice(6, "bad") {
        0 => s.bad("*"),
        1 => s.bad("?"),
        2 => s.bad(")"),
        3 => { s.put("2 "); s.bad("3") }
        4 => { s.put("f("); s.bad("/"); s.put("a)"); }
        _ => s.early(),
    }
    finish(&mut s, quoted, deep);
    in_cell(&s, x, y);
    witness("formula");
}
/// an error in the options of a cell or row
pub fn c15_option() { option(false) }
pub fn c15_option_deep() { option(true) }
fn option(deep: bool) {
    warm();
    let mut s = Src::default();
    let (x, y, quoted) = cell(&mut s, deep);
    s.put(if x == 0 { ["[[", "![[", "![[t=b]][["][choice(3, "which")] } else { "[[" });
    match choice(4, "before") {
        0 => s.put(&free(if deep { 3 } else { 2 }, "blanks", if quoted { b" L" } else { b" " })),
        1 => s.put("t=b "),
        2 => s.put("c=ff00aa / "),
        _ => { s.put("n='"); s.put(&free(if deep { 3 } else { 2 }, "note", if quoted { b"aEL [=#" } else { b"aE [=#" })); s.put("' "); }
    }
    match choice(9, "bad") {
        0 => s.bad("foo"),
        1 => { s.put("t = "); s.bad("zz"); s.put(" "); }
        2 => { s.put("c="); s.bad("zzzzzz"); }
        3 => { s.put("fs="); s.bad("999"); }
        4 => { s.put("t"); s.bad("?"); }
        5 => { s.put("dv=date_after("); s.bad("12/32/2024"); s.put(")"); }
        6 => { s.put("n="); s.bad("'a"); }
        7 => { s.put("t=b "); s.bad("?"); }
        _ => { s.put("dv="); s.bad("foo"); s.put("(1)"); }
    }
    s.put("]]v");
    finish(&mut s, quoted, deep);
    in_cell(&s, x, y);
    witness("option");
}
/// options that are misplaced or not ended
pub fn c15_place() {
    warm();
    let mut s = Src::default();
    let (x, y, quoted) = cell(&mut s, true);
    match choice(3, "bad") {
        0 => { s.put("[[t=b]]"); s.put(["", " "][choice(2, "gap")]); s.bad("[["); s.put("b=l]]v"); }
        1 => if x == 1 { s.bad("![["); s.put("b=l]]v"); } else { s.put("[["); s.bad("fill"); s.put("=2]]v"); }
        _ => { s.put("[[t=b"); s.put(["", " t=i", "    "][choice(3, "more")]); s.early(); }
    }
    finish(&mut s, quoted, true);
    in_cell(&s, x, y);
    witness("place");
}
/// an error in the code section
pub fn c15_code() {
    warm();
    let mut s = Src::default();
    for _ in 0..choice(3, "lines") { s.put(["\n", "# \u{e9} \"\n", "v := 1 # c\n", "w := \"a\n\u{e9}\"\n", "fn g(a,\n b) a +\n b\n"][choice(5, "line")]); }
    match choice(3, "lead") {
        0 => { s.put("# "); s.put(&free(3, "comment", b"aE\" '#:")); s.put("\n"); }
        1 => { s.put("t := \""); s.put(&free(3, "text", b"aEL #")); s.put("\"\n"); }
        _ => s.put(&free(3, "blanks", b" L")),
    }
    match choice(7, "bad") {
        0 => { s.put("x := "); s.bad("*"); s.put(" 2"); }
        1 => { s.put("x := 1 + \"\u{e9}\" & "); s.bad("?"); }
        2 => { s.put("x := (1,\n 2"); s.from = s.text.len() - 4; s.to = s.from + 1; }
        3 => { s.put("fn f(a"); s.bad("+"); s.put(") a"); }
        4 => { s.put("x := f(1,\n\n  "); s.bad("/"); s.put(" 2)"); }
        5 => { s.put("x := \"a\nb\" + "); s.bad(")"); }
        _ => { s.put("x := \"a\nb\" "); s.bad("="); s.put(" * 3\ny := 4"); s.from = s.text.find("* 3").unwrap(); s.to = s.from + 1; }
    }
    s.put("\n---\na\n");
    let e = run(&s);
    let t = e.to_string();
    note("error", &t);
    match e {
        Error::CodeSyntaxError { filename, parse_error } => { check(filename.ends_with("main.csvpp") && t.contains("main.csvpp"), "error: names another file"); located(&parse_error, &s); }
        _ => fail("error: not reported as one of the code section"),
    }
    witness("code");
}
/// malformed CSV
pub fn c15_csv() {
    warm();
    let mut s = Src::default();
    s.put(CODE[choice(CODE.len(), "code")]);
    s.put(ROWS[choice(ROWS.len(), "rows")].0);
    match choice(3, "beside") {
        0 => {}
        1 => { s.put("a"); s.put(&free(3, "plain", b"aE '#")); s.put(","); }
        _ => { s.put("\""); s.put(&free(3, "text", b"aEL,#[")); s.put("\","); }
    }
    match choice(3, "bad") {
        0 => { s.put("\"a\""); s.put(["", " "][choice(2, "gap")]); s.bad("b"); s.put(",c\n"); }
        1 => { s.from = s.text.len(); s.put("\"a\n\n b"); s.put(["", "\n", ",\n\n"][choice(3, "rest")]); s.to = s.text.len() + 1; }
        _ => { s.put("\"a\nb\""); s.bad("c"); s.put("\"\nd\n"); }
    }
    let e = run(&s);
    let t = e.to_string();
    note("error", &t);
    match e {
        Error::CsvParseError { filename, parse_error } => { check(filename.ends_with("main.csvpp") && t.contains("main.csvpp"), "error: names another file"); located(&parse_error, &s); }
        _ => fail("error: not reported as one of the CSV section"),
    }
    witness("csv");
}
/// an error that shows in evaluation names the cell of the spreadsheet that is produced
pub fn c15_eval() {
    warm();
    let mut src = ["fn f(a) a\n---\n", "fn f(a) a\nfn g(b) f(b,1)\nx := g(2)\n---\n"][choice(2, "code")].to_string();
    let deep = src.contains("fn g");
    let mut y = 0;
    for _ in 0..choice(3, "rows above") {
        let (t, n) = [("a,b\n", 1), ("![[fill=3]]=f(1),b\n", 3), ("![[fill=0]]=f(),b\n", 0), ("\"a\nb\"\n", 1)][choice(4, "row")];
        src.push_str(t);
        y += n;
    }
    let x = choice(2, "column");
    let lead = ["", "![[fill=2]]", "![[t=b]]"][choice(3, "options")];
    if x == 1 { src.push_str(lead); src.push_str("=f(1),\""); } else { src.push('"'); src.push_str(lead); }
    src.push_str(if deep { ["=f()", "=x", "=g(1)"] } else { ["=f()", "=1+f(1,2)", "=f(f())"] }[choice(3, "bad")]);
    src.push_str("\",z\nlast,=f()\n");
    note("src", &src);
    fs::write("main.csvpp", &src).unwrap();
    limit(100_000_000);
    let Err(e) = build(&args("main.csvpp", "out.csv")) else { fail("error: none reported") };
    let t = e.to_string();
    note("error", &t);
    match e {
        Error::EvalError { filename, address: Some(a), .. } => {
            check(filename.ends_with("main.csvpp") && t.contains("main.csvpp"), "error: names another file");
            check(a.column.x == x && a.row.y == y && t.contains(&format!("cell {}{} ", ["A", "B"][x], y + 1)), "error: names another cell");
            check(t.contains("f(a)"), "error: does not name the function");
        }
        _ => fail("error: not reported as one of a cell"),
    }
    witness("eval");
}
/// an error in an imported file names that file
pub fn c15_import() {
    warm();
    let deep = choice(2, "deep") == 1;
    let bad = choice(4, "bad");
    let text = ["x := *\n---\n", "x := 1\n---\n=*\n", "x := 1\n---\n[[foo]]a\n", "---\n\"a\n"][bad];
    fs::write("zz.csvpp", text).unwrap();
    fs::write("b.csvpp", "use zz\n---\n").unwrap();
    fs::write("main.csvpp", if deep { "use b\n---\n=x\n" } else { "use zz\n---\n=x\n" }).unwrap();
    limit(100_000_000);
    let Err(e) = build(&args("main.csvpp", "out.csv")) else { fail("error: none reported") };
    let t = e.to_string();
    note("error", &t);
    check(t.contains("zz.csvpp"), "error: names another file");
    check(!t.contains("main.csvpp") && !t.contains("b.csvpp"), "error: names another file");
    check(t.contains(["line 1 ", "line 3 ", "line 3 ", "line 2 "][bad]), "error: names another line");
    witness("import");
}
