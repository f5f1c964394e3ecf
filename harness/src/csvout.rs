//! C06: CSV that uses no csv++ feature is passed through.  C11: what happens to values that the output
//! file already holds.
use crate::csv_layer::read_eof;
use crate::pipe::*;
use crate::vf::*;

fn rows_of(o: &str) -> Vec<Vec<String>> {
    let Some(r) = cells(o) else { fail("the output is not CSV") };
    r
}
/// a line of three dashes separates the code section from the cells
fn separator(s: &str) -> bool { s.lines().any(|l| l.trim() == "---") }
/// uses options or formulas
fn feature(s: &str) -> bool { s.starts_with('=') || s.starts_with("[[") || s.starts_with("![[") }

fn plain(src: &str) {
    note("src", src);
    if separator(src) { return; }
    let chars: Vec<char> = src.chars().collect();
    let got = to_csv(src);
    // KF-EOF-COMMA (C01): the reader of the language drops the empty field after a final separator
    let Ok((want, dropped)) = read_eof(&chars) else { return };
    for r in &want { for f in r { assume(!feature(&f.text)); } }
    let got = match got { Ok(o) => rows_of(&o), Err(e) => { note("error", &e.to_string()); fail("a valid CSV document is rejected") } };
    check(got.len() == want.len(), "pass-through: number of rows");
    let width = want.iter().enumerate().map(|(i, r)| r.len() - usize::from(dropped && i + 1 == want.len() && r.len() > 1)).max().unwrap_or(0);
    for (g, w) in got.iter().zip(&want) {
        check(g.len() == width, "pass-through: rows are as wide as the widest one");
        for (x, g) in g.iter().enumerate() {
            match w.get(x) {
                Some(w) => { if !w.text.is_empty() { witness("value"); } check(eq(g, &w.text), "pass-through: value") }
                None => { check(g.is_empty(), "pass-through: padding"); witness("padding") }
            }
        }
    }
    if got.len() > 1 { witness("rows"); }
}
/// punctuation that means something in other places
pub fn c06_marks() { warm(); let n = 1 + choice(5, "length"); plain(&text(n, "text", b"a,\n[]!=/'")) }
/// everything CSV itself is sensitive to
pub fn c06_csv() { warm(); let n = 1 + choice(6, "length"); plain(&text(n, "text", b"a,\n\" #\\")) }
pub fn c06_dash() { warm(); let n = 1 + choice(6, "length"); plain(&text(n, "text", b"a-,\n \"")) }
/// any character, alone and beside others
pub fn c06_char() {
    warm();
    let c = range_text(2, "characters", b' ', b'~', b"");
    let e = pick(&["", "\u{e9}", "\u{1f600}", "\u{3000}x", "\t"], "other");
    plain(&["{C}", "a{C}{E}", "{E}{C},b", "a b,{C} {E}b\nc", "x\ny,z,{C}{E}\n", ":={C}\n{E}use foo,fn f(a) b,a := 1\n"][choice(6, "context")].replace("{C}", &c).replace("{E}", e))
}
/// compiling the output again changes nothing
pub fn c06_again() {
    warm();
    let n = 1 + choice(5, "length");
    let s = text(n, "text", b"a,\n\" =[1");
    note("src", &s);
    let Ok(o) = to_csv(&s) else { return witness("rejected") };
    // a leading blank line is dropped, so is a value that looks like an option
    // KF-QUOTES (C03): quotes within a text are not doubled
    for r in rows_of(&o) { for c in r { assume(!c.starts_with("[[") && !(c.starts_with('=') && c.matches('"').count() > 2)); } }
    assume(!o.starts_with('\n'));
    note("first", &o);
    match to_csv(&o) {
        Ok(p) => { note("second", &p); check(eq(&o, &p), "compiling the output changes it"); witness("same") }
        Err(e) => { note("error", &e.to_string()); fail("the output does not compile") }
    }
}

// ---- C11 -----------------------------------------------------------------------------------
/// compile over an existing file
fn over(src: &str, existing: &str, safe: bool) -> Vec<Vec<String>> {
    std::fs::write("main.csvpp", src).unwrap();
    std::fs::write("out.csv", existing).unwrap();
    let mut a = args("main.csvpp", "out.csv");
    a.safe = safe;
    if let Err(e) = build(&a) { note("error", &e.to_string()); fail("existing values: rejected") }
    let o = std::fs::read_to_string("out.csv").unwrap();
    std::fs::remove_file("out.csv").unwrap();
    note("out", &o);
    rows_of(&o)
}
/// one row as CSV text
fn line(r: &[String]) -> String {
    if r.len() == 1 && r[0].is_empty() { return "\"\"\n".into(); }
    r.iter().map(|c| if c.contains([',', '"', '\n']) || c.starts_with(' ') { format!("\"{}\"", c.replace('"', "\"\"")) } else { c.clone() }).collect::<Vec<_>>().join(",") + "\n"
}
/// the specification: cell by cell
fn merged(new: &[Vec<String>], old: &[Vec<String>], safe: bool, got: &[Vec<String>]) {
    let (h, w) = (new.len().max(old.len()), new.iter().chain(old).map(Vec::len).max().unwrap_or(0));
    check(got.len() == h, "existing values: number of rows");
    for (y, g) in got.iter().enumerate() {
        check(g.len() == w, "existing values: rows are as wide as the widest one");
        for (x, g) in g.iter().enumerate() {
            let (n, o) = (new.get(y).and_then(|r| r.get(x)), old.get(y).and_then(|r| r.get(x)));
            let empty = String::new();
            let want = match (n, o) {
                (Some(n), Some(o)) => if safe && !o.is_empty() { witness("kept"); o } else { witness("replaced"); n },
                (Some(n), None) => n,
                (None, Some(o)) => { witness("beside"); o }
                (None, None) => &empty,
            };
            check(eq(g, want), "existing values: value of a cell");
        }
    }
}
fn row(tag: &str, least: usize, most: usize) -> Vec<String> {
    let n = least + choice(most + 1 - least, "width");
    (0..n).map(|i| if choice(2, "filled") == 1 { format!("{tag}{i}") } else { String::new() }).collect()
}
/// one row over another
pub fn c11_row() {
    warm();
    let (new, old) = (vec![row("n", 1, 3), vec!["end".to_string(), "x".to_string()]], vec![row("o", 1, 3), row("p", 1, 2)]);
    let safe = choice(2, "safe") == 1;
    merged(&new, &old, safe, &over(&(line(&new[0]) + &line(&new[1])), &(line(&old[0]) + &line(&old[1])), safe));
}
/// more or fewer rows than before
pub fn c11_rows() {
    warm();
    let new: Vec<_> = (0..choice(4, "rows")).map(|i| vec![format!("n{i}"), "=1".to_string()]).collect();
    let old: Vec<_> = (0..choice(5, "old rows")).map(|i| match choice(4, "shape") {
        0 => vec![String::new()], 1 => vec![format!("o{i}")], 2 => vec![String::new(), format!("p{i}")], _ => vec![format!("o{i}"), String::new(), format!("q{i}")],
    }).collect();
    let safe = choice(2, "safe") == 1;
    let text = |r: &[Vec<String>]| r.iter().map(|r| line(r)).collect::<String>();
    merged(&new, &old, safe, &over(&text(&new), &text(&old), safe));
}
/// existing values are kept character by character
pub fn c11_text() {
    warm();
    let n = 1 + choice(4, "length");
    let v = text(n, "value", b"a, \"\n=[#");
    let old = vec![vec![v.clone(), "o".into()], vec!["b".into(), v.clone()]];
    let new = vec![vec!["n".to_string()], vec![]];
    let _ = new;
    let safe = choice(2, "safe") == 1;
    let q = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
    let existing = format!("{},o\nb,{}\n", q(&v), q(&v));
    let got = over("n\n=2\n", &existing, safe);
    merged(&[vec!["n".into()], vec!["=2".into()]], &old, safe, &got);
}
/// blank lines are rows as well, whatever the lines end with
pub fn c11_lines() {
    warm();
    let end = pick(&["\n", "\r\n", "\r"], "line end");
    let shapes: [(&str, &[&str]); 4] = [("", &[]), ("a", &["a"]), (",b", &["", "b"]), ("\"c\nd\",e", &["c\nd", "e"])];
    let lines: Vec<_> = (0..1 + choice(5, "lines")).map(|_| shapes[choice(4, "line")]).collect();
    let existing = lines.iter().map(|l| l.0).collect::<Vec<_>>().join(end) + if choice(2, "last") == 1 { end } else { "" };
    let mut old: Vec<Vec<String>> = lines.iter().map(|l| l.1.iter().map(|s| s.to_string()).collect()).collect();
    if old.iter().any(|r| r.is_empty()) { witness("blank line"); }
    while old.last().map_or(false, |r| r.is_empty()) { old.pop(); }
    let safe = choice(2, "safe") == 1;
    note("existing", &existing);
    merged(&[vec!["n".into()], vec!["".into()], vec!["m".into(), "=1".into()]], &old, safe, &over("n\n\nm,=1\n", &existing, safe));
}
