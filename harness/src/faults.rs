//! C19: what is left on the disk when something fails.
use crate::pipe::*;
use crate::vf::*;
use std::fs;

/// what the program does with its arguments
fn run(a: &csvpp::CliArgs) -> Result<(), csvpp::Error> {
    let c = csvpp::Compiler::try_from(a)?;
    let m = c.compile()?;
    let t = c.target()?;
    if a.backup { t.write_backup()?; }
    t.write(&m)
}
fn read(f: &str) -> String { unsafe { String::from_utf8_unchecked(fs::read(f).unwrap()) } }
fn clear() { for f in files() { fs::remove_file(f).unwrap(); } }

#[derive(Clone, Copy, PartialEq)]
enum Fault { Error(usize), Short, Stop, Full }
struct Plan { fault: Fault, reads: bool, n: usize, part: usize }
/// any fault of any of the first operations on files
fn any_fault(writes: usize, reads: usize) -> Plan {
    let reading = choice(2, "reads") == 1;
    let fault = match choice(if reading { 1 } else { 4 }, "fault") { 0 => Fault::Error([28, 13, 5, 4][choice(4, "errno")]), 1 => Fault::Short, 2 => Fault::Stop, _ => Fault::Full };
    let part = if matches!(fault, Fault::Error(_)) { 0 } else { choice(4, "part") };
    Plan { fault, reads: reading, n: choice(if reading { reads } else { writes }, "operation"), part }
}
/// Runs it with that fault: whether it hit, and whether it was reported as a success.  (What is reported
/// after the machine has stopped means nothing.)
fn faulty(p: &Plan, a: &csvpp::CliArgs) -> (bool, bool) {
    let (kind, arg) = match p.fault { Fault::Error(e) => (1, e), Fault::Short => (2, p.part), Fault::Stop => (3, p.part), Fault::Full => (4, p.part) };
    fault(kind, p.reads, p.n, arg);
    let r = run(a);
    let hit = fault(0, false, 0, 0) > p.n;
    match &r { Ok(()) => note("result", "ok"), Err(_) => note("result", "error") }
    (hit, r.is_ok() && !(hit && p.fault == Fault::Stop))
}
fn flags(a: &mut csvpp::CliArgs) {
    a.safe = choice(2, "safe") == 1;
    a.backup = choice(2, "backup") == 1;
}
/// what is larger than any buffer is written, copied and read in several pieces
pub fn c19_large() {
    warm();
    let t = text(1, "text", b"abc");
    let long = "0123456789".repeat(12);
    let old = format!("o{t},{long}\n").repeat(150);
    let mut a = args("main.csvpp", "out.csv");
    flags(&mut a);
    let p = any_fault(12, 12);
    let src = format!("![[f=180]]{t},{long}\n");
    clear();
    fs::write("main.csvpp", &src).unwrap();
    fs::write("out.csv", &old).unwrap();
    let want = if a.safe { old.clone() + &format!("{t},{long}\n").repeat(30) } else { format!("{t},{long}\n").repeat(180) };
    limit(400_000_000);
    let (hit, ok) = faulty(&p, &a);
    let left = files();
    if ok {
        check(eq(&read("out.csv"), &want), "files: a success without the whole output");
        if hit { witness("survived"); } else { witness("complete"); }
        if a.backup { check(left.iter().any(|f| f != "out.csv" && f.ends_with(".csv") && eq(&read(f), &old)), "files: a success without the backup"); witness("backup"); }
    } else {
        check(hit, "files: an error without a fault");
        witness("error");
        if p.reads { check(eq(&read("out.csv"), &old), "files: an error of reading changed the output"); }
    }
    if a.backup { check(left.iter().any(|f| f.ends_with(".csv") && eq(&read(f), &old)), "files: the content from before a failure is lost in spite of --backup"); }
}
/// CSV: success means that all of it was written; with a backup nothing is lost whatever happens
pub fn c19_csv() {
    warm();
    let t = text(1, "text", b"abc");
    let old = [None, Some("o,1\n"), Some("o,1,2\np,,\nq,,x\n")][choice(3, "old")];
    let mut a = args("main.csvpp", "out.csv");
    flags(&mut a);
    assume(!(a.backup && old.is_none()));
    let p = any_fault(8, 12);
    let src = format!("v := 2\n---\n{t},=v\n,b\n");
    let start = || { clear(); fs::write("main.csvpp", &src).unwrap(); if let Some(o) = old { fs::write("out.csv", o).unwrap(); } };
    start();
    if run(&a).is_err() { fail("files: rejected without a fault"); }
    let want = read("out.csv");
    start();
    let (hit, ok) = faulty(&p, &a);
    let left = files();
    note("files", &left.len().to_string());
    let here = |f: &str| left.iter().any(|l| l == f);
    if ok {
        check(here("out.csv") && eq(&read("out.csv"), &want), "files: a success without the whole output");
        if hit { witness("survived"); } else { witness("complete"); }
        if a.backup { check(left.iter().any(|f| f != "out.csv" && f.ends_with(".csv") && eq(&read(f), old.unwrap())), "files: a success without the backup"); witness("backup"); }
    } else {
        check(hit, "files: an error without a fault");
        witness("error");
    }
    if let (Some(o), true) = (old, a.backup) {
        check(left.iter().any(|f| f.ends_with(".csv") && eq(&read(f), o)), "files: the content from before a failure is lost in spite of --backup");
    }
    // reading never destroys anything
    if let (Some(o), true) = (old, p.reads && !ok && !a.backup) { check(here("out.csv") && eq(&read("out.csv"), o), "files: an error of reading changed the output"); }
    check(eq(&read("main.csvpp"), &src), "files: the source was changed");
}
/// Excel: after any failure there is the old workbook or the whole new one
pub fn c19_excel() {
    warm();
    let t = text(1, "text", b"abc");
    let old = choice(2, "old") == 1;
    let mut a = args("main.csvpp", "out.xlsx");
    flags(&mut a);
    assume(!a.backup || old);
    let p = any_fault(9, 1);
    let text_of = |f: &str| umya_spreadsheet::reader::xlsx::read(std::path::Path::new(f)).ok().map(|b| b.get_sheet_by_name("main").map_or(String::new(), |s| s.get_value((1, 1)) + "," + &s.get_value((2, 1))));
    clear();
    if old {
        fs::write("main.csvpp", "old,o").unwrap();
        if run(&args("main.csvpp", "out.xlsx")).is_err() { fail("files: rejected without a fault"); }
    }
    fs::write("main.csvpp", &t).unwrap();
    let (hit, ok) = faulty(&p, &a);
    let left = files();
    note("files", &left.len().to_string());
    let before = "old,o".to_string();
    let after = format!("{},{}", if a.safe && old { "old" } else { &t }, if old { "o" } else { "" });
    let now = if left.iter().any(|f| f == "out.xlsx") { Some(text_of("out.xlsx")) } else { None };
    match &now {
        None => check(!old && !ok, "files: there is no workbook any more"),
        Some(None) => fail("files: a damaged workbook"),
        Some(Some(v)) => { note("content", v); check(eq(v, &after) || (!ok && old && eq(v, &before)), "files: another workbook"); }
    }
    if ok {
        if hit { witness("survived"); } else { witness("complete"); }
        if a.backup { check(left.iter().any(|f| f.starts_with("out-") && f.ends_with(".xlsx") && text_of(f).is_some_and(|v| eq(&v, &before))), "files: a success without the backup"); witness("backup"); }
    } else {
        check(hit, "files: an error without a fault");
        witness("error");
    }
}
/// Backups of one output, one after another: each keeps what was there, and none replaces another one
pub fn c19_backups() {
    warm();
    let (name, ext) = [("out", "csv"), ("out.v1", "csv"), ("a-b", "CSV"), ("x.y.z", "csv")][choice(4, "name")];
    let out = format!("{name}.{ext}");
    let t = text(1, "text", b"ab");
    let runs = 2 + choice(4, "runs");
    let (p, at) = (if choice(2, "fault at all") == 1 { Some(any_fault(8, 3)) } else { None }, choice(runs, "faulty run"));
    assume(p.is_some() || at == 0);
    clear();
    fs::write("bystander.csv", "b").unwrap();
    fs::write("out-x.csv", "x").unwrap();
    fs::write(&out, "first\n").unwrap();
    let mut a = args("main.csvpp", &out);
    a.backup = true;
    let mut kept = vec!["b".to_string(), "x".into(), "first\n".into()];
    for i in 0..runs {
        fs::write("main.csvpp", format!("{t}{i}")).unwrap();
        let ok = match &p { Some(p) if i == at => faulty(p, &a).1, _ => { let r = run(&a); if let Err(e) = &r { note("error", &e.to_string()); } check(p.is_some() || i > 3 || r.is_ok(), "files: no backup without a fault"); r.is_ok() } };
        let left = files();
        note("files", &left.len().to_string());
        let there: Vec<String> = left.iter().map(|f| read(f)).collect();
        for k in &kept { check(there.iter().any(|t| eq(t, k)), "files: a backup is lost"); }
        if ok {
            check(eq(&read(&out), &format!("{t}{i}\n")), "files: another output");
            kept.push(format!("{t}{i}\n"));
            witness("backup");
        }
    }
}
/// A compilation that fails or stops anywhere leaves nothing behind that a later one is misled by
pub fn c19_recover() {
    warm();
    let t = text(1, "text", b"123");
    let (main, lib) = (format!("use lib\nv := w + {t}\n---\n=v,=f(2)\n"), format!("w := {t}\nfn f(a) a * w\n"));
    let start = || { clear(); fs::write("main.csvpp", &main).unwrap(); fs::write("lib.csvpp", &lib).unwrap(); };
    let mut a = args("main.csvpp", "out.csv");
    start();
    if run(&a).is_err() { fail("files: rejected without a fault"); }
    let want = read("out.csv");
    a.no_cache = false;
    start();
    // with object code of an older or of this source, or none
    let before = choice(3, "before");
    if before > 0 {
        if before == 1 { fs::write("lib.csvpp", "w := 77\nfn f(a) 88\n").unwrap(); }
        if run(&a).is_err() { fail("files: rejected without a fault"); }
        tick(1100);
        if before == 1 { fs::write("lib.csvpp", &lib).unwrap(); tick(1100); }
    }
    let p = any_fault(9, 16);
    let (hit, ok) = faulty(&p, &a);
    if ok {
        check(eq(&read("out.csv"), &want), "files: a success without the whole output");
        if hit { witness("survived"); } else { witness("complete"); }
    } else { check(hit, "files: an error without a fault"); witness("error"); }
    tick(1100);
    let _ = fs::remove_file("out.csv");
    for _ in 0..2 {
        if let Err(e) = run(&a) { note("error", &e.to_string()); fail("files: later compilations fail"); }
        check(eq(&read("out.csv"), &want), "files: a later compilation is misled");
    }
}
/// A program that is rejected leaves the output as it is
pub fn c19_rejected() {
    warm();
    let t = text(3, "text", b"=1+(,\"");
    let old = pick(&["old,o\n", ""], "old");
    let mut a = args("main.csvpp", "out.csv");
    flags(&mut a);
    clear();
    fs::write("main.csvpp", format!("a,b\n={t}\n")).unwrap();
    if !old.is_empty() { fs::write("out.csv", old).unwrap(); }
    assume(!(a.backup && old.is_empty()));
    let before = files();
    if run(&a).is_err() {
        check(files() == before, "files: an error has changed the directory");
        check(old.is_empty() || eq(&read("out.csv"), old), "files: an error has changed the output");
        witness("rejected");
    } else { witness("written"); }
}
/// The extension says what is written; anything else is an error
pub fn c19_target() {
    single_threaded();
    let n = 2 + choice(4, "n");
    let ext = text(n, "extension", b"csvxlodCSVX.");
    let stem = pick(&["o", "a.b", "dir.csv/o", ".csv"], "stem");
    let name = format!("{stem}.{ext}");
    note("name", &name);
    let last = &ext[ext.rfind('.').map_or(0, |i| i + 1)..];
    let want = match last.to_ascii_lowercase().as_str() { "csv" => "Csv(", "xlsx" => "Excel(", "ods" => "OpenDocument(", _ => "" };
    fs::write("main.csvpp", "a").unwrap();
    // (a name that ends with a dot, or consists of one and an extension, has no extension)
    match csvpp::Compiler::try_from(&args("main.csvpp", &name)) {
        Ok(c) => {
            let o = format!("{:?}", c.output);
            note("output", &o);
            check(!want.is_empty() && o.starts_with(want), "files: another kind of output");
            check(eq(&c.output.to_string(), &name), "files: another output");
            witness("written");
        }
        Err(_) => { check(want.is_empty(), "files: a kind of output is rejected"); witness("rejected"); }
    }
}
