//! C20: the program from its command line to its exit status.
use crate::pipe::*;
use crate::vf::*;
use std::fs;
use std::sync::{atomic::{AtomicUsize, Ordering}, Mutex};

mod program {
    include!(concat!(env!("OUT_DIR"), "/program.rs"));
    pub fn run() -> std::process::ExitCode { std::process::Termination::report(main()) }
}
/// replays: the program, in a process of its own
pub fn main() -> std::process::ExitCode {
    if let Ok(f) = std::env::var("VF_PROGRAM_FAULT") {
        let f: Vec<usize> = f.split(' ').map(|n| n.parse().unwrap()).collect();
        fault(f[0], f[1] == 1, f[2], f[3]);
    }
    program::run()
}

static SHOWN: AtomicUsize = AtomicUsize::new(0);
/// how much the program wrote to its standard error
fn shown() -> usize { if is_engine() { vf_shown() } else { SHOWN.load(Ordering::SeqCst) } }
type Then = Box<dyn FnOnce(i32) + Send>;
static THEN: Mutex<Option<Then>> = Mutex::new(None);

/// Inside the engine every call of `std::process::exit` by another function arrives here.
#[no_mangle]
#[inline(never)]
pub fn vf_exit(code: i32) -> ! {
    fault(0, false, 0, 0);
    let then = THEN.lock().unwrap().take();
    if let Some(then) = then {
        then(code);
        std::process::exit(0)
    }
    std::process::exit(code)
}
/// run the program, and then look at what it did
fn program(args: &[String], then: impl FnOnce(i32) + Send + 'static) { faulty(args, None, then) }
fn faulty(args: &[String], f: Option<(usize, bool, usize, usize)>, then: impl FnOnce(i32) + Send + 'static) {
    note("args", &args.join(" "));
    if is_engine() {
        *THEN.lock().unwrap() = Some(Box::new(then));
        let mut argv = vec![c"csv++".as_ptr().cast::<u8>()];
        for a in args { argv.push(Vec::leak([a.as_bytes(), b"\0"].concat()).as_ptr()); }
        let n = argv.len() as i32;
        argv.push(std::ptr::null());
        vf_init_args(n, argv.leak().as_ptr(), [std::ptr::null()].as_ptr());
        if let Some((kind, reads, n, arg)) = f { fault(kind, reads, n, arg); }
        let code = program::run();
        fault(0, false, 0, 0);
        let then = THEN.lock().unwrap().take().unwrap();
        then(i32::from(format!("{code:?}") != format!("{:?}", std::process::ExitCode::SUCCESS)));
    } else {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(args).env("VF_PROGRAM", "1").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped());
        if let Some((kind, reads, n, arg)) = f { c.env("VF_PROGRAM_FAULT", format!("{kind} {} {n} {arg}", usize::from(reads))); }
        let o = c.output().unwrap();
        SHOWN.store(o.stderr.len(), Ordering::SeqCst);
        then(o.status.code().unwrap_or(-1));
    }
}


fn read(f: &str) -> String { unsafe { String::from_utf8_unchecked(fs::read(f).unwrap()) } }
fn here(f: &str) -> bool { files().iter().any(|g| g == f) }
fn words(s: &str) -> Vec<String> { s.split_whitespace().map(str::to_string).collect() }
/// the groups in any rotation, forwards or backwards; the values of -k end where the next option starts
fn ordered(mut groups: Vec<Vec<String>>) -> Vec<String> {
    let by = choice(groups.len(), "rotation");
    groups.rotate_left(by);
    if choice(2, "backwards") == 1 { groups.reverse(); }
    let keys = groups.iter().position(|g| g[0].starts_with("-k") || g[0].starts_with("--key"));
    if let Some(k) = keys { assume(groups.get(k + 1).map_or(true, |g| g[0].starts_with('-'))); }
    groups.concat()
}
const SRC: &str = "v := 1\n---\na,=x,=v,=y\n";
const OLD: &str = "old,,z\n,,,,e\n";
fn start(old: bool) {
    for f in files() { fs::remove_file(f).unwrap(); }
    fs::write("main.csvpp", SRC).unwrap();
    if old { fs::write("out.csv", OLD).unwrap(); }
}
#[derive(Clone, Copy, Default)]
struct Want { old: bool, talks: bool, safe: bool, backup: bool, cached: bool, x: Option<&'static str>, y: Option<&'static str> }
/// the specification of a run that is asked for
fn done(w: Want, code: i32) {
    note("code", &code.to_string());
    check(code == 0, "program: a documented command line ends in an error");
    check(w.talks || shown() == 0, "program: messages that nobody asked for");
    let row = format!("a,={},=1,={}", w.x.unwrap_or("x"), w.y.unwrap_or("y"));
    let want = match (w.old, w.safe) {
        (false, _) => row + "\n",
        (true, false) => row + ",\n,,,,e\n",
        (true, true) => row.replacen("a,", "old,", 1).replacen(",=1,", ",z,", 1) + ",\n,,,,e\n",
    };
    check(here("out.csv"), "program: no output");
    let got = read("out.csv");
    note("out", &got);
    check(eq(&got, &want), "program: another output");
    check(here("main.csvpo") == w.cached, "program: object code");
    let copies: Vec<String> = files().into_iter().filter(|f| f != "out.csv" && f.ends_with(".csv")).collect();
    check(copies.len() == usize::from(w.backup), "program: number of backups");
    for c in copies { check(eq(&read(&c), OLD), "program: the backup is not what was there before"); witness("backup") }
    check(eq(&read("main.csvpp"), SRC), "program: the source was changed");
    if w.safe { witness("safe") }
    witness("done");
}
/// every way to write the options that take a value, in any rotation of the groups
pub fn c20_values() {
    warm();
    let out = words(["-o out.csv", "-oout.csv", "-o=out.csv", "--output-filename out.csv", "--output-filename=out.csv"][choice(5, "output")]);
    let (keys, x, y) = [("", None, None), ("-k x=5", Some("5"), None), ("-kx=5", Some("5"), None), ("--key-values x=5", Some("5"), None), ("--key-values=x=5", Some("5"), None),
        ("-k x=5 y=B2", Some("5"), Some("B2")), ("-k x=5 -k y=B2", Some("5"), Some("B2")), ("-k", None, None)][choice(8, "keys")];
    let mut groups = vec![words("main.csvpp"), out];
    if !keys.is_empty() { groups.push(words(keys)); }
    start(true);
    let w = Want { old: true, cached: true, x, y, ..Default::default() };
    program(&ordered(groups), move |code| done(w, code));
}
/// every way to write the flags
pub fn c20_flags() {
    warm();
    let flag = |short: &str, long: &str, name: &str| match choice(3, name) { 0 => None, 1 => Some(short.to_string()), _ => Some(long.to_string()) };
    let (backup, safe, fresh) = (flag("-b", "--backup", "backup"), flag("-s", "--safe", "safe"), flag("", "--no-cache", "cache"));
    assume(fresh.as_deref() != Some(""));
    let verbose = ["", "-v", "-vv", "--verbose"][choice(4, "verbose")];
    let old = choice(2, "old") == 1;
    assume(old || backup.is_none());
    let w = Want { old, talks: !verbose.is_empty(), safe: safe.is_some(), backup: backup.is_some(), cached: fresh.is_none(), ..Default::default() };
    let mut groups = vec![words("main.csvpp"), words("-o out.csv")];
    if backup.as_deref() == Some("-b") && safe.as_deref() == Some("-s") && choice(2, "together") == 1 { groups.push(words(&format!("-bs{}", verbose.trim_start_matches('-').trim_end_matches("erbose").trim_start_matches('-')))); }
    else { for f in [backup, safe].into_iter().flatten() { groups.push(vec![f]); } if !verbose.is_empty() { groups.push(words(verbose)); } }
    if let Some(f) = fresh { groups.push(vec![f]); }
    start(old);
    program(&ordered(groups), move |code| done(w, code));
}
/// a definition from the command line means what it means in the code section
pub fn c20_keys() {
    let n = 1 + choice(3, "length");
    let v = text(n, "value", b"1B+-(,.\"= ");
    // `x==1` could be understood as well
    assume(!v.starts_with('='));
    let src = |v: &str| format!("x := {v}\n---\n=x\n");
    start(false);
    fs::write("main.csvpp", "=x\n").unwrap();
    program(&["main.csvpp".to_string(), "-o".to_string(), "out.csv".to_string(), format!("--key-values=x={v}")], move |code| { let (silent, got) = (shown() == 0, if here("out.csv") { read("out.csv") } else { String::new() }); match to_csv(&src(&v)).ok() {
        Some(w) if code == 0 => { note("want", &w); check(eq(&got, &w), "program: a key means something else"); witness("same") }
        // the value is one expression, and all of it
        Some(_) => { note("code", &code.to_string()); fail("program: a key is rejected") }
        None => { check(code != 0, "program: a malformed key is accepted"); check(!silent, "program: an error is not shown"); check(got.is_empty(), "program: there is an output after an error"); witness("rejected") }
    }});
}
/// what cannot be done ends with a status that says so, and leaves the output alone
pub fn c20_fails() {
    const BAD: [(&str, &str); 27] = [
        ("-o out.csv", ""), ("other.csvpp -o out.csv", ""), ("main.csvpp", ""), ("", ""), ("main.csvpp -o out.txt", ""), ("main.csvpp -o out", ""),
        ("main.csvpp -o out.csv -g abc", ""), ("main.csvpp -o out.csv -o other.csv", ""), ("main.csvpp -o out.csv --unknown", ""), ("main.csvpp -o out.csv -q", ""),
        ("main.csvpp main.csvpp -o out.csv", ""), ("main.csvpp -o out.csv -k x", ""), ("main.csvpp -o out.csv -k x=(", ""), ("main.csvpp -o out.csv -vvvvv", ""),
        ("main.csvpp -o", ""), ("main.csvpp -o out.csv -x a", ""), ("main.csvpp -o out.csv -y=-1", ""), ("main.csvpp -o out.csv --safe=1", ""), ("main.csvpp -o out.csv -g", ""),
        ("main.csvpp -g a/b", ""),
        ("main.csvpp -o out.csv", "a := \n---\nb\n"), ("main.csvpp -o out.csv", "---\n=(1\n"), ("main.csvpp -o out.csv", "[[x]]b\n"), ("main.csvpp -o out.csv", "use other\n---\nb\n"),
        ("main.csvpp -o out.csv", "fn f(a) a\n---\n\"=f(1, 2)\"\n"), ("main.csvpp -o out.csv", "![[f]]a\n![[f]]b\n"), ("main.csvpp -o out.csv", "a,\"b\n"),
    ];
    let (args, src) = BAD[choice(BAD.len(), "what")];
    let flags = ["", "--no-cache", "-b", "--safe", "-bs"][choice(5, "flags")];
    start(true);
    if !src.is_empty() { fs::write("main.csvpp", src).unwrap(); }
    program(&words(&format!("{flags} {args}")), move |code| {
        note("code", &code.to_string());
        check(code != 0, "program: an error ends with success");
        check(shown() > 0, "program: an error is not shown");
        check(here("out.csv") && eq(&read("out.csv"), OLD), "program: an error changed the output");
        check(files().iter().all(|f| ["out.csv", "main.csvpp", "main.csvpo"].contains(&f.as_str()) || (flags.starts_with("-b") && eq(&read(f), OLD))), "program: an error left other files");
        witness("error");
    });
}
/// with --backup nothing is lost, whatever happens to the files
pub fn c20_faults() {
    warm();
    let reads = choice(2, "reads") == 1;
    let kind = 1 + choice(if reads { 1 } else { 4 }, "fault");
    let arg = if kind == 1 { [28, 13, 5, 4][choice(4, "errno")] } else { choice(4, "part") };
    let n = choice(if reads { 24 } else { 12 }, "operation");
    let safe = choice(2, "safe") == 1;
    let mut args = words("main.csvpp -o out.csv -b");
    if safe { args.push("-s".into()); }
    start(true);
    faulty(&args, Some((kind, reads, n, arg)), move |code| {
        note("code", &code.to_string());
        if code == 0 && kind != 3 { done(Want { old: true, safe, backup: true, cached: here("main.csvpo"), ..Default::default() }, code); }
        else { check(kind == 3 || shown() > 0, "program: an error is not shown"); witness("error"); }
        check(files().iter().any(|f| f.ends_with(".csv") && eq(&read(f), OLD)), "program: the content from before a failure is lost in spite of --backup");
    });
}
/// files are where the command line says, and next to them
pub fn c20_places() {
    warm();
    const DIRS: [(&str, &str); 7] = [("", ""), ("./", ""), ("d/", "d/"), ("./d/", "d/"), ("d/e.f/", "d/e.f/"), ("d/../", ""), ("d//", "d/")];
    let (dir, at) = DIRS[choice(DIRS.len(), "input")];
    let (out, to) = DIRS[choice(DIRS.len(), "output")];
    let name = ["main.csvpp", "a b.csvpp", "main.x.csvpp", "_x.csvpp"][choice(4, "name")];
    let result = ["out.csv", "a b.csv", "out.x.csv", "main.csv"][choice(4, "result")];
    let backup = choice(2, "backup") == 1;
    fs::create_dir("d").unwrap();
    fs::create_dir("d/e.f").unwrap();
    // a module in each of the places, of which only the one next to the program counts
    for d in ["", "d/", "d/e.f/"] { fs::write(format!("{d}a.csvpp"), if d == at { "v := 1\n---\n" } else { "v := 2\n---\n" }).unwrap(); }
    fs::write(format!("{at}{name}"), "use a\n---\na,=v\n").unwrap();
    fs::write(format!("{to}{result}"), "old,,z\n").unwrap();
    let mut before: Vec<String> = files();
    let mut args = vec![format!("{dir}{name}"), "-o".to_string(), format!("{out}{result}")];
    if backup { args.push("-b".to_string()); }
    program(&args, move |code| {
        note("code", &code.to_string());
        check(code == 0, "program: a documented command line ends in an error");
        check(eq(&read(&format!("{to}{result}")), "a,=1,z\n"), "program: another output");
        // object code is next to the sources, and a backup next to the output
        for f in [format!("{at}{}o", name), format!("{at}a.csvppo")] { before.push(f.replace(".csvppo", ".csvpo")); }
        let new: Vec<String> = files().into_iter().filter(|f| !before.contains(f)).collect();
        note("new", &new.len().to_string());
        check(new.len() == usize::from(backup), "program: files that nobody asked for");
        let stem = result.strip_suffix(".csv").unwrap();
        for f in new {
            check(eq(&read(&f), "old,,z\n"), "program: the backup is not what was there before");
            check(f.starts_with(&format!("{to}{stem}-")) && f.ends_with(".csv") && !f[to.len()..].contains('/'), "program: the backup is somewhere else");
            witness("backup");
        }
        check(before.iter().all(|f| here(f)), "program: a file is missing");
        witness("done");
    });
}
/// asking for help is not an error and changes nothing
pub fn c20_help() {
    let ask = ["--help", "-h", "--version", "-V"][choice(4, "ask")];
    let rest = ["", "main.csvpp", "main.csvpp -o out.csv", "-o out.csv", "main.csvpp -o out.csv -bs", "main.csvpp -o out.csv -k x=1"][choice(6, "rest")];
    let args = if choice(2, "last") == 1 { format!("{rest} {ask}") } else { format!("{ask} {rest}") };
    start(true);
    program(&words(&args), move |code| {
        check(code == 0, "program: help ends in an error");
        check(eq(&files().join(" "), "main.csvpp out.csv") && eq(&read("out.csv"), OLD) && eq(&read("main.csvpp"), SRC), "program: help changes files");
        witness("help");
    });
}
