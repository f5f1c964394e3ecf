//! Driving the real compiler through its public API.
use csvpp::{CliArgs, Compiler, Error, Module};
use std::fs;

pub fn single_threaded() {
    rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global().ok();
}
/// compile a program that exercises every lexer, so that the lazily built regexes exist before any
/// input is symbolic (only inside the engine: it makes every path cheaper)
pub fn warm() {
    single_threaded();
    if crate::vf::is_engine() {
        let _ = to_csv("a := 5\nfn f(x, y) x + y * 2.0 & \"s\"\n---\n=a + f(1, B2),b\n![[f=2 / t=b]][[n='x']]c,d");
        let _ = fs::remove_file("out.csv");
    }
}
pub fn args(main: &str, out: &str) -> CliArgs {
    CliArgs { input_filename: main.into(), output_filename: Some(out.into()), no_cache: true, ..Default::default() }
}
pub fn compile(a: &CliArgs) -> Result<Module, Error> { Compiler::try_from(a)?.compile() }
pub fn build(a: &CliArgs) -> Result<Module, Error> {
    let c = Compiler::try_from(a)?;
    let m = c.compile()?;
    c.target()?.write(&m)?;
    Ok(m)
}
/// source text -> contents of the CSV file it compiles to
pub fn to_csv(src: &str) -> Result<String, Error> { 
    fs::write("main.csvpp", src).unwrap();
    build(&args("main.csvpp", "out.csv"))?;
    let o = fs::read_to_string("out.csv").unwrap();
    fs::remove_file("out.csv").unwrap();
    Ok(o)
}
/// source text -> compiled module
pub fn module(src: &str) -> Result<Module, Error> {
    fs::write("main.csvpp", src).unwrap();
    compile(&args("main.csvpp", "out.csv"))
}

/// Inside the engine every call of `Regex::new` by another crate arrives here: compiling a pattern is
/// a pure function of its text, so the ones compiled before are cloned instead of compiled again.
#[no_mangle]
#[inline(never)]
pub fn vf_regex_new(re: &str) -> Result<regex::Regex, regex::Error> {
    static KNOWN: std::sync::Mutex<Vec<(String, regex::Regex)>> = std::sync::Mutex::new(Vec::new());
    if let Some((_, r)) = KNOWN.lock().unwrap().iter().find(|(p, _)| p == re) { return Ok(r.clone()); }
    let r = regex::Regex::new(re)?;
    KNOWN.lock().unwrap().push((re.to_string(), r.clone()));
    Ok(r)
}
/// an RFC 4180 reader for what the compiler writes
pub fn cells(s: &str) -> Option<Vec<Vec<String>>> {
    let (mut rows, mut row, mut f) = (vec![], vec![], Vec::new());
    let b = s.as_bytes();
    let mut i = 0;
    let st = |v: &mut Vec<u8>| unsafe { String::from_utf8_unchecked(std::mem::take(v)) };
    while i < b.len() {
        if b[i] == b'"' && f.is_empty() {
            i += 1;
            loop {
                if i >= b.len() { return None; }
                if b[i] == b'"' { i += 1; if i < b.len() && b[i] == b'"' { f.push(b'"'); i += 1; continue; } break; }
                f.push(b[i]);
                i += 1;
            }
            if i < b.len() && b[i] != b',' && b[i] != b'\n' { return None; }
        } else if b[i] == b',' { row.push(st(&mut f)); i += 1; if i == b.len() { return None; } }
        else if b[i] == b'\n' { row.push(st(&mut f)); rows.push(std::mem::take(&mut row)); i += 1; }
        else { f.push(b[i]); i += 1; }
    }
    if row.is_empty() && f.is_empty() { Some(rows) } else { None }
}
