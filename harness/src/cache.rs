//! C13: the cache of compiled files never changes the result.
use crate::pipe::*;
use crate::vf::*;
use std::fs;
use std::time::{Duration, SystemTime};

/// output or the fact that there is an error
fn outcome(main: &str, cache: bool, kv: &[String]) -> Option<String> {
    let out = "o.csv";
    let mut a = args(main, out);
    a.no_cache = !cache;
    a.key_values = kv.to_vec();
    limit(100_000_000);
    let r = build(&a);
    limit(1 << 40);
    let o = fs::read_to_string(out).ok();
    fs::remove_file(out).ok();
    match r { Ok(_) => o, Err(e) => { note("error", &e.to_string()); None } }
}
/// compiling the same sources where nothing was ever compiled before
fn fresh(files: &[(&str, Option<String>)], main: &str, kv: &[String]) -> Option<String> {
    fs::create_dir("ref").ok();
    for (n, s) in files { if let Some(s) = s { fs::write(format!("ref/{n}.csvpp"), s).unwrap(); } }
    let o = outcome(&format!("ref/{main}.csvpp"), false, kv);
    for (n, _) in files {
        fs::remove_file(format!("ref/{n}.csvpp")).ok();
        check(fs::remove_file(format!("ref/{n}.csvpo")).is_err(), "cache: object code is written in spite of --no-cache");
    }
    o
}
fn same(got: &Option<String>, want: &Option<String>, what: &str) {
    note("got", got.as_deref().unwrap_or("(error)"));
    note("want", want.as_deref().unwrap_or("(error)"));
    match (got, want) { (Some(g), Some(w)) => check(eq(g, w), what), (None, None) => {} _ => fail(what) }
}
const STALE: &str = "cache: the result differs from that of a fresh compilation";

#[derive(Clone, Default)]
struct World { main: usize, uses_b: bool, a: usize, a_uses_b: bool, b: usize, b_gone: bool }
impl World {
    fn files(&self) -> Vec<(&'static str, Option<String>)> {
        let main = format!("use a\n{}w := 1\n---\n=va,=fa(1),m{}\n=vb,=k,\"=fa(w)\"\n", if self.uses_b { "use b\n" } else { "" }, self.main);
        let a = format!("{}va := {}+vb\nfn fa(x) x&{}&vb\n---\n=va,cell\n", if self.a_uses_b { "use b\n" } else { "" }, self.a, self.a);
        let b = if self.b_gone { None } else { Some(format!("vb := {}\n---\n", self.b)) };
        vec![("main", Some(main)), ("a", Some(a)), ("b", b)]
    }
    fn write(&self, old: &World) {
        let was = old.files();
        for (i, (n, s)) in self.files().into_iter().enumerate() {
            if was[i].1 == s { continue; }
            match s { Some(s) => fs::write(format!("{n}.csvpp"), s).unwrap(), None => { fs::remove_file(format!("{n}.csvpp")).ok(); } }
        }
    }
}
fn history(steps: usize) {
    warm();
    let mut w = World { a_uses_b: choice(2, "a imports b") == 1, ..World::default() };
    for (n, s) in w.files() { fs::write(format!("{n}.csvpp"), s.unwrap()).unwrap(); }
    let kvs = [vec![], vec!["k=1".to_string()], vec!["k=2".to_string()]];
    for step in 0..=steps {
        tick(10);
        let old = w.clone();
        let mut other = false;
        let (mut cache, mut kv) = (true, &kvs[0]);
        match if step == 0 { 8 + choice(4, "first") } else { choice(12, "what") } {
            0 => w.main += 1,
            1 => w.uses_b = !w.uses_b,
            2 => w.a += 1,
            3 => w.a_uses_b = !w.a_uses_b,
            4 => w.b += 1,
            5 => w.b_gone = !w.b_gone,
            6 => { w.b += 1; w.a += 1; }
            7 => { w.b += 1; w.main += 1; other = true }
            8 => {}
            9 => kv = &kvs[1],
            10 => other = true,
            _ => cache = false,
        }
        if step > 0 && kv.len() == 1 && choice(2, "value") == 1 { kv = &kvs[2]; }
        w.write(&old);
        tick(10);
        if other {
            // another file of the project is compiled, too
            let (g, f) = (outcome("a.csvpp", true, kv), fresh(&w.files(), "a", kv));
            same(&g, &f, STALE);
        }
        let (g, f) = (outcome("main.csvpp", cache, kv), fresh(&w.files(), "main", kv));
        same(&g, &f, STALE);
        if g.is_some() { witness("compiled") } else { witness("rejected") }
    }
}
pub fn c13_history() { history(1) }
pub fn c13_history2() { history(2) }
pub fn c13_history3() { history(3) }

fn at(name: &str, secs: u64) { fs::File::options().write(true).open(name).unwrap().set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(secs)).unwrap(); }
/// a source that is newer than its object code, by however little, is compiled again
pub fn c13_mtime() {
    warm();
    let dep = choice(2, "which") == 1;
    let text = |n: usize| if dep { format!("va := {n}\n---\n") } else { format!("use a\n---\n={n},=va\n") };
    fs::write("a.csvpp", if dep { text(1) } else { "va := 7\n---\n".into() }).unwrap();
    fs::write("main.csvpp", if dep { "use a\n---\n=va\n".into() } else { text(1) }).unwrap();
    let name = if dep { "a" } else { "main" };
    check(outcome("main.csvpp", true, &[]).is_some(), STALE);
    fs::write(format!("{name}.csvpp"), text(2)).unwrap();
    let b = bytes(2, "times");
    let (source, object) = (1_000_000_000 + u64::from(b[0]), 1_000_000_000 + u64::from(b[1]));
    at(&format!("{name}.csvpp"), source);
    if fs::metadata(format!("{name}.csvpo")).is_ok() { at(&format!("{name}.csvpo"), object); }
    for other in ["main", "a"] { if other != name {
        at(&format!("{other}.csvpp"), 900_000_000);
        if fs::metadata(format!("{other}.csvpo")).is_ok() { at(&format!("{other}.csvpo"), 1_000_000_000 + [0, 300][choice(2, "other object")]); }
    } }
    let newer = source > object;
    let got = outcome("main.csvpp", true, &[]);
    let Some(g) = &got else { fail(STALE) };
    note("got", g);
    if newer { check(g.contains('2'), STALE); witness("newer") } else { check(g.contains('2') || g.contains('1'), STALE); witness("older") }
}
/// a program whose files are all cached
fn cached() -> World {
    let w = World { a_uses_b: true, uses_b: true, ..World::default() };
    for (n, s) in w.files() { fs::write(format!("{n}.csvpp"), s.unwrap()).unwrap(); }
    tick(10);
    check(outcome("main.csvpp", true, &[]).is_some(), STALE);
    tick(10);
    w
}
/// object code that was not written completely, or something else entirely
pub fn c13_torn() {
    warm();
    let w = cached();
    let name = ["main", "a", "b"][choice(3, "file")];
    let Ok(o) = fs::read(format!("{name}.csvpo")) else { return };
    let at = choice(o.len(), "cut");
    let how = choice(2, "how");
    fs::write(format!("{name}.csvpo"), if how == 0 { o[..at].to_vec() } else { bytes(at.min(3), "garbage") }).unwrap();
    let (g, f) = (outcome("main.csvpp", true, &[]), fresh(&w.files(), "main", &[]));
    same(&g, &f, "cache: damaged object code is used");
    witness("compiled");
}
/// object code of an older version of the compiler is not used, nor any with --no-cache
pub fn c13_version() {
    warm();
    let w = cached();
    let which = choice(3, "file");
    let name = ["main", "a", "b"][which];
    // the object code as an older version might have written it: with another meaning
    let Ok(mut o) = fs::read(format!("{name}.csvpo")) else { return };
    let Ok(m) = compile(&args("main.csvpp", "o.csv")) else { fail(STALE) };
    let v = m.compiler_version.as_bytes();
    let no_cache = choice(2, "no cache") == 1;
    if !no_cache {
        // its first occurrence as a string
        let Some(at) = (8..o.len() - v.len()).find(|i| &o[*i..i + v.len()] == v && o[i - 8] == v.len() as u8) else { return };
        // one of its numbers is smaller
        let i = choice(v.len(), "digit");
        assume(v[i].is_ascii_digit() && v[i] > b'0');
        o[at + i] = b'0' + choice(usize::from(v[i] - b'0'), "older digit") as u8;
    }
    let (from, to): (&[u8], &[u8]) = [(&b"m0"[..], &b"!!"[..]), (b"vb", b"zz"), (b"vb", b"zz")][which];
    let mut changed = false;
    for i in 0..o.len() - 1 { if &o[i..i + 2] == from { o[i] = to[0]; o[i + 1] = to[1]; changed = true; } }
    assume(changed);
    fs::write(format!("{name}.csvpo"), o).unwrap();
    let (g, f) = (outcome("main.csvpp", !no_cache, &[]), fresh(&w.files(), "main", &[]));
    same(&g, &f, if no_cache { "cache: used in spite of --no-cache" } else { "cache: object code of an older version is used" });
    witness(if no_cache { "no cache" } else { "older" });
}
/// the same file by another path, another file of the same stem, the project in another place
pub fn c13_place() {
    warm();
    let w = World { a_uses_b: choice(2, "a imports b") == 1, ..World::default() };
    fs::create_dir("p").ok();
    for (n, s) in w.files() { fs::write(format!("p/{n}.csvpp"), s.unwrap()).unwrap(); }
    fs::write("p/main.txt", "other,file\n").unwrap();
    tick(10);
    let mut order = vec![];
    for step in 0..2 {
        let k = choice(4, "compile");
        order.push(k);
        let f = ["p/main.csvpp", "p/../p/main.csvpp", "p/main.txt", "main.csvpp"][k];
        if k == 3 && step == 0 { return; }
        if k == 3 {
            // moved elsewhere
            for n in ["main", "a", "b"] { for e in ["csvpp", "csvpo"] { fs::rename(format!("p/{n}.{e}"), format!("{n}.{e}")).ok(); } }
        }
        tick(10);
        let g = outcome(f, true, &[]);
        let want = if k == 2 { Some("other,file\n".to_string()) } else { fresh(&w.files(), "main", &[]) };
        same(&g, &want, STALE);
    }
    witness("compiled");
}
