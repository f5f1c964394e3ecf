//! Interface between the harnesses and the symbolic engine.
//!
//! The `vf_*` functions are intercepted by the engine.  The bodies below are only executed natively,
//! when a model found by the solver is replayed against the real code: they read the model file.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::hint::black_box;
use std::io::Write;

enum Item { Bytes(String, Vec<u8>), Choice(String, usize) }
thread_local! { static MODEL: RefCell<VecDeque<Item>> = const { RefCell::new(VecDeque::new()) }; }

pub fn load_model(path: &str) {
    let text = std::fs::read_to_string(path).expect("model file");
    let mut q = VecDeque::new();
    for l in text.lines() {
        let mut p = l.split('\t');
        match (p.next(), p.next(), p.next()) {
            (Some("B"), Some(n), h) => {
                let h = h.unwrap_or("").as_bytes();
                let v = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
                q.push_back(Item::Bytes(n.to_string(), v));
            }
            (Some("C"), Some(n), Some(v)) => q.push_back(Item::Choice(n.to_string(), v.parse().unwrap())),
            _ => {}
        }
    }
    MODEL.with(|m| *m.borrow_mut() = q);
}
fn name(p: *const u8, n: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() } }
fn out(s: &str) {
    if let Ok(p) = std::env::var("VF_TRACE") {
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
        f.write_all(s.as_bytes()).unwrap();
    }
}
fn bail(why: &str) -> ! { out(&format!("MISMATCH\t{why}\n")); std::process::exit(78) }

#[no_mangle] #[inline(never)]
pub extern "C" fn vf_bytes(p: *mut u8, n: usize, np: *const u8, nn: usize) {
    black_box((p, n, np, nn));
    MODEL.with(|m| match m.borrow_mut().pop_front() {
        Some(Item::Bytes(k, v)) if k == name(np, nn) && v.len() == n => unsafe { std::ptr::copy(v.as_ptr(), p, n) },
        _ => bail(&format!("bytes {}", name(np, nn))),
    })
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_choice(n: usize, np: *const u8, nn: usize) -> usize {
    black_box((n, np, nn));
    MODEL.with(|m| match m.borrow_mut().pop_front() {
        Some(Item::Choice(k, v)) if k == name(np, nn) && v < n => v,
        _ => bail(&format!("choice {}", name(np, nn))),
    })
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_assume(c: u8) { if black_box(c) == 0 { out("ASSUME\n"); std::process::exit(77) } }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_assert(c: u8, np: *const u8, nn: usize) {
    black_box((np, nn));
    if black_box(c) == 0 { out(&format!("ASSERT\t{}\n", name(np, nn))); std::process::exit(42) }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_witness(np: *const u8, nn: usize) { black_box((np, nn)); }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_tag(np: *const u8, nn: usize) { black_box((np, nn)); }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_note(np: *const u8, nn: usize, p: *const u8, n: usize) {
    black_box((np, nn, p, n));
    let v = unsafe { std::slice::from_raw_parts(p, n.min(300)) };
    out(&format!("NOTE\t{}\t{}\n", name(np, nn), v.iter().map(|b| format!("{b:02x}")).collect::<String>()));
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_eq(a: *const u8, an: usize, b: *const u8, bn: usize) -> u8 {
    unsafe { u8::from(std::slice::from_raw_parts(a, an) == std::slice::from_raw_parts(b, bn)) }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_conc(x: usize) -> usize { black_box(x) }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_is_engine() -> u8 { black_box(0) }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_hash_mode(m: usize, seed: usize) { black_box((m, seed)); }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_sched(on: usize) { black_box(on); }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_real_books(on: usize) { black_box(on); }
extern "C" { fn dlsym(h: *mut u8, name: *const u8) -> *mut u8; }
/// natively this is done by lib/shim/fault.c
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_fault(kind: usize, reads: usize, n: usize, arg: usize) -> usize {
    black_box((kind, reads, n, arg));
    let f = unsafe { dlsym(std::ptr::null_mut(), c"vf_shim_fault".as_ptr().cast()) };
    if f.is_null() { bail("no fault shim") }
    let f: extern "C" fn(usize, usize, usize, usize) -> usize = unsafe { std::mem::transmute(f) };
    f(kind, reads, n, arg)
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_files(p: *mut u8, cap: usize) -> usize {
    fn walk(d: &str, v: &mut Vec<String>) {
        for e in std::fs::read_dir(if d.is_empty() { "." } else { d }).unwrap().map(|e| e.unwrap()) {
            let f = format!("{d}{}", e.file_name().into_string().unwrap());
            if e.file_type().unwrap().is_dir() { walk(&(f + "/"), v) } else { v.push(f + "\n") }
        }
    }
    let mut v = vec![];
    walk("", &mut v);
    v.sort();
    let s = v.concat();
    assert!(s.len() <= cap);
    unsafe { std::ptr::copy(s.as_ptr(), p, s.len()) };
    s.len()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_limit(n: usize) { black_box(n); }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_tick(n: usize) { std::thread::sleep(std::time::Duration::from_millis(n as u64)); }

// ---- safe wrappers -------------------------------------------------------------------------
pub fn bytes(n: usize, nm: &str) -> Vec<u8> { let mut v = vec![0u8; n]; vf_bytes(v.as_mut_ptr(), n, nm.as_ptr(), nm.len()); v }
pub fn choice(n: usize, nm: &str) -> usize { vf_choice(n, nm.as_ptr(), nm.len()) }
pub fn assume(c: bool) { vf_assume(u8::from(c)) }
pub fn check(c: bool, nm: &str) { vf_assert(u8::from(c), nm.as_ptr(), nm.len()) }
pub fn witness(nm: &str) { vf_witness(nm.as_ptr(), nm.len()) }
pub fn note(nm: &str, v: &str) { vf_note(nm.as_ptr(), nm.len(), v.as_ptr(), v.len()) }
/// equality as one solver term, without forking on the contents
pub fn eq(a: &str, b: &str) -> bool { a.len() == b.len() && vf_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len()) != 0 }
pub fn conc(x: usize) -> usize { vf_conc(x) }
pub fn is_engine() -> bool { vf_is_engine() != 0 }
/// Inside the engine: how many bytes were written to stderr
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_shown() -> usize { black_box(0) }
pub fn limit(n: usize) { vf_limit(n) }
pub fn hash_mode(m: usize, seed: usize) { vf_hash_mode(m, seed) }
/// whether other schedules than the first are explored from here on
pub fn real_books(on: bool) { vf_real_books(usize::from(on)) }
pub fn schedules(on: bool) { vf_sched(usize::from(on)) }
pub fn tick(n: usize) { vf_tick(n) }
/// faults of the file operations from here on; returns the number of operations since the last call
pub fn fault(kind: usize, reads: bool, n: usize, arg: usize) -> usize { vf_fault(kind, usize::from(reads), n, arg) }
/// names of the files in the current directory, in order
pub fn files() -> Vec<String> { let mut b = vec![0u8; 2000]; let n = vf_files(b.as_mut_ptr(), 2000); b.truncate(n); String::from_utf8(b).unwrap().lines().map(String::from).collect() }
/// fail with this message
pub fn fail(nm: &str) -> ! { check(false, nm); std::process::exit(42) }

/// `n` symbolic characters, each any member of `alphabet` (ASCII)
pub fn text(n: usize, nm: &str, alphabet: &[u8]) -> String {
    let v = bytes(n, nm);
    for b in &v {
        let mut ok = false;
        for a in alphabet { ok |= b == a; }
        assume(ok);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// `n` symbolic characters from `lo..=hi` except those in `but`
pub fn range_text(n: usize, nm: &str, lo: u8, hi: u8, but: &[u8]) -> String {
    let v = bytes(n, nm);
    for b in &v {
        let mut ok = (*b >= lo) & (*b <= hi);
        for a in but { ok &= b != a; }
        assume(ok);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn pick<'a, T: ?Sized>(opts: &[&'a T], nm: &str) -> &'a T { opts[choice(opts.len(), nm)] }
/// every occurrence of `marker` (a control character) in `s` becomes `to`; forks on the positions
pub fn expand(s: &str, marker: u8, to: &str) -> String {
    let mut o = Vec::new();
    for b in s.as_bytes() { if *b == marker { o.extend_from_slice(to.as_bytes()) } else { o.push(*b) } }
    unsafe { String::from_utf8_unchecked(o) }
}

/// Inside the engine: the start of the program, where the standard library gets the arguments from
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_init_args(n: i32, a: *const *const u8, e: *const *const u8) { black_box((n, a, e)); }
