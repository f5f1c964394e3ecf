//! C12: importing other files.
use crate::pipe::*;
use crate::refexpr::*;
use crate::vf::*;

#[derive(Clone, Default)]
pub struct M { pub name: String, pub uses: Vec<usize>, pub vars: Vec<(String, String)>, pub fns: Vec<(String, Vec<String>, String)> }
impl M {
    pub fn source(&self, all: &[M]) -> String {
        let mut s = String::new();
        for u in &self.uses { s += &format!("use {}\n", all[*u].name); }
        for (n, p, b) in &self.fns { s += &format!("fn {n}({})\n  {b}\n", p.join(", ")); }
        for (n, b) in &self.vars { s += &format!("{n} := {b}\n"); }
        s + "---\n"
    }
}
fn free(e: &E, but: &[String], f: &mut dyn FnMut(&str)) {
    match e {
        E::Ref(n) => if !but.contains(n) { f(n) },
        E::Call(n, a) => { f(n); a.iter().for_each(|x| free(x, but, f)) }
        E::Bin(_, l, r) => { free(l, but, f); free(r, but, f) }
        E::Neg(x) | E::Pct(x) => free(x, but, f),
        _ => {}
    }
}
/// What the names in module `i` stand for: its own definitions, then those its imports define
/// themselves, each meaning what it means over there.  None: an import cycle, or a name that another
/// module defines is not visible where it is used.
pub fn program(all: &[M], i: usize, fuel: usize) -> Option<Program> {
    if fuel == 0 { return None; }
    let m = &all[i];
    let mut p = Program::default();
    for (n, b) in &m.vars { p.var(n, b); }
    for (n, ps, b) in &m.fns { p.fun(n, &ps.iter().map(String::as_str).collect::<Vec<_>>(), b); }
    for u in &m.uses {
        let q = program(all, *u, fuel - 1)?;
        for (n, _) in &all[*u].vars {
            let (_, b) = q.vars.iter().find(|v| &v.0 == n).unwrap();
            let b = q.expand(b, &[], 20).ok()?;
            if hidden(all, &b, &[]) { return None; }
            if !p.vars.iter().any(|v| &v.0 == n) { p.vars.push((n.clone(), b)); }
        }
        for (n, ps, _) in &all[*u].fns {
            let (_, _, b) = q.fns.iter().find(|v| &v.0 == n).unwrap();
            let own: Vec<_> = ps.iter().map(|x| (x.clone(), Ok(E::Ref(x.clone())))).collect();
            let b = q.expand(b, &own, 20).ok()?;
            if hidden(all, &b, ps) { return None; }
            if !p.fns.iter().any(|v| &v.0 == n) { p.fns.push((n.clone(), ps.clone(), b)); }
        }
    }
    Some(p)
}
fn hidden(all: &[M], e: &E, but: &[String]) -> bool {
    let mut h = false;
    free(e, but, &mut |n| h |= all.iter().any(|m| m.vars.iter().any(|v| v.0 == n) || m.fns.iter().any(|f| f.0 == n)));
    h
}
pub fn put(all: &[M], extra: &str) {
    for (i, m) in all.iter().enumerate() {
        let s = m.source(all) + if i == 0 { "" } else { extra };
        note(&m.name, &s);
        std::fs::write(format!("{}.csvpp", m.name), s).unwrap();
    }
}
/// compile main, whose cells are `cells`
pub fn run(all: &[M], formulas: &[&str]) -> Result<Vec<Vec<String>>, csvpp::Error> {
    let mut s = all[0].source(all);
    for f in formulas { s += &format!("\"={f}\"\n"); }
    note("main", &s);
    std::fs::write("main.csvpp", s).unwrap();
    limit(100_000_000);
    build(&args("main.csvpp", "out.csv"))?;
    let o = std::fs::read_to_string("out.csv").unwrap();
    std::fs::remove_file("out.csv").unwrap();
    let Some(r) = cells(&o) else { fail("the output is not CSV") };
    Ok(r)
}
pub fn same_as(got: &str, want: &E) {
    note("cell", got);
    note("want", &show(want, false));
    let Some(e) = (if got.starts_with('=') { parse(&got[1..], false) } else { None }) else { fail("imports: the formula is malformed") };
    check(same(&norm(e.e), &norm(want.clone())), "imports: what an imported name stands for");
}
fn m(name: &str) -> M { M { name: name.into(), ..M::default() } }
fn v(n: &str, b: &str) -> (String, String) { (n.into(), b.into()) }
fn f(n: &str, p: &[&str], b: &str) -> (String, Vec<String>, String) { (n.into(), p.iter().map(|s| s.to_string()).collect(), b.into()) }

/// every import graph without cycles over main and three modules
pub fn c12_graph() {
    warm();
    let e = choice(64, "imports");
    let on = |k: usize| e >> k & 1 == 1;
    let (mut main, mut a, mut b, mut c) = (m("main"), m("a"), m("b"), m("c"));
    for (k, t) in [(0, 1), (1, 2), (2, 3)] { if on(k) { main.uses.push(t); } }
    if on(3) { a.uses.push(2); }
    if on(4) { a.uses.push(3); }
    if on(5) { b.uses.push(3); }
    if main.uses.len() > 1 && choice(2, "order") == 1 { main.uses.reverse(); a.uses.reverse(); }
    a.vars.push(v("va", pick(&["vb+1", "vc", "fb(7)"], "va")));
    a.fns.push(f("fa", &["p"], pick(&["p+vb", "fb(p)", "p*va"], "fa")));
    b.vars.push(v("vb", pick(&["vc*2", "8"], "vb")));
    b.fns.push(f("fb", &["vc"], pick(&["vc+1", "vc&vb"], "fb")));
    c.vars.push(v("vc", "9"));
    match choice(3, "own") { 0 => {} 1 => main.vars.push(v("va", "A1")), _ => main.fns.push(f("fb", &["q"], "q")) }
    let all = [main, a, b, c];
    let Some(p) = program(&all, 0, 5) else { return };
    let cells = ["va", "vb+vc", "fa(1)", "fb(vb)", "fa(fb(vc))"];
    put(&all, "junk,[[var=vc]]=1\n");
    let got = match run(&all, &cells) { Ok(g) => g, Err(e) => { note("error", &e.to_string()); fail("imports: a valid program is rejected") } };
    check(got.len() == cells.len(), "imports: cells of imported modules are ignored");
    for (g, c) in got.iter().zip(cells) {
        let want = p.expand(&parse(c, false).unwrap().e, &[], 20).unwrap();
        check(g.len() == 1, "imports: cells of imported modules are ignored");
        same_as(&g[0], &want);
    }
    witness("resolved");
}
/// parameters and definitions of the same name, in the module or in main
pub fn c12_names() {
    warm();
    let n = ["x", "y", "z"];
    let (mut main, mut a, mut b) = (m("main"), m("a"), m("b"));
    main.uses.push(1);
    a.uses.push(2);
    let (p1, p2) = (n[choice(3, "parameter")], n[choice(3, "parameter")]);
    assume(p1 != p2);
    a.fns.push(f("g", &[p1, p2], &format!("{}-{}", n[choice(3, "body")], pick(&["x", "y", "h(x)", "h(z)"], "body"))));
    a.vars.push(v("x", pick(&["1", "y*3", "g(2,3)"], "x")));
    b.vars.push(v("y", "5"));
    b.fns.push(f("h", &[n[choice(3, "parameter")]], pick(&["y+1", "z&x", "z"], "h")));
    main.vars.push(v("z", pick(&["6", "x&x"], "z")));
    let all = [main, a, b];
    let Some(p) = program(&all, 0, 5) else { return };
    let cell = pick(&["g(x,z)", "x", "g(g(1,x),z)"], "cell");
    let Ok(want) = p.expand(&parse(cell, false).unwrap().e, &[], 20) else { return };
    put(&all, "");
    let got = match run(&all, &[cell]) { Ok(g) => g, Err(e) => { note("error", &e.to_string()); fail("imports: a valid program is rejected") } };
    same_as(&got[0][0], &want);
    witness("resolved");
}
/// a variable and a function of the same name
pub fn c12_same() {
    warm();
    let (mut main, mut a, mut b) = (m("main"), m("a"), m("b"));
    main.uses.push(1);
    a.uses.push(2);
    match choice(4, "main") { 0 => {} 1 => main.vars.push(v("x", "7")), 2 => main.fns.push(f("x", &["q"], "q*7")), _ => { main.vars.push(v("y", "x(8)")); } }
    let k = choice(3, "a");
    if k != 1 { a.vars.push(v("x", pick(&["1", "x(3)", "y"], "variable of a"))); }
    if k != 0 { a.fns.push(f("x", &["p"], pick(&["p+1", "p&x", "y(p)"], "function of a"))); }
    let k = choice(4, "b");
    if k & 1 == 1 { b.vars.push(v("y", "4")); }
    if k & 2 == 2 { b.fns.push(f("y", &["x"], pick(&["x/2", "x-y"], "function of b"))); }
    if choice(2, "x in b") == 1 { b.vars.push(v("x", "9")); b.fns.push(f("x", &["p"], "p^9")); }
    let all = [main, a, b];
    let Some(p) = program(&all, 0, 5) else { return };
    put(&all, "");
    let cells = ["x", "x(2)", "x(x)+y"];
    let want: Vec<_> = cells.iter().filter_map(|c| p.expand(&parse(c, false).unwrap().e, &[], 20).ok()).collect();
    if want.len() < cells.len() || want.iter().any(|w| hidden(&all, w, &[])) { return; }
    let got = match run(&all, &cells) { Ok(g) => g, Err(e) => { note("error", &e.to_string()); fail("imports: a valid program is rejected") } };
    for (g, w) in got.iter().zip(&want) { same_as(&g[0], w); }
    witness("resolved");
}
/// circular and repeated imports end, and names without circular definitions resolve
pub fn c12_cycle() {
    warm();
    let (mut main, mut a, mut b) = (m("main"), m("a"), m("b"));
    for (l, who) in [(&mut main, 0), (&mut a, 1), (&mut b, 2)] {
        let _ = who;
        for _ in 0..choice(3, "imports") { l.uses.push(choice(3, "which")); }
    }
    a.vars.push(v("x", pick(&["1", "y+1"], "x")));
    b.vars.push(v("y", pick(&["2", "x+2"], "y")));
    main.vars.push(v("z", "3"));
    let all = [main, a, b];
    put(&all, "");
    match run(&all, &["x+z", "y"]) {
        Ok(g) => {
            check(g.len() == 2, "imports: number of rows");
            // where both constants are imported directly there is nothing to wait for
            for (t, n, cell) in [(1, "1", 0), (2, "2", 1)] {
                if all[0].uses.contains(&t) && all[t].vars[0].1 == n {
                    let want = if cell == 0 { format!("{n}+3") } else { n.to_string() };
                    same_as(&g[cell][0], &parse(&want, false).unwrap().e);
                    witness("resolved");
                }
            }
        }
        Err(e) => { note("error", &e.to_string()); fail("imports: a valid program is rejected") }
    }
}
/// every module that cannot be loaded is reported, whoever imports it
pub fn c12_missing() {
    warm();
    let e = choice(32, "imports");
    let on = |k: usize| e >> k & 1 == 1;
    let (mut main, mut a, mut b, c) = (m("main"), m("a"), m("b"), m("c"));
    for (k, t) in [(0, 1), (1, 2)] { if on(k) { main.uses.push(t); } }
    if on(2) { a.uses.push(2); }
    if on(3) { a.uses.push(3); }
    if on(4) { b.uses.push(3); }
    a.vars.push(v("va", "1"));
    b.vars.push(v("vb", "2"));
    let all = [main, a, b, c];
    // 0: fine, 1: does not exist, 2: malformed
    let state = [0, choice(3, "a"), choice(3, "b"), choice(3, "c")];
    for i in 1..4 {
        if state[i] == 1 { continue; }
        let s = all[i].source(&all);
        std::fs::write(format!("{}.csvpp", all[i].name), if state[i] == 2 { s.replace("---", "bad ! bad\n---") } else { s }).unwrap();
    }
    // modules that get loaded: reachable through modules that can be read
    let mut seen = [true, false, false, false];
    for _ in 0..4 { for i in 0..4 { if seen[i] && state[i] == 0 { for u in &all[i].uses { seen[*u] = true; } } } }
    let bad: Vec<usize> = (1..4).filter(|i| seen[*i] && state[*i] != 0).collect();
    match run(&all, &["1"]) {
        Ok(_) => { check(bad.is_empty(), "imports: a module that cannot be loaded goes unnoticed"); witness("loaded") }
        Err(e) => {
            let e = e.to_string();
            note("error", &e);
            check(!bad.is_empty(), "imports: a valid program is rejected");
            for i in 1..4 { check(e.contains(&format!("{}.csvpp", all[i].name)) == bad.contains(&i), "imports: exactly the modules at fault are reported"); }
            witness("reported");
        }
    }
}

/// importing a module that imports nothing is the same as having its definitions in main
fn inline(code: &str) {
    note("code", code);
    assume(!code.contains("---") && !code.contains("use "));
    let cells = "=v\n\"=f(1,v)\"\n=w\n";
    let one = to_csv(&format!("{code}\n---\n{cells}"));
    std::fs::write("a.csvpp", format!("{code}\n---\n")).unwrap();
    let two = to_csv(&format!("use a\n---\n{cells}"));
    match (one, two) {
        (Ok(o), Ok(t)) => { note("here", &o); note("imported", &t); check(eq(&o, &t), "imports: an imported definition means something else"); if o.starts_with("=v") { witness("undefined") } else { witness("same") } }
        (Err(_), Err(_)) => witness("rejected"),
        (Ok(o), Err(e)) => { note("here", &o); note("error", &e.to_string()); fail("imports: a valid module is rejected") }
        // the cells do not fit the definitions: here it is an error of the cell
        (Err(e), Ok(t)) => { note("error", &e.to_string()); note("imported", &t); fail("imports: a malformed module is accepted") }
    }
}
fn value(most: usize) { warm(); let n = 1 + choice(most, "length"); inline(&format!("w := 2\nv := {}", text(n, "value", b"wx1+-()f,"))) }
pub fn c12_value() { value(4) }
pub fn c12_value5() { value(5) }
pub fn c12_body() { warm(); let n = 1 + choice(4, "length"); inline(&format!("fn f(a, b) {}\nv := 3\nw := 4", text(n, "body", b"abwv+-(),"))) }
fn code(most: usize) { warm(); let n = 1 + choice(most, "length"); inline(&format!("t := 1\n{}v := 2", text(n, "code", b"vwf :=\n#,"))) }

pub fn c12_code() { code(4) }
pub fn c12_code5() { code(5) }

/// the result does not depend on which module is read first; nothing waits forever
pub fn c12_schedule() {
    warm();
    let e = choice(8, "imports");
    let on = |k: usize| e >> k & 1 == 1;
    let (mut main, mut a, mut b) = (m("main"), m("a"), m("b"));
    main.uses.push(1);
    if on(0) { main.uses.push(2); }
    if on(1) { a.uses.push(2); }
    if on(2) { b.uses.push(1); }
    a.vars.push(v("va", if on(1) && !on(2) { "vb+1" } else { "1" }));
    b.vars.push(v("vb", if on(2) && !on(1) { "va+2" } else { "2" }));
    let all = [main, a, b];
    put(&all, "");
    let missing = choice(2, "missing") == 1;
    if missing { std::fs::remove_file("b.csvpp").unwrap(); }
    let reached = on(0) || on(1);
    match run(&all, &["va", "vb"]) {
        Ok(g) => {
            check(!(missing && reached), "imports: a module that cannot be loaded goes unnoticed");
            let a = if on(1) && !on(2) { "2+1" } else { "1" };
            same_as(&g[0][0], &parse(a, false).unwrap().e);
            same_as(&g[1][0], &parse(if !on(0) { "vb" } else if on(2) && !on(1) { "1+2" } else { "2" }, false).unwrap().e);
            witness("loaded");
        }
        Err(e) => { note("error", &e.to_string()); check(missing && reached, "imports: a valid program is rejected"); check(e.to_string().contains("b.csvpp"), "imports: exactly the modules at fault are reported"); witness("reported") }
    }
}
