//! C14: the same input gives the same result on every run.
use crate::modules::{put, M};
use crate::pipe::*;
use crate::vf::*;
use std::fs;

fn once(a: &csvpp::CliArgs) -> String {
    limit(200_000_000);
    let r = build(a);
    let o = fs::read_to_string("out.csv").unwrap_or_default();
    fs::remove_file("out.csv").ok();
    match r { Ok(_) => o, Err(e) => format!("{e}\n") }
}
/// hash tables iterate in another order on every run: in the engine, for several seeds; natively every
/// table has its own random seed
fn same(a: &csvpp::CliArgs) {
    let n = if is_engine() { 4 } else { 40 };
    hash_mode(1, 1);
    let first = once(a);
    note("first", &first);
    for i in 1..n {
        hash_mode(1, i * 7 + 1);
        let s = once(a);
        if !eq(&s, &first) { note("later", &s); fail("determinism: another run gives another result") }
    }
    hash_mode(0, 0);
    witness(if first.contains("rror") { "error" } else { "output" });
}
/// definitions that refer to each other, circularly or with the wrong number of arguments
pub fn c14_defs() {
    warm();
    let v = ["a+1", "b&c", "f(a)", "g(b,1)", "c", "A1"];
    let src = format!("a := {}\nb := {}\nfn f(x) {}\nfn g(x, y) {}\n---\n=a,=f(b),=c\n\"=g(a,c)\",=b\n",
        v[choice(6, "a")], v[choice(6, "b")], ["x", "g(x,a)", "f(x)", "b+x"][choice(4, "f")], ["x+y", "f(y)", "f(x,y)", "a"][choice(4, "g")]);
    note("src", &src);
    fs::write("main.csvpp", src).unwrap();
    same(&args("main.csvpp", "out.csv"));
}
fn m(name: &str) -> M { M { name: name.into(), ..M::default() } }
/// imports: circular ones, names defined in several files, errors in several of them
pub fn c14_imports() {
    warm();
    let (mut main, mut a, mut b, mut c) = (m("main"), m("a"), m("b"), m("c"));
    let e = choice(64, "imports");
    let on = |k: usize| e >> k & 1 == 1;
    main.uses = if on(0) { vec![1, 2] } else { vec![2, 1, 3] };
    if on(1) { a.uses.push(2); }
    if on(2) { a.uses.push(3); }
    if on(3) { b.uses.push(3); }
    if on(4) { b.uses.push(1); }
    if on(5) { c.uses.push(1); }
    let d = |n: &str, b: &str| (n.to_string(), b.to_string());
    let f = |n: &str, p: &str, b: &str| (n.to_string(), vec![p.to_string()], b.to_string());
    a.vars = vec![d("x", ["y+1", "f(1,2)"][choice(2, "x")]), d("z", "3")];
    b.vars = vec![d("y", ["2", "x+1", "f(1)"][choice(3, "y")]), d("z", "4")];
    c.vars = vec![d("z", ["5", "x&y"][choice(2, "z")])];
    b.fns = vec![f("f", "p", "p&z")];
    c.fns = vec![f("f", "q", "q-y")];
    let all = [main, a, b, c];
    put(&all, "");
    let broken = choice(4, "broken");
    let names = ["a", "b", "c"];
    for i in 0..3 { if broken == 1 || (broken == 2 && i != 0) || (broken == 3 && i != 1) { fs::write(format!("{}.csvpp", names[i]), ["x = = 2\n---\n", "---\n![[foo]]x\n", "fn \n---\n"][i]).unwrap(); } }
    fs::write("main.csvpp", all[0].source(&all) + "=x,=y,=z\n=f(x),=f(z)\n").unwrap();
    same(&args("main.csvpp", "out.csv"));
}
/// names bound in several cells or several times on the command line
pub fn c14_names() {
    warm();
    let opt = |t: &str| ["", "[[var=n]]", "[[var=p]]", "[[var=n var=p]]"][choice(4, t)];
    let src = format!("{}---\n{}1,{}2\n{}{}3,=n+p\n", ["", "n := 7\n"][choice(2, "code")], opt("first"), opt("second"), ["", "![[var=n]]", "![[fill=2 var=n]]"][choice(3, "row")], opt("third"));
    note("src", &src);
    fs::write("main.csvpp", src).unwrap();
    let mut a = args("main.csvpp", "out.csv");
    a.key_values = [vec![], vec!["n=8"], vec!["n=8", "n=9"], vec!["n=p", "p=n"]][choice(4, "command line")].iter().map(|s| s.to_string()).collect();
    same(&a);
}
/// errors in several places of one file
pub fn c14_errors() {
    warm();
    let bad = |t: &str| ["1", "=1+", "[[foo]]x", "=f(1)", "=f(1,2,3)", "[[b=q]]"][choice(6, t)];
    let src = format!("fn f(a, b) a\nv := {}\nw := {}\n---\n{},{}\n\"{}\",\"{}\"\n", ["1", "f(1)"][choice(2, "v")], ["2", "f(2,3,4)"][choice(2, "w")], bad("one"), bad("two"), bad("three"), bad("four"));
    note("src", &src);
    fs::write("main.csvpp", src).unwrap();
    same(&args("main.csvpp", "out.csv"));
}

/// rows are evaluated concurrently, the first erroneous one is reported
pub fn c14_rows() {
    schedules(false);
    rayon::ThreadPoolBuilder::new().num_threads(2).build_global().ok();
    warm();
    let bad = ["=1", "=f(1)", "=f(1&2&3)"];
    let rows: Vec<&str> = (0..3).map(|_| bad[choice(2, "row")]).collect();
    let src = format!("fn f(a, b) a\nv := 2\n---\n{}\n", rows.join("\n"));
    note("src", &src);
    fs::write("main.csvpp", src).unwrap();
    schedules(true);
    let s = once(&args("main.csvpp", "out.csv"));
    note("result", &s);
    match rows.iter().position(|r| *r != "=1") {
        Some(i) => { check(s.contains(&format!("cell A{} ", i + 1)), "determinism: the first erroneous row is not the one reported"); witness("error") }
        None => { check(s == "=1\n=1\n=1\n", "determinism: another run gives another result"); witness("output") }
    }
}
pub fn c14_rows_delays() { c14_rows() }
pub fn c14_rows2() { c14_rows() }
pub fn c14_rows_both() { c14_rows() }
