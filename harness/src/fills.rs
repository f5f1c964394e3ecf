//! C07: fills repeat rows; what variables mean inside and outside of them.  C08: which definition a
//! name refers to.
use crate::pipe::*;
use crate::refexpr::*;
use crate::vf::*;

/// a row of the source: how often it is repeated and what its cells hold
#[derive(Clone)]
struct R { fill: Option<Option<usize>>, rvar: bool, cvar: bool, formula: String }
const ROWS: usize = 1000;

fn rows_of(o: &str) -> Vec<Vec<String>> {
    let Some(r) = cells(o) else { fail("the output is not CSV") };
    r
}
/// compile the rows, compare all (or `some`) of the output rows with the reference
fn sheet(code: &str, defs: &dyn Fn(&mut Program), rows: &[R], some: &[usize]) {
    let mut src = String::from(code);
    for (i, r) in rows.iter().enumerate() {
        let mut o = vec![];
        if r.rvar { o.push("var=r".to_string()); }
        match r.fill { Some(Some(n)) => o.push(format!("fill={n}")), Some(None) => o.push("fill".into()), None => {} }
        let lead = if o.is_empty() { String::new() } else { format!("![[{}]]", o.join(" ")) };
        src += &format!("{lead}k{i},{},\"={}\"\n", if r.cvar { "[[var=c]]v" } else { "w" }, r.formula.replace('"', "\"\""));
    }
    note("src", &src);
    // reference: where every row of the source ends up
    let finite: usize = rows.iter().map(|r| match r.fill { None => 1, Some(n) => n.unwrap_or(0) }).sum();
    let mut out: Vec<(usize, usize, usize)> = vec![]; // row of the source, first and last of its copies
    for (i, r) in rows.iter().enumerate() {
        let n = match r.fill { None => 1, Some(Some(n)) => n, Some(None) => ROWS.saturating_sub(finite) };
        let first = out.len() + 1;
        for _ in 0..n { out.push((i, first, first + n - 1)); }
    }
    limit(900_000_000);
    let csv = match to_csv(&src) {
        Ok(c) => c,
        Err(e) => { note("error", &e.to_string()); check(rows.iter().filter(|r| r.fill == Some(None)).count() > 1, "fills: rejected"); return witness("rejected") }
    };
    check(rows.iter().filter(|r| r.fill == Some(None)).count() < 2, "fills: two endless fills are accepted");
    let got = rows_of(&csv);
    note("rows", &format!("{} {}", got.len(), out.len()));
    check(got.len() == out.len(), "fills: number of rows");
    for (y, &(i, _, _)) in out.iter().enumerate() {
        if !some.is_empty() && !some.contains(&y) { continue; }
        let g = &got[y];
        check(g.len() == 3 && g[0] == format!("k{i}") && g[1] == if rows[i].cvar { "v" } else { "w" }, "fills: which row is where");
        let mut p = Program::default();
        defs(&mut p);
        let range = |f: usize, l: usize, one: String, many: String| { let _ = (f, l); if one.is_empty() { many } else { one } };
        for (z, &(j, f, l)) in out.iter().enumerate() {
            if z + 1 != f { continue; }
            let inside = f <= y + 1 && y + 1 <= l && rows[j].fill.is_some();
            let at = if inside { y + 1 } else { z + 1 };
            let single = inside || rows[j].fill.is_none();
            if rows[j].cvar { let t = range(f, l, if single { format!("B{at}") } else { String::new() }, format!("B{f}:B{l}")); p.vars.insert(0, ("c".into(), E::Ref(t))); }
            if rows[j].rvar { let t = range(f, l, if single { format!("{at}:{at}") } else { String::new() }, format!("{f}:{l}")); p.vars.insert(0, ("r".into(), E::Ref(t))); }
        }
        let mut want = p.expand(&parse(&rows[i].formula, false).unwrap().e, &[], 20).unwrap();
        one_cell(&mut want);
        note("cell", &g[2]);
        note("want", &show(&want, false));
        check(g[2].starts_with('='), "fills: a formula stays a formula");
        let Some(e) = parse(&g[2][1..], false) else { fail("fills: the formula is malformed") };
        let mut e = e.e;
        one_cell(&mut e);
        check(same(&norm(e), &norm(want)), "fills: what a variable refers to");
    }
    witness("filled");
}
/// `B2:B2` is `B2`
fn one_cell(e: &mut E) {
    match e {
        E::Ref(r) => if let Some((a, b)) = r.clone().split_once(':') { if a == b && a.starts_with(|c: char| c.is_ascii_alphabetic()) { *r = a.to_string(); } },
        E::Call(_, a) => a.iter_mut().for_each(one_cell),
        E::Bin(_, l, r) => { one_cell(l); one_cell(r); }
        E::Neg(x) | E::Pct(x) => one_cell(x),
        _ => {}
    }
}
const CODE: &str = "p := c * 2\nfn f(x) x + c\nfn g(c) c + 1\nfn h(x) SUM(r, x)\n---\n";
fn code(p: &mut Program) { p.var("p", "c*2"); p.fun("f", &["x"], "x+c"); p.fun("g", &["c"], "c+1"); p.fun("h", &["x"], "SUM(r,x)"); }
const FORMULAS: &[&str] = &["c", "r", "SUM(c,r)&\"c\"", "p", "f(1)", "g(5)", "f(g(c))", "h(p)+cc"];
fn formula() -> String { pick(FORMULAS, "formula").to_string() }

/// three rows, each plain or repeated 0 to 3 times, a cell and a row variable on any of them
pub fn c07_three() {
    warm();
    let f = formula();
    let (c, r) = (choice(3, "cell variable"), choice(4, "row variable"));
    let rows: Vec<R> = (0..3).map(|i| R { fill: match choice(4, "fill") { 0 => None, 1 => Some(Some(1)), 2 => Some(Some(2)), _ => Some(Some([0, 3, 3][i])) }, rvar: r == i, cvar: c == i, formula: f.clone() }).collect();
    sheet(CODE, &code, &rows, &[]);
}
/// an endless fill takes what is left of 1000 rows
pub fn c07_endless() {
    warm();
    let f = pick(&["c", "SUM(c,r)", "f(1)"], "formula").to_string();
    let row = |fill, v: bool| R { fill, rvar: v, cvar: v, formula: f.clone() };
    let on = choice(3, "variables on");
    let before = [None, Some(Some(990)), Some(None)][choice(3, "before")];
    let after = [None, Some(Some(4)), Some(Some(0)), Some(Some(1001))][choice(4, "after")];
    let rows = [row(before, on == 0), row(Some(None), on == 1), row(after, on == 2)];
    sheet(CODE, &code, &rows, &[0, 1, 2, 500, 989, 990, 991, 994, 995, 996, 998, 999, 1000, 2000]);
}
/// four rows, each plain, repeated or repeated endlessly
pub fn c07_four() {
    warm();
    let row = |fill| R { fill, rvar: false, cvar: false, formula: "1".into() };
    let rows: Vec<R> = (0..4).map(|_| row([None, Some(Some(2)), Some(None)][choice(3, "fill")])).collect();
    sheet("", &|_| (), &rows, &[0, 1, 2, 3, 500, 992, 993, 994, 995, 996, 997, 998, 999]);
}
/// fills that reach beyond row 1000
pub fn c07_beyond() {
    warm();
    let f = pick(&["c", "h(c)"], "formula").to_string();
    let row = |fill, v: bool| R { fill, rvar: v, cvar: v, formula: f.clone() };
    let on = choice(2, "variables on");
    let rows = [row(Some(Some([998, 1001][choice(2, "first")])), on == 0), row(Some(Some(4)), on == 1), row(None, false)];
    sheet(CODE, &code, &rows, &[0, 997, 998, 999, 1000, 1001, 1002, 1004, 1005]);
}

// ---- C08 -----------------------------------------------------------------------------------
/// compile with command-line definitions
fn run(src: &str, kv: &[String]) -> Result<Vec<Vec<String>>, csvpp::Error> {
    std::fs::write("main.csvpp", src).unwrap();
    let mut a = args("main.csvpp", "out.csv");
    a.key_values = kv.to_vec();
    limit(200_000_000);
    build(&a)?;
    let o = std::fs::read_to_string("out.csv").unwrap();
    std::fs::remove_file("out.csv").unwrap();
    Ok(rows_of(&o))
}
fn means(got: &str, p: &Program, formula: &str) {
    let Ok(want) = p.expand(&parse(formula, false).unwrap().e, &[], 20) else { fail("harness: no meaning") };
    note("cell", got);
    note("want", &show(&want, false));
    check(got.starts_with('='), "scoping: a formula stays a formula");
    let Some(e) = parse(&got[1..], false) else { fail("scoping: the formula is malformed") };
    check(same(&norm(e.e), &norm(want)), "scoping: what a name refers to");
}
/// a name defined in the code section, by a cell, on the command line or by a parameter
pub fn c08_which() {
    warm();
    let n = pick(&["x", "xy", "_x", "x1", "x_y"], "name");
    let code = ["", "42", "y+1", "h(y)"][choice(4, "code")];
    let cell = choice(2, "cell") == 1;
    let cli = ["", "7", "y&\"s\"", "A1-y"][choice(4, "command line")];
    let y = choice(3, "y");
    assume(cli.is_empty() || (code.is_empty() && !cell)); // which of the two wins is not specified
    let f = ["N", "f(N)", "h(N,1)", "g()", "k(N+2)", "k(g())", "f(k(f(N)))", "N&\"N\"&NN"][choice(8, "formula")].replace('N', n);
    let mut p = Program::default();
    let mut src = String::new();
    let mut kv = vec![];
    if !code.is_empty() { src += &format!("{n} := {code}\n"); p.var(n, code); }
    match y { 0 => { src += "y := 5\n"; p.var("y", "5"); } 1 => { kv.push("y=3+4".to_string()); p.var("y", "3+4"); } _ => p.var("y", "A3") }
    src += &format!("fn f(p) p*{n}\nfn g() {n}\nfn k({n}) {n}+y\n---\n");
    p.fun("f", &["p"], &format!("p*{n}"));
    p.fun("g", &[], n);
    p.fun("k", &[n], &format!("{n}+y"));
    if !cli.is_empty() { kv.push(format!("{n}={cli}")); p.var(n, cli); }
    src += &format!("one,{}two\n\"={}\"\n{}z\n", if cell { format!("[[var={n}]]") } else { String::new() }, f.replace('"', "\"\""), if y == 2 { "[[var=y]]" } else { "" });
    if cell && code.is_empty() { p.var(n, "B1"); }
    note("src", &src);
    let got = match run(&src, &kv) { Ok(g) => g, Err(e) => { note("error", &e.to_string()); fail("scoping: a valid program is rejected") } };
    check(got.len() == 3 && got[0][1] == "two" && got[2][0] == "z", "scoping: other cells");
    means(&got[1][0], &p, &f);
    witness("resolved");
}
/// a command-line value is any expression
pub fn c08_value() {
    warm();
    let v = text(1 + choice(5, "length"), "value", b"1a+(),\"=");
    let kv = [format!("x={v}"), "a=B2".to_string()];
    note("kv", &kv[0]);
    // the value can be written as a formula, with its `=`
    let want = parse(v.strip_prefix('=').unwrap_or(&v), true);
    match (run("=x*2\n", &kv), want) {
        (Err(_), None) => witness("rejected"),
        (Err(e), Some(w)) => { note("error", &e.to_string()); check(!w.supported, "scoping: a command-line value is rejected") }
        (Ok(_), None) => fail("scoping: a malformed command-line value is accepted"),
        (Ok(g), Some(w)) => {
            let mut p = Program::default();
            p.vars.push(("x".into(), w.e));
            p.var("a", "B2");
            note("cell", &g[0][0]);
            if w.quotes { return witness("resolved"); }
            let want = p.expand(&parse("x*2", false).unwrap().e, &[], 20).unwrap();
            note("want", &show(&want, false));
            let Some(e) = parse(&g[0][0][1..], false) else { fail("scoping: the formula is malformed") };
            check(same(&norm(e.e), &norm(want)), "scoping: what a command-line name refers to");
            witness("resolved");
        }
    }
}
/// the address of a cell with a variable is its address in the output
pub fn c08_address() {
    warm();
    let col = [0, 1, 25, 26, 27, 51, 52, 77, 701, 702, 728][choice(11, "column")];
    let skip = ["", "\n", "# note\n", "a,b\\\n,c\n", "\"a\nb\",c\n", "![[fill=3]]q\n", "![[b=t]]q\n", " # note\n\n"];
    let rows = [0, 1, 0, 1, 1, 3, 1, 2];
    let (a, b) = (choice(8, "above"), choice(8, "next above"));
    let code = choice(3, "code section");
    let opt = pick(&["[[var=x]]", "[[t=b var=x]]", " [[var=x]] ", "[[var=x / note='a b']]", "\"[[var=x]]\""], "option");
    let mut src = ["", "y := 1\n---\n", "fn f(a,\n b) a\n\n---\n"][code].to_string();
    src += skip[a];
    src += skip[b];
    // blank lines at the very start are not rows
    let first = if skip[a] == "\n" || skip[a].is_empty() && skip[b] == "\n" { rows[a] + rows[b] - 1 - usize::from(skip[a] == "\n" && skip[b] == "\n") } else { rows[a] + rows[b] };
    for _ in 0..col { src.push(','); }
    src += &format!("{opt}v,\n");
    src += "=x&x\n";
    note("src", &src);
    // a quoted field ends at its closing quote
    let src = if opt.starts_with('"') { src.replace("\"v,", "v\",") } else { src };
    let got = match run(&src, &[]) { Ok(g) => g, Err(e) => { note("error", &e.to_string()); fail("scoping: a valid program is rejected") } };
    check(got.len() == first + 2, "scoping: number of rows");
    check(got[first].len() >= col + 1 && got[first][col] == "v", "scoping: where the cell is");
    let mut name = String::new();
    let mut c = col + 1;
    while c > 0 { name.insert(0, (b'A' + ((c - 1) % 26) as u8) as char); c = (c - 1) / 26; }
    let mut p = Program::default();
    p.var("x", &format!("{name}{}", first + 1));
    means(&got[first + 1][0], &p, "x&x");
    witness("resolved");
}
