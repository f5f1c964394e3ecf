//! C03: a formula that goes through the compiler still means the same.
use crate::pipe::*;
use crate::refexpr::*;
use crate::vf::*;

pub fn quoted(cell: &str) -> String { format!("\"{}\"", cell.replace('"', "\"\"")) }
/// the compiled text of a sheet's only cell
pub fn only_cell(csv: &str) -> String {
    let chars: Vec<char> = csv.chars().collect();
    let Ok(r) = crate::csv_layer::read(&chars) else { fail("the output is not CSV") };
    check(r.len() == 1 && r[0].len() == 1, "one cell in, one cell out");
    r[0][0].text.clone()
}
/// compile `=text`, compare with what the reference reader makes of it
fn faithful(text: &str) {
    let want = parse(text, false);
    let out = match (to_csv(&quoted(&format!("={text}"))), &want) {
        (Err(_), None) => { witness("rejected"); return; }
        (Err(_), Some(w)) => { check(!w.supported, "a valid formula is rejected"); return; }
        (Ok(_), None) => fail("a malformed formula is accepted"),
        (Ok(o), Some(_)) => only_cell(&o),
    };
    note("out", &out);
    check(out.starts_with('='), "a formula stays a formula");
    let want = want.unwrap();
    if want.quotes {
        // the strings of this formula are printed without escaping their quotes
        let r = parse(text, true).unwrap();
        let twice = parse(&out[1..], false);
        if let Some(t) = twice { if same(&norm(t.e), &norm(want.e.clone())) { return; } }
        check(eq(&out[1..], &show(&r.e, true)), "a formula with quotes in a string");
        fail("KF-QUOTES the quotes inside a string are not doubled in the output");
    }
    let Some(got) = parse(&out[1..], false) else { fail("the compiled formula is malformed") };
    let (got, want) = (norm(got.e), norm(want.e));
    if same(&got, &want) {
        match want { E::Call(ref f, _) if matches!(f.as_str(), "+" | "*" | "&") => witness("operator"), E::Call(..) => witness("call"), E::Bin(..) => witness("operator"), E::Str(_) => witness("string"), E::Num { .. } => witness("number"), _ => witness("other") }
        // what comes out is a fixed point
        if let Ok(again) = to_csv(&quoted(&out)) { check(eq(&only_cell(&again), &out), "compiling the output again changes it"); } else { fail("the output does not compile"); }
        return;
    }
    check(same(&got, &norm(parse(text, true).unwrap().e)), "the compiled formula means something else");
    fail("KF-RIGHT-ASSOC operators of equal precedence are grouped from the right");
}
pub fn c03_ops() { warm(); let n = choice(6, "n"); faithful(&text(n, "f", b"1+-*%()a")); }
pub fn c03_cmp() { warm(); let n = choice(6, "n"); faithful(&text(n, "f", b"1<>=&^/ ")); }
pub fn c03_call() { warm(); let n = choice(7, "n"); faithful(&text(n, "f", b"f1(),")); }
pub fn c03_lit() { warm(); let n = choice(6, "n"); faithful(&text(n, "f", b"10.\"a &")); }
pub fn c03_num() { warm(); let n = choice(7, "n"); faithful(&text(n, "f", b"09.%-")); }
pub fn c03_ops6() { warm(); faithful(&text(6, "f", b"1+-*%()a")); }
pub fn c03_cmp6() { warm(); faithful(&text(6, "f", b"1<>=&/ ")); }
pub fn c03_call7() { warm(); faithful(&text(7, "f", b"f1(),")); }
pub fn c03_lit6() { warm(); faithful(&text(6, "f", b"10.\"a &")); }
pub fn c03_word() {
    warm();
    let w = ["true", "false", "use", "fn", "A1", "$B$2", "x!C3:D4", "f.g.h", "TRUE", "e\u{e9}"];
    let p = w[choice(w.len(), "word")];
    let n = choice(3, "n");
    let rest = text(n, "rest", b"a1.!_(+) ,");
    // keywords of the language, and sheets called `true` or `false`, are not names
    let b = if n > 0 { rest.as_bytes()[0] } else { b' ' };
    let word = b == b'a' || b == b'1' || b == b'_';
    if p == "use" || p == "fn" { assume(word || b == b'.' && p == "fn"); }
    if p == "true" || p == "false" { assume(b != b'.' && b != b'!'); }
    faithful(&format!("{p}{rest}"));
}
/// long chains: operands with free operators, optionally one pair of parentheses
fn chain(n: usize, parens: bool) {
    warm();
    let ops = ["+", "-", "*", "/", "^", "&", "=", "<>", "<="];
    let (open, close) = if parens { let o = choice(n, "open"); (o, o + choice(n - o, "len")) } else { (n, n) };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 { s += ops[choice(ops.len(), "op")]; }
        if i == open { s.push('('); }
        s += ["a", "-2", "c(1)", "4%", "e"][i];
        if i == close { s.push(')'); }
    }
    faithful(&s);
}
pub fn c03_chain4() { chain(4, false); }
pub fn c03_chain5() { chain(5, false); }
pub fn c03_paren() { chain(4, true); }

// ---- C04: definitions are substituted --------------------------------------------------------
fn leaf(names: &[u8]) -> String { text(1, "name", names) }
/// the compiled value of `=cell` under `code` is the expansion of `cell` under `p`
fn expands(code: &str, p: &Program, cell: &str) {
    let src = format!("{code}---\n{}\n", quoted(&format!("={cell}")));
    let want = p.expand(&parse(cell, false).unwrap().e, &[], 12);
    limit(40_000_000);
    let got = to_csv(&src);
    if want == Err(Bad::Cycle) { witness("cycle"); return; }
    match (got, want) {
        (Err(_), Err(_)) => witness("arity"),
        (Err(_), Ok(_)) => {
            // an argument nobody uses may be evaluated too
            fail("a valid program is rejected")
        }
        (Ok(_), Err(_)) => fail("a call with the wrong number of arguments is accepted"),
        (Ok(o), Ok(w)) => {
            let out = only_cell(&o);
            note("out", &out);
            let Some(g) = parse(&out[1..], false) else { fail("the compiled formula is malformed") };
            check(same(&norm(g.e), &norm(w)), "the compiled formula is not what the definitions stand for");
            witness("expanded");
        }
    }
}
fn shape(names: &[u8]) -> String {
    match choice(3, "shape") { 0 => leaf(names), 1 => format!("{}+{}", leaf(names), leaf(names)), _ => format!("h({})", leaf(names)) }
}
pub fn c04_vars() {
    warm();
    let n = b"abA";
    let (x, y, z) = (shape(n), shape(n), shape(n));
    let mut p = Program::default();
    p.var("a", &x);
    p.var("b", &y);
    expands(&format!("a := {x}\nb := {y}\n"), &p, &z);
}
pub fn c04_args() {
    warm();
    let (p1, p2) = (leaf(b"pqa"), leaf(b"pqa"));
    assume(p1 != p2);
    let n = b"pqab";
    let body = format!("{}+{}", leaf(n), leaf(n));
    let cell = if choice(2, "form") == 0 { format!("f({},{})", leaf(n), leaf(n)) } else { format!("f({}&1,f({},2))", leaf(n), leaf(n)) };
    let mut p = Program::default();
    p.var("a", "7");
    p.fun("f", &[&p1, &p2], &body);
    expands(&format!("a := 7\nfn f({p1}, {p2}) {body}\n"), &p, &cell);
}
pub fn c04_nest() {
    warm();
    let bodies = ["p+1", "f(p)", "g(p)", "p&p", "h(f(p),1)", "v", "f(v)"];
    let cells = ["f(g(1))", "g(f(f(2)))", "f(1)+g(2)", "f(f(f(1)))", "h(g(v),f(v))", "v"];
    let vars = ["3", "g(4)", "f(g(5))"];
    let (b1, b2, c, v) = (pick(&bodies, "f"), pick(&bodies, "g"), pick(&cells, "cell"), pick(&vars, "v"));
    let mut p = Program::default();
    p.fun("f", &["p"], b1);
    p.fun("g", &["p"], b2);
    p.var("v", v);
    expands(&format!("fn f(p)\n  {b1}\nfn g(p) {b2}\nv := {v}\n"), &p, c);
}
pub fn c04_arity() {
    warm();
    let params = [vec![], vec!["p"], vec!["p", "q"]];
    let args = ["", "1", "1,2", "h(,1)", "h(1,),2", "1,2,3", "f(1)", "f(f(1,2),3)", "g(1),2"];
    let k = choice(3, "params");
    let a = pick(&args, "args");
    let b = if k == 0 { "5" } else if k == 1 { "p" } else { "p+q" };
    let mut p = Program::default();
    p.fun("f", &params[k], b);
    p.fun("g", &["x"], "f(x,x)");
    let cell = if choice(2, "outer") == 0 { format!("f({a})") } else { format!("1+sum(f({a}))") };
    expands(&format!("fn f({}) {b}\nfn g(x) f(x,x)\n", params[k].join(",")), &p, &cell);
}
/// names inside strings, inside longer names, and text that is not a formula are left alone
pub fn c04_text() {
    warm();
    let n = choice(5, "n") + 1;
    let t = text(n, "cell", b"ab\"1+.");
    let Some(e) = parse(&t, false) else { return };
    assume(e.supported && !e.quotes);
    let mut p = Program::default();
    p.var("a", "x");
    p.var("ab", "y+1");
    p.var("a1", "z");
    expands("a := x\nab := y + 1\na1 := z\n", &p, &t);
}
pub fn c04_plain() {
    warm();
    let n = choice(5, "n");
    let t = text(n, "cell", b"ab1+=");
    assume(!t.starts_with('='));
    let o = to_csv(&format!("a := x\nfn b(p) p\n---\n{t},=a\n"));
    let Ok(o) = o else { fail("text is rejected") };
    check(eq(&o, &format!("{t},=x\n")), "text that is not a formula is changed");
    witness("kept");
}
