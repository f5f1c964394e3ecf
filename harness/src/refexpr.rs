//! An independent reader of formulas: the oracle for what a formula means.
//!
//! Conventional precedence (comparison < & < + - < * / < ^ < % < prefix sign), left to right among
//! operators of equal precedence.  `right` makes every chain group to the right instead.
#[derive(Clone, PartialEq, Debug)]
pub enum E {
    Num { neg: bool, digits: String, pct: usize }, // canonical decimal
    Str(String),
    Bool(bool),
    Ref(String),
    Call(String, Vec<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Neg(Box<E>),
    Pct(Box<E>),
    Missing, // an argument left empty
}
#[derive(Clone, PartialEq, Debug)]
enum T { Num(String), Str(String), Id(String), Op(&'static str), Open, Close, Comma }

fn lex(s: &[u8]) -> Option<Vec<T>> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { i += 1; continue; }
        if c == b'"' {
            let mut t = vec![];
            i += 1;
            loop {
                if i >= s.len() { return None; }
                if s[i] == b'"' {
                    if i + 1 < s.len() && s[i + 1] == b'"' { t.push(b'"'); i += 2; continue; }
                    i += 1;
                    break;
                }
                t.push(s[i]);
                i += 1;
            }
            v.push(T::Str(unsafe { String::from_utf8_unchecked(t) }));
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            while i < s.len() && s[i].is_ascii_digit() { i += 1; }
            if i < s.len() && s[i] == b'.' { i += 1; while i < s.len() && s[i].is_ascii_digit() { i += 1; } }
            // rows, as in 2:4
            if i + 1 < s.len() && s[i] == b':' && s[i + 1].is_ascii_digit() {
                i += 1;
                while i < s.len() && s[i].is_ascii_digit() { i += 1; }
                v.push(T::Id(unsafe { String::from_utf8_unchecked(s[st..i].to_vec()) }));
                continue;
            }
            v.push(T::Num(canonical(&s[st..i])));
            continue;
        }
        let op = match c {
            b'(' => { v.push(T::Open); i += 1; continue }
            b')' => { v.push(T::Close); i += 1; continue }
            b',' => { v.push(T::Comma); i += 1; continue }
            b'^' => "^", b'+' => "+", b'-' => "-", b'*' => "*", b'/' => "/", b'&' => "&", b'%' => "%", b'=' => "=",
            b'<' => if i + 1 < s.len() && s[i + 1] == b'=' { "<=" } else if i + 1 < s.len() && s[i + 1] == b'>' { "<>" } else { "<" },
            b'>' => if i + 1 < s.len() && s[i + 1] == b'=' { ">=" } else { ">" },
            _ => "",
        };
        if !op.is_empty() { v.push(T::Op(op)); i += op.len(); continue; }
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'!' || c == b':' || c >= 0x80;
        if !word(c) { return None; }
        let st = i;
        while i < s.len() && (word(s[i]) || s[i] == b'.') { i += 1; }
        v.push(T::Id(unsafe { String::from_utf8_unchecked(s[st..i].to_vec()) }));
    }
    Some(v)
}
fn canonical(d: &[u8]) -> String {
    let dot = d.iter().position(|c| *c == b'.').unwrap_or(d.len());
    let (ip, fp) = (&d[..dot], if dot < d.len() { &d[dot + 1..] } else { &[][..] });
    let mut i = 0;
    while i + 1 < ip.len() && ip[i] == b'0' { i += 1; }
    let mut f = fp.len();
    while f > 0 && fp[f - 1] == b'0' { f -= 1; }
    let mut o = ip[i..].to_vec();
    if f > 0 { o.push(b'.'); o.extend_from_slice(&fp[..f]); }
    unsafe { String::from_utf8_unchecked(o) }
}

pub struct Parsed { pub e: E, pub supported: bool, pub quotes: bool }
struct P { t: Vec<T>, i: usize, right: bool, supported: bool, quotes: bool, depth: usize }
const LEVELS: &[&[&str]] = &[&["=", "<", ">", "<=", ">=", "<>"], &["&"], &["+", "-"], &["*", "/"], &["^"]];

impl P {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn level(&mut self, l: usize) -> Option<E> {
        if l == LEVELS.len() { return self.postfix(); }
        let mut parts = vec![self.level(l + 1)?];
        let mut ops = vec![];
        while let Some(T::Op(o)) = self.peek() {
            if !LEVELS[l].contains(o) { break; }
            ops.push(*o);
            self.i += 1;
            parts.push(self.level(l + 1)?);
        }
        if self.right {
            let mut e = parts.pop()?;
            while let Some(o) = ops.pop() { e = E::Bin(o, Box::new(parts.pop()?), Box::new(e)); }
            Some(e)
        } else {
            let mut it = parts.into_iter();
            let mut e = it.next()?;
            for (o, r) in ops.into_iter().zip(it) { e = E::Bin(o, Box::new(e), Box::new(r)); }
            Some(e)
        }
    }
    fn postfix(&mut self) -> Option<E> {
        let mut e = self.prefix()?;
        while self.peek() == Some(&T::Op("%")) {
            self.i += 1;
            e = match e {
                E::Num { neg, digits, pct } => { if pct > 0 { self.supported = false; } E::Num { neg, digits, pct: pct + 1 } }
                e => { self.supported = false; E::Pct(Box::new(e)) }
            };
        }
        Some(e)
    }
    fn prefix(&mut self) -> Option<E> {
        let neg = match self.peek() {
            Some(T::Op("-")) => true,
            Some(T::Op("+")) => false,
            _ => return self.atom(),
        };
        self.i += 1;
        Some(match self.prefix()? {
            E::Num { neg: n, digits, pct } => E::Num { neg: n != neg, digits, pct },
            e => { self.supported = false; if neg { E::Neg(Box::new(e)) } else { e } }
        })
    }
    fn atom(&mut self) -> Option<E> {
        let t = self.peek()?.clone();
        self.i += 1;
        let e = match t {
            T::Num(d) => return Some(E::Num { neg: false, digits: d, pct: 0 }),
            T::Str(s) => { if s.contains('"') { self.quotes = true; } return Some(E::Str(s)) }
            T::Open => {
                self.depth += 1;
                let e = self.level(0)?;
                if self.peek() != Some(&T::Close) { return None; }
                self.i += 1;
                if let (E::Ref(_), Some(T::Open)) = (&e, self.peek()) { self.supported = false; }
                e
            }
            T::Id(n) => if self.peek() == Some(&T::Open) { if n == "true" || n == "false" { self.supported = false; } E::Ref(n) } else if n.eq_ignore_ascii_case("true") { return Some(E::Bool(true)) } else if n.eq_ignore_ascii_case("false") { return Some(E::Bool(false)) } else { E::Ref(n) },
            _ => return None,
        };
        if let (E::Ref(n), Some(T::Open)) = (&e, self.peek()) {
            let n = n.clone();
            self.i += 1;
            let mut args = vec![];
            if self.peek() == Some(&T::Close) { self.i += 1; return Some(E::Call(n, args)); }
            loop {
                match self.peek()? {
                    T::Comma | T::Close => args.push(E::Missing),
                    _ => args.push(self.level(0)?),
                }
                match self.peek()? { T::Comma => self.i += 1, T::Close => { self.i += 1; return Some(E::Call(n, args)) } _ => return None }
            }
        }
        Some(e)
    }
}
/// read the text behind the `=`; None when it is malformed
pub fn parse(s: &str, right: bool) -> Option<Parsed> {
    let mut p = P { t: lex(s.as_bytes())?, i: 0, right, supported: true, quotes: false, depth: 0 };
    let e = p.level(0)?;
    if p.i != p.t.len() { return None; }
    Some(Parsed { e, supported: p.supported, quotes: p.quotes })
}

/// a normal form in which formulas that only differ in how sums and products are grouped are equal
pub fn norm(e: E) -> E {
    match e {
        E::Call(n, a) => E::Call(n, a.into_iter().map(norm).collect()),
        E::Neg(e) => E::Neg(Box::new(norm(*e))),
        E::Pct(e) => E::Pct(Box::new(norm(*e))),
        E::Bin(o, l, r) => {
            let (plus, minus) = match o { "+" | "-" => ("+", "-"), "*" | "/" => ("*", "/"), "&" => ("&", ""), _ => return E::Bin(o, Box::new(norm(*l)), Box::new(norm(*r))) };
            let mut terms = vec![];
            fn flat(e: E, inv: bool, plus: &str, minus: &str, out: &mut Vec<(bool, E)>) {
                match e {
                    E::Bin(o, l, r) if o == plus || o == minus => { flat(*l, inv, plus, minus, out); flat(*r, inv != (o == minus), plus, minus, out); }
                    e => out.push((inv, norm(e))),
                }
            }
            flat(E::Bin(o, l, r), false, plus, minus, &mut terms);
            E::Call(plus.to_string(), terms.into_iter().map(|(i, e)| E::Call(if i { "1" } else { "0" }.to_string(), vec![e])).collect())
        }
        e => e,
    }
}
/// text with every operation in parentheses; `raw` leaves quotes inside strings as they are
pub fn show(e: &E, raw: bool) -> String {
    match e {
        E::Num { neg, digits, pct } => format!("{}{digits}{}", if *neg { "-" } else { "" }, "%".repeat(*pct)),
        E::Str(s) => if raw { format!("\"{s}\"") } else { format!("\"{}\"", s.replace('"', "\"\"")) },
        E::Bool(b) => if *b { "TRUE".into() } else { "FALSE".into() },
        E::Ref(r) => r.clone(),
        E::Call(n, a) => format!("{n}({})", a.iter().map(|e| show(e, raw)).collect::<Vec<_>>().join(", ")),
        E::Bin(o, l, r) => format!("({} {o} {})", show(l, raw), show(r, raw)),
        E::Neg(e) => format!("-{}", show(e, raw)),
        E::Pct(e) => format!("{}%", show(e, raw)),
        E::Missing => String::new(),
    }
}
/// equality with each text comparison as one solver term
pub fn same(a: &E, b: &E) -> bool {
    use crate::vf::eq;
    match (a, b) {
        (E::Num { neg: n, digits: d, pct: p }, E::Num { neg, digits, pct }) => n == neg && p == pct && eq(d, digits),
        (E::Str(x), E::Str(y)) | (E::Ref(x), E::Ref(y)) => eq(x, y),
        (E::Bool(x), E::Bool(y)) => x == y,
        (E::Call(m, x), E::Call(n, y)) => x.len() == y.len() && eq(m, n) && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (E::Bin(o, a, b), E::Bin(p, c, d)) => o == p && same(a, c) && same(b, d),
        (E::Neg(x), E::Neg(y)) | (E::Pct(x), E::Pct(y)) => same(x, y),
        (E::Missing, E::Missing) => true,
        _ => false,
    }
}

// ---- definitions ---------------------------------------------------------------------------
#[derive(Default)]
pub struct Program { pub vars: Vec<(String, E)>, pub fns: Vec<(String, Vec<String>, E)> }
#[derive(PartialEq, Debug)]
pub enum Bad { Cycle, Arity }
impl Program {
    pub fn var(&mut self, n: &str, body: &str) { let e = parse(body, false).unwrap().e; self.vars.retain(|v| v.0 != n); self.vars.push((n.into(), e)); }
    pub fn fun(&mut self, n: &str, params: &[&str], body: &str) { let e = parse(body, false).unwrap().e; self.fns.retain(|v| v.0 != n); self.fns.push((n.into(), params.iter().map(|p| p.to_string()).collect(), e)); }
    /// replace every use of a definition by what it stands for.  `strict`: also look into arguments
    /// that the function does not use
    pub fn expand(&self, e: &E, args: &[(String, Result<E, Bad>)], fuel: usize) -> Result<E, Bad> {
        if fuel == 0 { return Err(Bad::Cycle); }
        Ok(match e {
            E::Ref(n) => {
                for (p, v) in args { if p == n { return match v { Ok(e) => Ok(e.clone()), Err(Bad::Cycle) => Err(Bad::Cycle), Err(Bad::Arity) => Err(Bad::Arity) } } }
                for (p, v) in &self.vars { if p == n { return self.expand(v, &[], fuel - 1) } }
                e.clone()
            }
            E::Call(n, a) => {
                let a: Vec<_> = a.iter().map(|x| self.expand(x, args, fuel)).collect();
                for (f, params, body) in &self.fns {
                    if f == n {
                        if params.len() != a.len() { return Err(Bad::Arity); }
                        let bound: Vec<_> = params.iter().cloned().zip(a).collect();
                        return self.expand(body, &bound, fuel - 1);
                    }
                }
                let mut v = vec![];
                for x in a { v.push(x?); }
                E::Call(n.clone(), v)
            }
            E::Bin(o, l, r) => E::Bin(o, Box::new(self.expand(l, args, fuel)?), Box::new(self.expand(r, args, fuel)?)),
            E::Neg(x) => E::Neg(Box::new(self.expand(x, args, fuel)?)),
            E::Pct(x) => E::Pct(Box::new(self.expand(x, args, fuel)?)),
            e => e.clone(),
        })
    }
}
