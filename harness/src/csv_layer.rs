//! C01 / C02: reading CSV.  The oracle is an independent table-style reader of the documented
//! dialect (RFC 4180, fields trimmed, `\` + newline continues the line outside quotes, lines that
//! start with `#` are comments).
use crate::vf::*;

pub struct RField { pub text: String, pub at: Vec<usize> } // value and, per character, its index in the source

/// Err(()) for malformed quoting
pub fn read(src: &[char]) -> Result<Vec<Vec<RField>>, ()> { read_eof(src).map(|r| r.0) }
/// and whether the input ends right after a separator
pub fn read_eof(src: &[char]) -> Result<(Vec<Vec<RField>>, bool), ()> {
    #[derive(PartialEq, Clone, Copy)]
    enum S { RecordStart, FieldStart, Plain, Quoted, AfterQuote, Comment }
    let mut recs = vec![];
    let mut rec: Vec<RField> = vec![];
    let mut cur: Vec<(char, usize)> = vec![];
    let mut st = S::RecordStart;
    let mut seen_any = false; // did the document have a non-newline yet
    let mut continued = false; // the current record began on an earlier line
    let mut i = 0;
    fn done(cur: &mut Vec<(char, usize)>) -> RField {
        let mut lo = 0;
        let mut hi = cur.len();
        while lo < hi && cur[lo].0.is_whitespace() { lo += 1; }
        while hi > lo && cur[hi - 1].0.is_whitespace() { hi -= 1; }
        let f = RField { text: cur[lo..hi].iter().map(|x| x.0).collect(), at: cur[lo..hi].iter().map(|x| x.1).collect() };
        cur.clear();
        f
    }
    while i < src.len() {
        let c = src[i];
        let joined = c == '\\' && i + 1 < src.len() && src[i + 1] == '\n';
        if !seen_any && c == '\n' { i += 1; continue; }
        seen_any = true;
        match st {
            S::Comment => { if c == '\n' { st = S::RecordStart; } }
            S::Quoted => {
                if c != '"' { cur.push((c, i)); }
                else if i + 1 < src.len() && src[i + 1] == '"' { i += 1; cur.push(('"', i)); }
                else { st = S::AfterQuote; }
            }
            _ if joined => { i += 1; continued = true; if st == S::RecordStart { st = S::FieldStart; } }
            S::RecordStart if c == '#' && !continued => { st = S::Comment; }
            _ if c == ',' => { rec.push(done(&mut cur)); st = S::FieldStart; }
            _ if c == '\n' => { rec.push(done(&mut cur)); recs.push(std::mem::take(&mut rec)); st = S::RecordStart; continued = false; }
            S::AfterQuote => { if !c.is_whitespace() { return Err(()); } }
            S::Plain => cur.push((c, i)),
            S::RecordStart | S::FieldStart => {
                if c == '"' { st = S::Quoted; }
                else if c.is_whitespace() { st = S::FieldStart; }
                else { cur.push((c, i)); st = S::Plain; }
            }
        }
        i += 1;
    }
    let eof = st == S::FieldStart && !rec.is_empty();
    match st {
        S::Quoted => return Err(()),
        S::Comment | S::RecordStart => {}
        // a last line of nothing but blanks is no record; otherwise the text ends the last field
        S::FieldStart if rec.is_empty() => {}
        _ => { rec.push(done(&mut cur)); recs.push(rec); }
    }
    Ok((recs, eof))
}

/// compare csvp with the reader above
fn compare(src: &str, positions: bool, above: usize) {
    let chars: Vec<char> = src.chars().collect();
    let want = read(&chars);
    let got = csvp::parse(src, &csvp::Config { lines_above: above, ..csvp::Config::default() });
    let (want, got) = match (want, got) {
        (Err(()), Err(_)) => { witness("rejected"); return; }
        (Err(()), Ok(_)) | (Ok(_), Err(_)) if positions => return,
        (Err(()), Ok(_)) => fail("malformed quoting is accepted"),
        (Ok(_), Err(_)) => fail("well-formed CSV is rejected"),
        (Ok(w), Ok(g)) => (w, g),
    };
    let mut lines = vec![(0usize, 0usize)]; // (line, offset) of every character
    for c in &chars { let (l, o) = lines[lines.len() - 1]; lines.push(if *c == '\n' { (l + 1, 0) } else { (l, o + 1) }); }
    if positions { assume(got.len() == want.len()); } else { check(got.len() == want.len(), "number of records"); }
    let mut eof_comma = false;
    for (r, (g, w)) in got.iter().zip(&want).enumerate() {
        if positions { assume(g.len() == w.len() || g.len() + 1 == w.len()); }
        else if g.len() + 1 == w.len() && r + 1 == want.len() && w[w.len() - 1].text.is_empty() {
            eof_comma = true;
        } else if !positions {
            check(g.len() == w.len(), "number of fields");
        }
        for (c, (gf, wf)) in g.iter().zip(w).enumerate() {
            if positions {
                check(gf.address == a1::Address::new(c, r), "field address");
                check(gf.positions.len() == gf.value.chars().count(), "one position per character");
                assume(eq(&gf.value, &wf.text));
                for (i, (p, at)) in gf.positions.iter().zip(&wf.at).enumerate() {
                    check((p.line_number, p.line_offset) == (lines[*at].0 + above, lines[*at].1), "character position");
                    check(gf.position_for_offset(i) == Some(*p), "position lookup");
                }
                check(gf.position_for_offset(gf.positions.len()).is_none(), "position lookup past the end");
            } else { check(eq(&gf.value, &wf.text), "field value"); }
            if !wf.text.is_empty() { witness("value"); }
        }
        if g.len() > 1 { witness("fields"); }
    }
    if got.len() > 1 { witness("records"); }
    check(!eof_comma, "KF-EOF-COMMA the empty field after a separator that ends the input is dropped");
    note("n", &format!("{}", got.iter().map(|r| r.iter().map(|f| f.value.as_str()).collect::<Vec<_>>().join("|")).collect::<Vec<_>>().join("\n")));
}

const LF: &[u8] = b"a,\n #\\";
const QUOTE: &[u8] = b"a,\n \"";
pub fn c01_lf() { let n = choice(8, "n"); compare(&text(n, "csv", LF), false, 0); }
pub fn c01_lf9() { let n = choice(10, "n"); compare(&text(n, "csv", LF), false, 0); }
pub fn c01_quote() { let n = choice(8, "n"); compare(&text(n, "csv", QUOTE), false, 0); }
pub fn c01_quote9() { let n = choice(10, "n"); compare(&text(n, "csv", QUOTE), false, 0); }
const ALL: &[u8] = b"a,\n #\\\"\t";
pub fn c01_mix() { let n = choice(8, "n"); compare(&text(n, "csv", ALL), false, 0); }
pub fn c01_mix8() { let n = choice(9, "n"); compare(&text(n, "csv", ALL), false, 0); }
pub fn c02_lf() { let n = choice(7, "n"); compare(&text(n, "csv", LF), true, choice(3, "above")); }
pub fn c02_quote() { let n = choice(8, "n"); compare(&expand(&text(n, "csv", b"a,\n \"\x02"), 2, "\u{e9}"), true, 0); }
pub fn c01_crlf() {
    let n = choice(6, "n");
    let s = expand(&text(n, "csv", b"a,\x01\"\x02 "), 2, "\u{e9}");
    assume(!s.starts_with('\x01'));
    let lf = expand(&s, 1, "\n");
    let crlf = expand(&s, 1, "\r\n");
    let c = csvp::Config::default();
    match (csvp::parse(&lf, &c), csvp::parse(&crlf, &c)) {
        (Err(_), Err(_)) => witness("rejected"),
        (Ok(a), Ok(b)) => {
            check(a.len() == b.len(), "CRLF: records");
            for (x, y) in a.iter().zip(&b) {
                check(x.len() == y.len(), "CRLF: fields");
                for (f, g) in x.iter().zip(y) { check(eq(&f.value, &g.value.replace("\r\n", "\n")), "CRLF: value"); check(f.address == g.address, "CRLF: address"); }
            }
            witness("same");
        }
        _ => fail("CRLF: one is rejected"),
    }
}
