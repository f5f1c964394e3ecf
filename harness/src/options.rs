//! C09: cell and row options set exactly what they name.  C10: data validations.
use crate::pipe::*;
use crate::vf::*;
use std::collections::{BTreeMap, BTreeSet};

type Attrs = BTreeMap<&'static str, String>;
fn set<T: std::fmt::Debug>(i: impl Iterator<Item = T>) -> String {
    let s: BTreeSet<String> = i.map(|x| format!("{x:?}")).collect();
    s.into_iter().collect::<Vec<_>>().join("+")
}
/// the attributes of a row or of a cell, by name
macro_rules! attrs { ($c:expr) => {{
    let c = $c;
    let mut m = Attrs::new();
    m.insert("border_color", format!("{:?}", c.border_color));
    m.insert("border_style", format!("{:?}", c.border_style));
    m.insert("borders", set(c.borders.iter()));
    m.insert("color", format!("{:?}", c.color));
    m.insert("data_validation", format!("{:?}", c.data_validation));
    m.insert("font_color", format!("{:?}", c.font_color));
    m.insert("font_family", format!("{:?}", c.font_family));
    m.insert("font_size", format!("{:?}", c.font_size));
    m.insert("horizontal_align", format!("{:?}", c.horizontal_align));
    m.insert("lock", format!("{:?}", c.lock));
    m.insert("note", format!("{:?}", c.note));
    m.insert("number_format", format!("{:?}", c.number_format));
    m.insert("text_formats", set(c.text_formats.iter()));
    m.insert("text_wrap", format!("{:?}", c.text_wrap));
    m.insert("var", format!("{:?}", c.var));
    m.insert("vertical_align", format!("{:?}", c.vertical_align));
    m
}} }

pub struct Opt { pub names: &'static [&'static str], pub attr: &'static str, pub values: &'static [(&'static [&'static str], &'static str)] }
const fn o(names: &'static [&'static str], attr: &'static str, values: &'static [(&'static [&'static str], &'static str)]) -> Opt { Opt { names, attr, values } }
/// the documented options; the names of values are matched whatever their case where `enumerated`
pub const OPTS: &[Opt] = &[
    o(&["border", "b"], "borders", &[(&["all", "a"], "All"), (&["top", "t"], "Top"), (&["bottom", "b"], "Bottom"), (&["left", "l"], "Left"), (&["right", "r"], "Right")]),
    o(&["borderstyle", "bs"], "border_style", &[(&["dashed", "dash"], "Dashed"), (&["dotted", "dot"], "Dotted"), (&["double", "dbl"], "Double"), (&["solid", "1"], "Solid"), (&["solid_medium", "2"], "SolidMedium"), (&["solid_thick", "3"], "SolidThick")]),
    o(&["halign", "ha"], "horizontal_align", &[(&["left", "l"], "Left"), (&["center", "c"], "Center"), (&["right", "r"], "Right")]),
    o(&["numberformat", "nf"], "number_format", &[(&["currency", "c"], "Currency"), (&["date", "d"], "Date"), (&["datetime", "dt"], "DateTime"), (&["number", "n"], "Number"), (&["percent", "p"], "Percent"), (&["text"], "Text"), (&["time", "t"], "Time"), (&["scientific", "s"], "Scientific")]),
    o(&["text", "t"], "text_formats", &[(&["bold", "b"], "Bold"), (&["italic", "i"], "Italic"), (&["strikethrough", "s"], "Strikethrough"), (&["underline", "u"], "Underline")]),
    o(&["valign", "va"], "vertical_align", &[(&["bottom", "b"], "Bottom"), (&["center", "c"], "Center"), (&["top", "t"], "Top")]),
    o(&["wrap", "w"], "text_wrap", &[(&["wrap", "w"], "Wrap"), (&["overflow", "o"], "Overflow"), (&["clip", "c"], "Clip")]),
    // ---- from here on the value is not one of a fixed list
    o(&["bordercolor", "bc"], "border_color", &[(&["#00ff7F"], "Some(Rgb { r: 0, g: 255, b: 127 })"), (&["a1B"], "Some(Rgb { r: 170, g: 17, b: 187 })")]),
    o(&["color", "c"], "color", &[(&["102030"], "Some(Rgb { r: 16, g: 32, b: 48 })"), (&["#fED"], "Some(Rgb { r: 255, g: 238, b: 221 })")]),
    o(&["fontcolor", "fc"], "font_color", &[(&["#0B33F0"], "Some(Rgb { r: 11, g: 51, b: 240 })"), (&["123"], "Some(Rgb { r: 17, g: 34, b: 51 })")]),
    o(&["fontfamily", "ff"], "font_family", &[(&["Arial"], "Some(\"Arial\")"), (&["'Noto Sans 2'"], "Some(\"Noto Sans 2\")")]),
    o(&["fontsize", "fs"], "font_size", &[(&["12"], "Some(12)"), (&["255"], "Some(255)")]),
    o(&["lock", "l"], "lock", &[(&[""], "true")]),
    o(&["note", "n"], "note", &[(&["'a ]] b'"], "Some(\"a ]] b\")"), (&["'it\\'s'"], "Some(\"it's\")")]),
    o(&["validate", "dv"], "data_validation", &[(&["is_date"], "Some(DateIsValid)"), (&["num_gt(5)"], "Some(NumberGreaterThan(5))")]),
    o(&["var", "v"], "var", &[(&["foo_1"], "Some(\"foo_1\")"), (&["x"], "Some(\"x\")")]),
];
const ENUMERATED: usize = 7;

/// one use of an option
#[derive(Clone)]
struct Use { src: String, attr: &'static str, value: &'static str }
fn use_of(k: usize, v: usize, name: usize, alias: usize, eq: &str, upper: usize) -> Use {
    let x = &OPTS[k];
    let (vals, value) = x.values[v];
    let mut val = vals[alias].to_string();
    if upper == 1 { val = val.to_uppercase(); } else if upper == 2 { val[..1].make_ascii_uppercase(); }
    Use { src: if val.is_empty() { x.names[name].to_string() } else { format!("{}{eq}{val}", x.names[name]) }, attr: x.attr, value }
}
/// any option with any of its values, canonically written
fn any_use(nm: &str) -> Use {
    let k = choice(OPTS.len(), nm);
    use_of(k, choice(OPTS[k].values.len(), nm), 0, 0, "=", 0)
}
fn apply(a: &mut Attrs, u: &Use) {
    if u.attr == "borders" || u.attr == "text_formats" {
        let mut s: BTreeSet<String> = a[u.attr].split('+').filter(|x| !x.is_empty()).map(String::from).collect();
        s.insert(u.value.into());
        a.insert(u.attr, s.into_iter().collect::<Vec<_>>().join("+"));
    } else { a.insert(u.attr, u.value.into()); }
}
fn same(got: &Attrs, want: &Attrs, what: &str) {
    for (k, v) in got {
        if v != &want[k] { note("got", v); note("want", &want[k]); fail(&format!("{what}: {k}")); }
    }
}
/// compile three rows of three cells, options on the middle one, and compare every attribute of all
fn grid(row: &[Use], cell: &[Use], at: usize, sep: &str, two_brackets: bool) {
    let join = |u: &[Use]| u.iter().map(|x| x.src.as_str()).collect::<Vec<_>>().join(sep);
    let mut lead = String::new();
    if two_brackets { for u in row { lead += &format!("![[{}]]", u.src); } } else if !row.is_empty() { lead = format!("![[ {} ]]", join(row)); }
    let mut cells: Vec<String> = (0..3).map(|i| if i == at && !cell.is_empty() { format!("[[{}]]y", join(cell)) } else { format!(" {i}") }).collect();
    cells[0] = format!("{lead}{}", cells[0]);
    let src = format!("p,,\n\"{}\"\nq,,\n", cells.join("\",\""));
    note("src", &src);
    limit(60_000_000);
    let m = match module(&src) { Ok(m) => m, Err(e) => { note("error", &e.to_string()); fail("options: rejected") } };
    let rows = &m.spreadsheet.rows;
    check(rows.len() == 3 && rows.iter().all(|r| r.cells.len() == 3), "options: shape of the grid");
    // everything not mentioned stays as it is for a cell without options
    let plain = attrs!(&rows[0]);
    check(plain["border_style"] == "Solid" && plain["text_wrap"] == "Wrap" && plain["lock"] == "false" && plain["borders"].is_empty() && plain["text_formats"].is_empty(), "options: documented defaults");
    for k in ["border_color", "color", "data_validation", "font_color", "font_family", "font_size", "note", "var"] { check(plain[k] == "None", "options: nothing set without an option"); }
    for i in [0, 2] {
        same(&attrs!(&rows[i]), &plain, "options: another row");
        check(rows[i].fill.is_none(), "options: fill");
        for c in &rows[i].cells { same(&attrs!(c), &plain, "options: cell of another row"); }
    }
    let mut want = plain.clone();
    for u in row { apply(&mut want, u); }
    same(&attrs!(&rows[1]), &want, "options: row");
    want.insert("var", "None".into());
    for (i, c) in rows[1].cells.iter().enumerate() {
        let mut w = want.clone();
        if i == at { for u in cell { apply(&mut w, u); } }
        same(&attrs!(c), &w, "options: cell");
        let text = if i == at && !cell.is_empty() { "y".to_string() } else { i.to_string() };
        check(c.parsed_value == text, "options: text after the options");
        check(c.ast.is_none(), "options: not a formula");
    }
    witness("set");
}

/// one option, every name, alias, value, spacing and case, on a row or a cell
pub fn c09_one() {
    warm();
    let k = choice(OPTS.len(), "option");
    let v = choice(OPTS[k].values.len(), "value");
    let upper = if k < ENUMERATED { choice(3, "case") } else { 0 };
    let u = use_of(k, v, choice(OPTS[k].names.len(), "name"), choice(OPTS[k].values[v].0.len(), "alias"), pick(&["=", " = ", "\t=\t"], "equals"), upper);
    let on = choice(4, "on");
    if on == 3 { grid(&[u], &[], 0, " ", false) } else { grid(&[], &[u], on, " ", false) }
}
/// two options in one pair of brackets: both apply, the later one wins, sets accumulate
pub fn c09_two() {
    warm();
    let (a, b) = (any_use("first"), any_use("second"));
    let sep = pick(&[" ", " / ", "\t"], "separator");
    if choice(2, "on") == 0 { grid(&[], &[a, b], 1, sep, false) } else { grid(&[a, b], &[], 0, sep, false) }
}
/// a row option is inherited by every cell of the row, and a cell option overrides it
pub fn c09_inherit() {
    warm();
    let (a, b) = (any_use("row"), any_use("cell"));
    grid(&[a], &[b], choice(3, "at"), " ", false)
}
/// three row options, in separate brackets or in one, and a cell option
pub fn c09_three() {
    warm();
    let r = [any_use("a"), any_use("b")];
    let k = choice(4, "cell");
    let c = use_of([0, 4, 2, 8][k], 1, 0, 0, "=", 0);
    grid(&r, &[c], 0, " ", choice(2, "brackets") == 1)
}
/// option names: exactly the documented ones are accepted
fn named(name: &str) {
    let arg = choice(5, "argument");
    let text = ["", "=b", "=1", "='q'", "=123"][arg];
    let on_row = choice(2, "on") == 1;
    limit(60_000_000);
    let r = module(&format!("a,b\n{}[[{name}{text}]]x,y", if on_row { "!" } else { "" }));
    let known = OPTS.iter().enumerate().find(|(_, x)| x.names.iter().any(|n| eq(n, name)));
    let ok = match known {
        Some((k, x)) if k < ENUMERATED => x.values.iter().any(|v| v.0.contains(&text.trim_start_matches('='))),
        Some((_, x)) => match x.attr { "lock" => arg == 0, "font_size" => arg == 2 || arg == 4, "font_family" | "note" => arg > 0, "var" => arg == 1 || arg == 2 || arg == 4, "data_validation" => false, _ => arg == 4 },
        None => on_row && (eq(name, "f") || eq(name, "fill")) && (arg == 0 || arg == 2 || arg == 4),
    };
    note("name", name);
    match r {
        Ok(m) => {
            check(ok, "option names: an unknown option or value is accepted");
            let rows = &m.spreadsheet.rows;
            let mut want = attrs!(&rows[0]);
            let Some((_, x)) = known else { check(rows.len() > 1 && rows[1].fill.is_some(), "option names: fill"); return witness("fill") };
            let got = if on_row { attrs!(&rows[1]) } else { attrs!(&rows[1].cells[0]) };
            want.insert(x.attr, got[x.attr].clone());
            same(&got, &want, "option names: sets another attribute");
            witness("accepted");
        }
        Err(_) => { check(!ok, "option names: a documented option is rejected"); witness("rejected") }
    }
}
pub fn c09_name() { warm(); let n = choice(4, "n"); named(&range_text(n, "name", b'a', b'z', b"")) }
/// one letter of a documented name replaced by any letter
pub fn c09_near() {
    warm();
    let all: Vec<&str> = OPTS.iter().map(|x| x.names[0]).chain(["fill"]).collect();
    let n = all[choice(all.len(), "name")];
    let at = choice(n.len(), "at");
    let c = range_text(1, "letter", b'A', b'z', b"[\\]^_`");
    named(&format!("{}{c}{}", &n[..at], &n[at + 1..]))
}
/// values of the options that have a fixed list
fn valued(k: usize, value: &str) {
    let x = &OPTS[k];
    limit(60_000_000);
    let r = module(&format!("a\n[[{}={value}]]x", x.names[0]));
    let low = value.to_ascii_lowercase();
    let want = x.values.iter().find(|v| v.0.iter().any(|n| eq(n, &low)));
    note("value", value);
    match r {
        Ok(m) => {
            let Some((_, w)) = want else { fail("option values: an undocumented value is accepted") };
            check(attrs!(&m.spreadsheet.rows[1].cells[0])[x.attr] == *w, "option values: means another one");
            witness("accepted");
        }
        Err(_) => { check(want.is_none(), "option values: a documented value is rejected"); witness("rejected") }
    }
}
pub fn c09_value() {
    warm();
    let k = choice(ENUMERATED, "option");
    let n = choice(4, "n");
    valued(k, &range_text(n, "value", b'0', b'z', b":;<=>?@[\\]^`"))
}
pub fn c09_nearvalue() {
    warm();
    let k = choice(ENUMERATED, "option");
    let v = OPTS[k].values[choice(OPTS[k].values.len(), "value")].0[0];
    let at = choice(v.len(), "at");
    let c = range_text(1, "letter", b'0', b'z', b":;<=>?@[\\]^`");
    valued(k, &format!("{}{c}{}", &v[..at], &v[at + 1..]))
}
/// colours: any three or six hexadecimal digits, with or without #
pub fn c09_color() {
    warm();
    let n = [3, 6, 2, 4, 5, 7][choice(6, "length")];
    let hash = ["", "#"][choice(2, "hash")];
    let fixed = if n > 3 { n - 3 } else { 0 };
    let sym = text(n - fixed, "digits", b"0179abfABFgz");
    let at = choice(2, "at");
    let d = if at == 0 { format!("{sym}{}", &"5cE0"[..fixed]) } else { format!("{}{sym}", &"5cE0"[..fixed]) };
    limit(60_000_000);
    let which = choice(3, "option");
    let src = format!("[[{}={hash}{d}]]x", ["color", "bordercolor", "fc"][which]);
    note("src", &src);
    let hex = |c: u8| match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None };
    let h: Option<Vec<u8>> = d.bytes().map(hex).collect();
    let want = match h {
        Some(h) if n == 3 => Some((h[0] * 17, h[1] * 17, h[2] * 17)),
        Some(h) if n == 6 => Some((h[0] * 16 + h[1], h[2] * 16 + h[3], h[4] * 16 + h[5])),
        _ => None,
    };
    match module(&src) {
        Ok(m) => {
            let c = &m.spreadsheet.rows[0].cells[0];
            let got = match which { 0 => &c.color, 1 => &c.border_color, _ => &c.font_color };
            let Some(w) = want else { fail("colours: a malformed colour is accepted") };
            let Some(g) = got else { fail("colours: not set") };
            check((g.r == w.0) & (g.g == w.1) & (g.b == w.2), "colours: another colour");
            witness("colour");
        }
        Err(_) => { check(want.is_none(), "colours: a colour is rejected"); witness("rejected") }
    }
}
/// texts: quoted with single quotes, a backslash takes the next character literally
pub fn c09_text() {
    warm();
    let n = choice(5, "n");
    quoted(&expand(&text(n, "text", b"a '\\],\x01/"), 1, "\u{e9}"), choice(3, "option"))
}
/// any characters, also after a backslash
pub fn c09_escape() {
    warm();
    let c = range_text(2, "characters", b' ', b'~', b"\"");
    let (c, d) = c.split_at(1);
    quoted(&["{C}", "\\{C}", "a\\{C}{D}", "{C}\\\\{D}", "\\{C}\\{D}b"][choice(5, "context")].replace("{C}", c).replace("{D}", d), choice(3, "option"))
}
fn quoted(s: &str, which: usize) {
    let name = ["note", "ff", "dv=text_eq"][which];
    let (open, close) = if which == 2 { ("('", "')") } else { ("='", "'") };
    limit(60_000_000);
    let src = format!("\"[[{name}{open}{s}{close} t=b]]x\"");
    note("src", &src);
    // what the reference reads: the text, then only blanks before the closing characters
    let mut want = String::new();
    let mut it = s.chars();
    let mut closed_early = false;
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some(d) => want.push(d), None => { closed_early = true; } } } else if c == '\'' { closed_early = true; break } else { want.push(c) }
    }
    let r = module(&src);
    if closed_early { if r.is_err() { witness("rejected") } return }
    let m = match r { Ok(m) => m, Err(e) => { note("error", &e.to_string()); fail("texts: rejected") } };
    let c = &m.spreadsheet.rows[0].cells[0];
    let got = match which { 0 => c.note.clone(), 1 => c.font_family.clone(), _ => { check(eq(&format!("{:?}", c.data_validation), &format!("Some(TextEqualTo({want:?}))")), "texts: another text"); Some(want.clone()) } };
    check(got.as_deref().is_some_and(|g| eq(g, &want)), "texts: another text");
    check(c.text_formats.len() == 1, "texts: the option after it");
    check(c.parsed_value == "x", "texts: the cell after it");
    witness("text");
}
/// font sizes: 0 to 255
pub fn c09_size() {
    warm();
    let n = choice(5, "n");
    let s = text(n, "size", b"0123456789");
    limit(60_000_000);
    let mut v = 0u32;
    for b in s.bytes() { v = v * 10 + u32::from(b - b'0'); }
    match module(&format!("[[fontsize={s}]]x")) {
        Ok(m) => { check(n > 0 && v < 256, "font size: out of range"); check(m.spreadsheet.rows[0].cells[0].font_size.map(u32::from) == Some(v), "font size: another one"); witness("size") }
        Err(_) => { check(n == 0 || v > 255, "font size: rejected"); witness("rejected") }
    }
}
/// row options are only allowed on the first cell, cell options only once per cell
pub fn c09_place() {
    warm();
    let k = choice(4, "k");
    let u = any_use("option");
    limit(60_000_000);
    let s = &u.src;
    let r = module(&["".to_string() + "a,![[" + s + "]]b", "[[".to_string() + s + "]][[t=b]]a", "a,[[t=b]][[".to_string() + s + "]]b", "[[fill=2 ".to_string() + s + "]]a"][k].replace('"', "\"\""));
    check(r.is_err(), "options: allowed where they cannot apply");
    witness("rejected");
}

// ---------------------------------------------------------------------------------- validations
/// documented name, documented alias, what it means
const NUM1: &[(&[&str], &str)] = &[
    (&["number_equal_to", "num_eq", "number_eq"], "NumberEqualTo"), (&["number_greater_than", "num_gt", "number_gt"], "NumberGreaterThan"),
    (&["number_greater_than_or_equal_to", "num_gte", "number_gte"], "NumberGreaterThanOrEqualTo"), (&["number_less_than", "num_lt", "number_lt"], "NumberLessThan"),
    (&["number_less_than_or_equal_to", "num_lte", "number_lte"], "NumberLessThanOrEqualTo"), (&["number_not_equal_to", "num_neq", "number_neq"], "NumberNotEqualTo")];
const NUM2: &[(&[&str], &str)] = &[(&["number_between", "num_btwn", "number_btwn"], "NumberBetween"), (&["number_not_between", "num_nbtwn", "number_nbtwn"], "NumberNotBetween")];
const DATE1: &[(&[&str], &str)] = &[(&["date_after", "date_gt"], "DateAfter"), (&["date_before", "date_lt"], "DateBefore"), (&["date_equal_to", "date_eq"], "DateEqualTo"), (&["date_on_or_after", "date_gte"], "DateOnOrAfter"), (&["date_on_or_before", "date_lte"], "DateOnOrBefore")];
const DATE2: &[(&[&str], &str)] = &[(&["date_between", "date_btwn"], "DateBetween"), (&["date_not_between", "date_nbtwn"], "DateNotBetween")];
const TEXT1: &[(&[&str], &str)] = &[(&["custom", "c"], "Custom"), (&["text_contains"], "TextContains"), (&["text_does_not_contain"], "TextDoesNotContain"), (&["text_equal_to", "text_eq"], "TextEqualTo")];
const NONE: &[(&[&str], &str)] = &[(&["date_is_valid", "is_date"], "DateIsValid"), (&["is_valid_email", "is_email", "text_is_valid_email"], "TextIsValidEmail"), (&["is_valid_url", "is_url", "text_is_valid_url"], "TextIsValidUrl")];

/// compile a validation on a cell or a row (`on`), return how the cell shows it
fn validation(v: &str, on: usize) -> Result<String, ()> {
    limit(60_000_000);
    let src = format!("\"{}[[validate={v} t=b]]x\",y", ["", "!"][on]);
    note("src", &src);
    let m = module(&src).map_err(|e| note("error", &e.to_string()))?;
    let r = &m.spreadsheet.rows[0];
    let c = &r.cells[0];
    check(c.parsed_value == "x" && c.text_formats.len() == 1, "validations: what follows it");
    check(r.data_validation.is_some() == (on == 1) && (r.cells[1].data_validation == r.data_validation), "validations: on the cell or on the row");
    Ok(format!("{:?}", c.data_validation))
}
fn expect(v: &str, want: &str) {
    match validation(v, choice(2, "on")) { Ok(g) => { note("got", &g); check(eq(&g, &format!("Some({want})")), "validations: means another one"); witness("validation") } Err(()) => fail("validations: rejected") }
}
fn entry(t: &'static [(&'static [&'static str], &'static str)]) -> (&'static str, &'static str) {
    let (names, want) = t[choice(t.len(), "validation")];
    (names[choice(names.len(), "name")], want)
}
pub fn c10_number() {
    warm();
    let neg = ["", "-"][choice(2, "sign")];
    let lead = pick(&["", "0", "1", "922337203685477580"], "lead");
    let c = text(1, "digit", b"0123456789");
    if lead.len() > 9 { assume(c.as_bytes()[0] < b'8'); }
    let d = format!("{lead}{c}");
    let shown = if lead.len() > 1 || lead == "1" { format!("{neg}{d}") } else if c == "0" { c.clone() } else { format!("{neg}{c}") };
    if choice(2, "arity") == 0 {
        let (name, want) = entry(NUM1);
        expect(&format!("{name}{}{neg}{d}{}", pick(&["(", " ( ", "\t(\n"], "open"), pick(&[")", " )", "\n\t)"], "close")), &format!("{want}({shown})"))
    } else {
        let (name, want) = entry(NUM2);
        if choice(2, "which") == 0 { expect(&format!("{name}({neg}{d} 70)"), &format!("{want}({shown}, 70)")) } else { expect(&format!("{name}( -5 {neg}{d} )"), &format!("{want}(-5, {shown})")) }
    }
}
pub fn c10_text() {
    warm();
    let (name, want) = entry(TEXT1);
    let n = 1 + choice(3, "n");
    let quoted = choice(2, "quoted") == 1;
    let s = text(n, "text", if quoted { b"aB1 =()>," } else { b"aB1" });
    let arg = if quoted { format!("'{s}'") } else { s.clone() };
    expect(&format!("{name}({arg})"), &format!("{want}(\"{s}\")"))
}
pub fn c10_none() {
    warm();
    let (name, want) = entry(NONE);
    expect(name, want)
}
/// any day, written in either order of the notations
pub fn c10_date() {
    warm();
    let arity = choice(2, "arity");
    let (name, want) = if arity == 0 { entry(DATE1) } else { entry(DATE2) };
    let d = format!("{}{}", choice(4, "tens"), text(1, "day", b"0123456789"));
    let month = ["01", "02", "04", "12", "13", "00"][choice(6, "month")];
    let year = ["2023", "2024", "1999", "1900"][choice(4, "year")];
    let written = match choice(3, "notation") { 0 => format!("{month}/{d}/{year}"), 1 => format!("{year}-{month}-{d}"), _ => format!("{}/{d}/{year}", month.strip_prefix('0').unwrap_or(month)) };
    let (b0, b1) = (d.as_bytes()[0] - b'0', d.as_bytes()[1] - b'0');
    let day = b0 * 10 + b1;
    let last = match month { "02" => if year == "2024" { 29 } else { 28 }, "04" => 30, _ => 31 };
    let ok = (day >= 1) & (day <= last) & (month != "13") & (month != "00");
    let iso = format!("{year}-{month}-{d}");
    let (src, want) = match (arity, if arity == 1 { choice(2, "which") } else { 0 }) {
        (0, _) => (format!("{name}({written})"), format!("Some({want}(Date({iso})))")),
        (_, 0) => (format!("{name}({written} 12/31/2024)"), format!("Some({want}(Date({iso}), Date(2024-12-31)))")),
        _ => (format!("{name}(1/2/1990 {written})"), format!("Some({want}(Date(1990-01-02), Date({iso})))")),
    };
    match validation(&src, 0) {
        Ok(g) => { note("got", &g); check(ok, "dates: a day that does not exist is accepted"); check(eq(&g, &want), "dates: another day"); witness("validation") }
        Err(()) => { check(!ok, "dates: rejected"); witness("rejected") }
    }
}
/// lists: dates, numbers, quoted strings and words, in order
pub fn c10_list() {
    warm();
    let n = 1 + choice(3, "n");
    let mut src = String::new();
    let mut want = Vec::new();
    for i in 0..n {
        let (s, w): (String, String) = match choice(5, "item") {
            0 => { let d = text(1, "digit", b"0123456789"); (format!("-1{d}"), format!("Integer {{ percentage: false, sign: None, value: -1{d} }}")) }
            1 => { let d = text(1, "digit", b"123456789"); (format!("{d}.15"), format!("Float {{ percentage: false, sign: None, value: {d}.15 }}")) }
            2 => { let t = text(2, "text", b"a ,(1"); (format!("'{t}'"), format!("Text(\"{t}\")")) }
            3 => { let t = text(2, "word", b"ab_"); (t.clone(), format!("Reference(\"{t}\")")) }
            _ => ("1/2/2023".into(), "DateTime(Date(2023-01-02))".into()),
        };
        if i > 0 { src.push(' '); }
        src += &s;
        want.push(w);
    }
    limit(60_000_000);
    let src = format!("\"[[dv={}({src}) t=b]]x\"", pick(&["in_list", "value_in_list"], "name"));
    note("src", &src);
    let m = match module(&src) { Ok(m) => m, Err(e) => { note("error", &e.to_string()); fail("lists: rejected") } };
    let c = &m.spreadsheet.rows[0].cells[0];
    let got = format!("{:?}", c.data_validation);
    note("got", &got);
    check(c.text_formats.len() == 1 && c.parsed_value == "x", "lists: what follows");
    let want = format!("Some(ValueInList([{}]))", want.iter().map(|w| format!("Ast({w})")).collect::<Vec<_>>().join(", "));
    note("want", &want);
    check(eq(&got, &want), "lists: other values");
    witness("list");
}
/// ranges: cells, columns, rows and rectangles, with or without $ and a sheet
pub fn c10_range() {
    warm();
    let n = 1 + choice(4, "n");
    let s = text(n, "range", b"AZ1$:b");
    let lead = ["", "Sheet1!", "B2:"][choice(3, "lead")];
    let r = validation(&format!("in_range({lead}{s})"), 0);
    // the reference: [sheet!] cell | cell:cell | column:column | row:row
    let col = |p: &str| { let p = p.strip_prefix('$').unwrap_or(p); !p.is_empty() && p.bytes().all(|c| c.is_ascii_alphabetic()) };
    let row = |p: &str| { let p = p.strip_prefix('$').unwrap_or(p); !p.is_empty() && p.bytes().all(|c| c.is_ascii_digit()) };
    let cell = |p: &str| (1..p.len()).any(|i| col(&p[..i]) && row(&p[i..]));
    let text = format!("{}{s}", if lead == "B2:" { lead } else { "" });
    let ok = match text.split_once(':') {
        Some((a, b)) => (cell(a) && cell(b)) || (col(a) && col(b)) || (row(a) && row(b)),
        None => cell(&text),
    };
    match r {
        Ok(g) => { note("got", &g); check(ok, "ranges: a malformed range is accepted"); check(eq(&g, &format!("Some(ValueInRange({:?}))", a1::new(&format!("{lead}{s}")).unwrap())), "ranges: another range"); witness("range") }
        Err(()) => { check(!ok, "ranges: rejected"); witness("rejected") }
    }
}
