//! C18: what is sent to Google Sheets.
use crate::options::OPTS;
use crate::pipe::*;
use crate::vf::*;
use crate::xlsx::{any_option, cell_at, quoted};
use csvpp::verif::{api, batch_update};
use std::collections::BTreeMap;

type Cells = Vec<Vec<api::CellData>>;
/// the rows that are sent and where the first of them goes
struct Sent { rows: Cells, column: i32, row: i32 }

/// Puts the requests together again: each one starts at the row after the one before it.
fn sent(src: &str, existing: Cells, change: impl FnOnce(&mut csvpp::CliArgs)) -> Result<Sent, csvpp::Error> {
    std::fs::write("main.csvpp", src).unwrap();
    let mut a = csvpp::CliArgs { google_sheet_id: Some("sheet-1_X".into()), output_filename: None, ..args("main.csvpp", "") };
    change(&mut a);
    note("src", &if src.len() > 200 { format!("{} bytes", src.len()) } else { src.into() });
    let c = csvpp::Compiler::try_from(&a)?;
    let m = c.compile()?;
    let (mut rows, mut start): (Cells, Option<(i32, i32)>) = (vec![], None);
    for r in batch_update(&c, &m, existing).requests.unwrap_or_default() {
        let Some(u) = r.update_cells else { fail("sheets: a request that updates no cells") };
        let Some(at) = u.start else { fail("sheets: no place to write to") };
        check(u.range.is_none() && at.sheet_id.is_none(), "sheets: a range or a sheet");
        check(u.fields.is_some_and(|f| f.to_string() == "*"), "sheets: fields");
        let at = (at.column_index.unwrap_or(0), at.row_index.unwrap_or(0));
        match start {
            None => start = Some(at),
            Some(s) => check(at == (s.0, s.1 + rows.len() as i32), "sheets: where the next rows go"),
        }
        for r in u.rows.unwrap_or_default() { rows.push(r.values.unwrap_or_default()); }
    }
    let (column, row) = start.unwrap_or((0, 0));
    Ok(Sent { rows, column, row })
}
fn must(r: Result<Sent, csvpp::Error>) -> Sent { match r { Ok(b) => b, Err(e) => { note("error", &e.to_string()); fail("sheets: rejected") } } }
fn plainly(src: &str) -> Sent { must(sent(src, vec![], |_| ())) }
fn value(c: &api::CellData) -> (&'static str, String) {
    let Some(v) = &c.user_entered_value else { return ("", String::new()) };
    match (v.bool_value, v.number_value, &v.string_value, &v.formula_value) {
        (Some(b), None, None, None) => ("boolean", if b { "TRUE" } else { "FALSE" }.into()),
        (None, Some(n), None, None) => ("number", n.to_string()),
        (None, None, Some(s), None) => ("text", s.clone()),
        (None, None, None, Some(f)) => ("formula", f.clone()),
        _ => fail("sheets: a value of two kinds or none"),
    }
}
fn color(c: &Option<api::ColorStyle>) -> String {
    let Some(c) = c else { return String::new() };
    check(c.theme_color.is_none(), "sheets: theme colour");
    let Some(c) = &c.rgb_color else { return String::new() };
    check(c.alpha.is_none_or(|a| a == 1.0), "sheets: a transparent colour");
    // 255 shades of each colour, as parts of 1
    let part = |p: Option<f32>| { let p = p.unwrap_or(0.0); check((0.0..=1.0).contains(&p), "sheets: part of a colour"); format!("{:02X}", (p * 255.0).round() as u8) };
    format!("{}{}{}", part(c.red), part(c.green), part(c.blue))
}
type Look = BTreeMap<&'static str, String>;
const SIDES: [&str; 4] = ["Left", "Right", "Top", "Bottom"];
fn look(c: &api::CellData) -> Look {
    let f = c.user_entered_format.clone().unwrap_or_default();
    let mut m = Look::new();
    m.insert("background", color(&f.background_color_style));
    check(f.background_color.is_none() && f.text_rotation.is_none() && f.padding.is_none(), "sheets: a format that there is no option for");
    let t = f.text_format.unwrap_or_default();
    for (k, v) in [("Bold", t.bold), ("Italic", t.italic), ("Strikethrough", t.strikethrough), ("Underline", t.underline)] { m.insert(k, v.unwrap_or(false).to_string()); }
    m.insert("font name", t.font_family.unwrap_or_default());
    m.insert("font size", t.font_size.map_or(String::new(), |s| s.to_string()));
    check(t.foreground_color.is_none() && t.link.is_none(), "sheets: a text format that there is no option for");
    m.insert("font color", color(&t.foreground_color_style));
    let b = f.borders.unwrap_or_default();
    for (k, b) in [("Left", b.left), ("Right", b.right), ("Top", b.top), ("Bottom", b.bottom)] {
        m.insert(k, b.map_or(String::new(), |b| format!("{} {}", b.style.unwrap_or_default(), color(&b.color_style))));
    }
    m.insert("horizontal", f.horizontal_alignment.unwrap_or_default());
    m.insert("vertical", f.vertical_alignment.unwrap_or_default());
    m.insert("wrap", f.wrap_strategy.unwrap_or_default());
    m.insert("format", f.number_format.map_or(String::new(), |n| { check(n.pattern.is_none(), "sheets: number pattern"); n.type_.unwrap_or_default() }));
    m.insert("note", c.note.clone().unwrap_or_default());
    m.insert("validation", rule(c));
    m
}
fn rule(c: &api::CellData) -> String {
    let Some(c) = c.data_validation.as_ref().and_then(|d| d.condition.as_ref()) else { return String::new() };
    let v: Vec<_> = c.values.iter().flatten().map(|v| { check(v.relative_date.is_none(), "sheets: relative date"); v.user_entered_value.clone().unwrap_or_default() }).collect();
    format!("{} {}", c.type_.clone().unwrap_or_default(), v.join("|"))
}

/// the cell at (x, y) holds it and nothing else is there
fn placed(s: &Sent, x: usize, y: usize, kind: &str, text: &str) {
    check(s.rows.len() == y + 1 && s.rows[y].len() == x + 1, "sheets: shape");
    for (j, r) in s.rows.iter().enumerate() { for (i, c) in r.iter().enumerate() {
        if (i, j) != (x, y) { check(value(c).0.is_empty(), "sheets: a value where there is none"); }
    } }
    let (k, v) = value(&s.rows[y][x]);
    note("kind", k);
    note("value", &v);
    if kind.is_empty() && k == "number" {
        // (what looks like a number is sent as a text, but would be as good as a number)
        check(v.parse::<f64>() == text.parse::<f64>(), "sheets: value");
        return witness("text");
    }
    let kind = if kind.is_empty() { "text" } else { kind };
    check(k == kind, "sheets: kind of value");
    check(eq(&v, text), "sheets: value");
    witness(kind);
}
pub fn c18_text() {
    warm();
    let n = 1 + choice(3, "n");
    let t = text(n, "text", b"a1 .-e%=");
    assume(!t.starts_with(['=', ' ']) && !t.ends_with(' '));
    let (x, y) = ([0, 1, 26][choice(3, "x")], [0, 1, 9][choice(3, "y")]);
    if x + y == 0 { assume(!t.starts_with("--")); }
    placed(&plainly(&cell_at(x, y, &t)), x, y, "", &t)
}
pub fn c18_literal() {
    warm();
    let (src, kind, want) = match choice(6, "literal") {
        0 => { let d = format!("{}{}", text(1, "digit", b"123456789"), pick(&["", "0", "23", "6777217", "429496729600"], "more")); (d.clone(), "number", d) }
        1 => { let d = format!("{}.{}", text(1, "digit", b"0123456789"), pick(&["5", "25"], "fraction")); (d.clone(), "number", d) }
        2 => { let b = choice(2, "bool") == 1; (["false", "true"][usize::from(b)].to_string(), "boolean", if b { "TRUE".into() } else { "FALSE".into() }) }
        3 => { let n = 1 + choice(2, "n"); let t = text(n, "text", b"a 1=,;(&'<"); (format!("\"\"{t}\"\""), "text", t) }
        4 => { let n = 1 + choice(2, "n"); let t = text(n, "text", b"ab1"); assume(t.as_bytes()[0] != b'1'); (format!("x_{t}"), "formula", format!("=x_{t}")) }
        _ => { let d = text(1, "digit", b"123456789"); let s = pick(&["-", "+", "%"], "sign"); let v = if s == "%" { format!("{d}%") } else { format!("{s}{d}") }; (v.clone(), "signed", format!("={v}")) }
    };
    let (x, y) = (choice(2, "x"), choice(2, "y"));
    let s = plainly(&cell_at(x, y, &format!("\"={src}\"")));
    if kind == "signed" {
        // a percentage and a signed number may be either
        let (k, v) = value(&s.rows[y][x]);
        note("value", &v);
        check((k == "formula" && eq(&v, &want)) || (k == "number" && !src.ends_with('%') && eq(&v, src.trim_start_matches('+'))), "sheets: signed number");
        return witness("signed");
    }
    placed(&s, x, y, kind, &want)
}
/// a formula is the same one that is written to CSV
pub fn c18_formula() {
    warm();
    let n = 1 + choice(3, "n");
    let f = format!("{}{}", pick(&["=A1+", "=SUM(", "=b&", "=v*"], "start"), text(n, "formula", b"1AB(),:2+"));
    let src = format!("v := 1 + C3\n---\nx,\"{f}\",[[var=b]]y\n");
    limit(40_000_000);
    let csv = match to_csv(&src) { Ok(o) => o, Err(_) => { check(sent(&src, vec![], |_| ()).is_err(), "sheets: accepts what CSV rejects"); return witness("rejected") } };
    let want = &cells(&csv).unwrap()[0][1];
    let (k, v) = value(&plainly(&src).rows[0][1]);
    note("formula", &v);
    note("csv", want);
    check(k == "formula" && eq(&v, want), "sheets: another formula");
    witness("formula");
}
/// fills, variables and functions: cell by cell what is written to CSV
pub fn c18_grid() {
    warm();
    let d = text(1, "row", b"123");
    let src = match choice(4, "program") {
        0 => format!("fn f(a, b) a * (b + 1)\n---\n![[fill=2]]\"=f(A{d}, 2)\",x,=A{d}\nlast,,\"=f(1, B2)\"\n"),
        1 => format!("---\n[[var=v]]1,=v,=SUM(v)\n![[f={d}]][[v=w]]a,=w,=v+1\nend,=w\n"),
        2 => format!("t := A{d}\n---\n,,\n=t,\"=IF(t > 2, \"\"y\"\", t)\",z\n,b\n"),
        _ => format!("n := {d}\n---\n![[f={d} / var=r]]=n,=ADD(r)\n=r,=n * r,\"a,b\"\n"),
    };
    limit(60_000_000);
    let want = cells(&match to_csv(&src) { Ok(o) => o, Err(e) => { note("error", &e.to_string()); fail("sheets: program rejected") } }).unwrap();
    let s = plainly(&src);
    check(s.rows.len() == want.len(), "sheets: number of rows");
    for (got, want) in s.rows.iter().zip(&want) {
        for (i, w) in want.iter().enumerate() {
            let (k, v) = got.get(i).map_or(("", String::new()), value);
            let ok = match k { "formula" => eq(&v, w), "number" => v == *w || format!("={v}") == *w, "text" => eq(&v, w), "" => w.is_empty(), _ => false };
            if !ok { note("got", &v); note("want", w); fail("sheets: another value than in CSV"); }
        }
        check(got.len() <= want.len(), "sheets: too many cells in a row");
    }
    witness("grid");
}
fn expect(plain: &Look, uses: &[(&str, &str)]) -> Look {
    let mut m = plain.clone();
    let rgb = |v: &str| crate::xlsx::rgb(v)[2..].to_string();
    let (mut sides, mut style, mut color) = (vec![], "SOLID", String::new());
    for (attr, v) in uses {
        match *attr {
            "borders" => sides.push(*v),
            "border_style" => style = match *v { "Dashed" => "DASHED", "Dotted" => "DOTTED", "Double" => "DOUBLE", "Solid" => "SOLID", "SolidMedium" => "SOLID_MEDIUM", _ => "SOLID_THICK" },
            "border_color" => color = rgb(v),
            "color" => { m.insert("background", rgb(v)); }
            "font_color" => { m.insert("font color", rgb(v)); }
            "font_family" => { m.insert("font name", quoted(v)); }
            "font_size" => { m.insert("font size", quoted(v)); }
            "horizontal_align" => { m.insert("horizontal", v.to_uppercase()); }
            "vertical_align" => { m.insert("vertical", if *v == "Center" { "MIDDLE".into() } else { v.to_uppercase() }); }
            "text_wrap" => { m.insert("wrap", match *v { "Wrap" => "WRAP", "Clip" => "CLIP", _ => "OVERFLOW_CELL" }.into()); }
            "text_formats" => { m.insert(["Bold", "Italic", "Strikethrough", "Underline"].into_iter().find(|t| t == v).unwrap(), "true".into()); }
            "number_format" => { m.insert("format", if *v == "DateTime" { "DATE_TIME".into() } else { v.to_uppercase() }); }
            "note" => { m.insert("note", quoted(v)); }
            "data_validation" => { m.insert("validation", if v.contains("Date") { "DATE_IS_VALID ".into() } else { "NUMBER_GREATER 5".into() }); }
            _ => (),
        }
    }
    for s in SIDES { if sides.contains(&s) || sides.contains(&"All") { m.insert(s, format!("{style} {color}")); } }
    m
}
type Use = (String, &'static str, &'static str);
/// three rows of three cells, options on the middle row and on one of its cells
fn styled(row: &[Use], cell: &[Use], x: usize) {
    let join = |u: &[Use]| u.iter().map(|o| o.0.as_str()).collect::<Vec<_>>().join(" ");
    let mut c = ["1".to_string(), "2".into(), "3".into()];
    if !cell.is_empty() { c[x] = format!("[[{}]]{}", join(cell), x + 1); }
    if !row.is_empty() { c[0] = format!("![[{}]]{}", join(row), c[0]); }
    limit(80_000_000);
    let s = plainly(&format!("p,,\n\"{}\"\nq,,\n", c.join("\",\"")));
    check(s.rows.len() == 3 && s.rows.iter().all(|r| r.len() == 3), "sheets: shape");
    let plain = look(&s.rows[0][0]);
    for k in ["background", "font name", "font size", "font color", "note", "validation"].iter().chain(&SIDES) { check(plain[k].is_empty(), "sheets: a format without options"); }
    for k in ["Bold", "Italic", "Strikethrough", "Underline"] { check(plain[k] == "false", "sheets: a font without options"); }
    for (y, i) in (0..3).flat_map(|y| (0..3).map(move |i| (y, i))) {
        let mut uses: Vec<(&str, &str)> = vec![];
        if y == 1 { uses.extend(row.iter().map(|o| (o.1, o.2))); }
        if y == 1 && i == x { uses.extend(cell.iter().map(|o| (o.1, o.2))); }
        let (got, want) = (look(&s.rows[y][i]), expect(&plain, &uses));
        for (k, v) in &got {
            if eq(v, &want[k]) { continue; }
            note("got", v);
            note("want", &want[k]);
            fail(&format!("{}: {k}", if y == 1 { "sheets: style" } else { "sheets: style of another row" }));
        }
        if y == 1 { check(eq(&value(&s.rows[y][i]).1, &(i + 1).to_string()), "sheets: value beside options"); }
    }
    witness("styled");
}
pub fn c18_style() { warm(); let o = any_option("option"); if choice(2, "on") == 0 { styled(&[], &[o], choice(3, "at")) } else { styled(&[o], &[], 0) } }
pub fn c18_two() { warm(); styled(&[], &[any_option("first"), any_option("second")], 1) }
pub fn c18_inherit() { warm(); styled(&[any_option("row")], &[any_option("cell")], choice(2, "at")) }
pub fn c18_border() {
    warm();
    let side = |n: &str| { let v = &OPTS[0].values[choice(5, n)]; (format!("b={}", v.0[0]), "borders", v.1) };
    let v = &OPTS[1].values[choice(6, "style")];
    let mut o = vec![side("first"), side("second"), (format!("bs={}", v.0[0]), "border_style", v.1)];
    if choice(2, "color") == 1 { o.push(("bc=#0B33F0".into(), "border_color", "Rgb { r: 11, g: 51, b: 240 }")); }
    styled(&[], &o, 2)
}
/// every colour
pub fn c18_color() {
    warm();
    let (name, key) = [("color", "background"), ("fontcolor", "font color"), ("bordercolor", "Left")][choice(3, "option")];
    let hex = text(2, "hex", b"0123456789abcdefABCDEF");
    let six = choice(2, "digits") == 0;
    let written = if six { format!("{hex}080f") } else { format!("{hex}c") };
    let up = hex.to_uppercase();
    let b = up.as_bytes();
    let want = if six { format!("{up}080F") } else { format!("{0}{0}{1}{1}CC", b[0] as char, b[1] as char) };
    let got = look(&plainly(&format!("x,[[{name}={written} b=l]]y")).rows[0][1])[key].clone();
    note("got", &got);
    check(eq(got.strip_prefix("SOLID ").unwrap_or(&got), &want), "sheets: colour");
    witness("color");
}
/// any note, on any cell
pub fn c18_note() {
    warm();
    let n = 1 + choice(3, "n");
    let t = text(n, "note", b"a ,]=\"<");
    let (x, y) = ([0, 1, 26][choice(3, "x")], choice(3, "y"));
    let second = choice(2, "second") == 1;
    let src = format!("a := 1\n---\n{}{}\"[[n='{}']]v\"{}", ",\n".repeat(y), ",".repeat(x), t.replace('"', "\"\""), if second { ",[[note='z']]w" } else { "" });
    for (j, r) in plainly(&src).rows.iter().enumerate() { for (i, c) in r.iter().enumerate() {
        let want = if j == y && i == x { &t } else if second && j == y && i == x + 1 { "z" } else { "" };
        check(eq(c.note.as_deref().unwrap_or(""), want), "sheets: note");
    } }
    witness("note");
}
fn ruled(dv: &str, want: &[&str]) {
    let (x, y) = (choice(2, "x"), choice(2, "y"));
    let src = format!("a := 1\n---\n{}{}\"[[dv={}]]v\"", ",\n".repeat(y), ",".repeat(x), dv.replace('"', "\"\""));
    limit(60_000_000);
    for (j, r) in plainly(&src).rows.iter().enumerate() { for (i, c) in r.iter().enumerate() {
        let got = rule(c);
        if (i, j) != (x, y) { check(got.is_empty(), "sheets: validation of another cell"); continue; }
        note("validation", &got);
        note("want", want[0]);
        check(want.iter().any(|w| eq(&got, w)), "sheets: validation");
    } }
    witness("validation");
}
pub fn c18_number_rules() {
    warm();
    let d = format!("{}{}", pick(&["", "-", "-7", "12"], "lead"), text(1, "digit", b"123456789"));
    let (n, t) = [("gt", "GREATER"), ("gte", "GREATER_THAN_EQ"), ("lt", "LESS"), ("lte", "LESS_THAN_EQ"), ("eq", "EQ"), ("neq", "NOT_EQ"), ("btwn", "BETWEEN"), ("nbtwn", "NOT_BETWEEN")][choice(8, "rule")];
    let two = n.ends_with("btwn");
    let v = if two { format!("{d} 300") } else { d.clone() };
    ruled(&format!("num_{n}({v})"), &[&format!("NUMBER_{t} {}", v.replace(' ', "|"))])
}
pub fn c18_date_rules() {
    warm();
    let d = format!("{}-{}-0{}", pick(&["1900", "1999", "2024"], "year"), pick(&["01", "02", "12"], "month"), text(1, "day", b"123456789"));
    let (n, t) = [("gt", "AFTER"), ("gte", "ON_OR_AFTER"), ("lt", "BEFORE"), ("lte", "ON_OR_BEFORE"), ("eq", "EQ"), ("btwn", "BETWEEN"), ("nbtwn", "NOT_BETWEEN")][choice(7, "rule")];
    let v = if n.ends_with("btwn") { format!("{d} 2030-06-01") } else { d };
    ruled(&format!("date_{n}({v})"), &[&format!("DATE_{t} {}", v.replace(' ', "|"))])
}
pub fn c18_text_rules() {
    warm();
    let n = 1 + choice(3, "n");
    let t = text(n, "text", b"a1 \"=,(");
    let (dv, want) = match choice(4, "rule") {
        0 => (format!("text_contains('{t}')"), format!("TEXT_CONTAINS {t}")),
        1 => (format!("text_does_not_contain('{t}')"), format!("TEXT_NOT_CONTAINS {t}")),
        2 => (format!("text_eq('{t}')"), format!("TEXT_EQ {t}")),
        _ => (format!("custom('{t}')"), format!("CUSTOM_FORMULA ={}", t.strip_prefix('=').unwrap_or(&t))),
    };
    note("rule", &dv);
    ruled(&dv, &[&want])
}
pub fn c18_other_rules() {
    warm();
    let (dv, want) = match choice(6, "rule") {
        0 => ("is_date".into(), vec!["DATE_IS_VALID ".to_string()]),
        1 => ("is_email".into(), vec!["TEXT_IS_EMAIL ".to_string()]),
        2 => ("is_url".into(), vec!["TEXT_IS_URL ".to_string()]),
        3 => { let d = text(1, "digit", b"123456789"); (format!("in_range(A{d}:B9)"), vec![format!("ONE_OF_RANGE A{d}:B9"), format!("ONE_OF_RANGE =A{d}:B9")]) }
        4 => { let d = text(1, "digit", b"123456789"); (format!("in_list({d} 'x y' -2)"), vec![format!("ONE_OF_LIST {d}|x y|-2")]) }
        _ => { let t = text(2, "word", b"ab_"); (format!("in_list({t} '{t} {t}')"), vec![format!("ONE_OF_LIST {t}|{t} {t}")]) }
    };
    note("rule", &dv);
    ruled(&dv, &want.iter().map(String::as_str).collect::<Vec<_>>())
}
const KINDS: usize = 6;
/// what a sheet holds already; kinds 0 and 1 have no value
fn old(kind: usize, text: &str) -> api::CellData {
    let mut c = api::CellData::default();
    if kind == 0 { return c; }
    c.user_entered_format = Some(api::CellFormat { horizontal_alignment: Some("OLD".into()), ..Default::default() });
    c.user_entered_value = match kind {
        1 => None,
        2 => Some(api::ExtendedValue { string_value: Some(text.into()), ..Default::default() }),
        3 => Some(api::ExtendedValue { number_value: Some(41.5), ..Default::default() }),
        4 => Some(api::ExtendedValue { formula_value: Some(format!("=SUM({text})")), ..Default::default() }),
        _ => Some(api::ExtendedValue { bool_value: Some(true), ..Default::default() }),
    };
    if kind == 2 { c.note = Some("old note".into()); }
    c.effective_value = c.user_entered_value.clone();
    c
}
/// a sheet that already holds something
fn over(existing: Cells, new: &[Vec<&str>], safe: bool, (ox, oy): (u32, u32)) {
    let src: String = new.iter().map(|r| r.join(",") + "\n").collect();
    let s = must(sent(&format!("a := 1\n---\n{src}"), existing.clone(), |a| { a.safe = safe; a.x_offset = ox; a.y_offset = oy; }));
    check(s.rows.len() == new.len(), "sheets: number of rows");
    check(new.is_empty() || (s.column, s.row) == (ox as i32, oy as i32), "sheets: offset");
    for (j, row) in s.rows.iter().enumerate() {
        let there = existing.get(j + oy as usize);
        check(row.len() >= new[j].len(), "sheets: a cell is missing");
        // a cell that isn't sent is left alone, one that is sent replaces what is there
        for (i, c) in row.iter().enumerate() {
            let before = there.and_then(|r| r.get(i + ox as usize)).cloned().unwrap_or_default();
            let (k, v) = value(c);
            let keep = i >= new[j].len() || (safe && before.user_entered_value.is_some());
            if keep {
                check((k, &v) == (value(&before).0, &value(&before).1), "sheets: an existing value is changed");
                let align = |c: &api::CellData| c.user_entered_format.as_ref().and_then(|f| f.horizontal_alignment.clone());
                check(align(c) == align(&before) && c.note == before.note, "sheets: an existing format or note is changed");
                witness("kept");
            } else {
                let w = new[j][i];
                note("value", &v);
                check(match w.strip_prefix('=') { Some(_) => k == "formula" || k == "number", None => k == if w.is_empty() { "" } else { "text" } }, "sheets: kind of a new value");
                check(eq(v.trim_start_matches('='), w.trim_start_matches('=')), "sheets: a new value");
                check(c.note.is_none(), "sheets: a note from before");
                witness("written");
            }
        }
    }
}
pub fn c18_existing() {
    warm();
    let new = [vec![pick(&["", "a", "=SUM(A1)"], "new"), "b", "=3"], vec!["c"]];
    let t = text(1, "old text", b"x= \"");
    let existing = vec![vec![old(choice(KINDS, "k1"), &t), old(choice(KINDS, "k2"), &t)], vec![old(2, "p"), old(choice(KINDS, "k3"), "q"), old(3, "")], vec![old(2, "r")]];
    over(existing, &new, choice(2, "safe") == 1, (0, 0))
}
/// an offset: what is at the new place of a cell counts
pub fn c18_offset() {
    warm();
    let at = (choice(3, "x") as u32, choice(3, "y") as u32);
    let t = text(1, "new", b"abc");
    let new = [vec![t.as_str(), "", "=A1"], vec!["d", "e"]];
    let rows = choice(5, "rows");
    let existing: Cells = (0..rows).map(|j| (0..choice(4, "columns")).map(|i| old(if (i + j) % 3 == 2 { 1 } else { 2 }, &format!("o{i}{j}"))).collect()).collect();
    over(existing, &new, choice(2, "safe") == 1, at)
}
/// more rows than go into one request
pub fn c18_many() {
    warm();
    let n = [1, 998, 999, 1000, 1001, 1999, 2000, 2001][choice(8, "rows")];
    let t = text(1, "text", b"abc");
    limit(400_000_000);
    let (ox, oy) = (choice(2, "x"), choice(2, "y"));
    let src = format!("{t}\n{}z,{t}{t}\n", "m\n".repeat(n - 1));
    let s = must(sent(&src, vec![], |a| { a.x_offset = ox as u32; a.y_offset = 7 * oy as u32; }));
    check(s.rows.len() == n + 1 && (s.column, s.row) == (ox as i32, 7 * oy as i32), "sheets: all rows at their place");
    check(s.rows.iter().enumerate().all(|(i, r)| eq(&value(&r[0]).1, if i == 0 { &t } else if i < n { "m" } else { "z" })) && eq(&value(&s.rows[n][1]).1, &format!("{t}{t}")), "sheets: value in one of many rows");
    witness("rows");
}
/// which sheet is written to
pub fn c18_id() {
    let n = 1 + choice(4, "n");
    let id = text(n, "id", b"aZ09-_");
    std::fs::write("main.csvpp", "a").unwrap();
    let mut a = csvpp::CliArgs { google_sheet_id: Some(id.clone()), ..args("main.csvpp", "other.csv") };
    if choice(2, "file too") == 0 { a.output_filename = None; }
    match csvpp::Compiler::try_from(&a) {
        Ok(c) => { let o = c.output.to_string(); note("output", &o); check(eq(&o, &format!("https://docs.google.com/spreadsheets/d/{id}")), "sheets: another sheet"); witness("sheet") }
        Err(e) => { note("error", &e.to_string()); fail("sheets: the id of a sheet is rejected") }
    }
}
