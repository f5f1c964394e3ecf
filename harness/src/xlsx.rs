//! C16: what is written to an Excel file.  C17: what happens to a workbook that already exists.
use crate::pipe::*;
use crate::vf::*;
use crate::options::OPTS;
use std::collections::BTreeMap;
use std::io::Read;
use std::path::Path;
use std::sync::Mutex;
use umya_spreadsheet as u;

// ---- the file format ---------------------------------------------------------------------
// Turning a workbook into the bytes of an .xlsx file (XML, deflate) and back is the business of the
// umya-spreadsheet crate.  Inside the engine its `make_buffer` and `read_reader` arrive here: the
// bytes are the name of the workbook, and reading them gives that workbook again.  After
// `real_books(true)`, and in a replay, they run as they are.
static BOOKS: Mutex<Vec<u::Spreadsheet>> = Mutex::new(Vec::new());

#[no_mangle]
#[inline(never)]
pub fn vf_xlsx_bytes(book: &u::Spreadsheet, _light: bool) -> Result<Vec<u8>, u::XlsxError> {
    let mut k = BOOKS.lock().unwrap();
    k.push(book.clone());
    Ok(format!("workbook {}", k.len() - 1).into_bytes())
}
#[no_mangle]
#[inline(never)]
pub fn vf_xlsx_parse(mut file: std::fs::File, _sheets: bool) -> Result<u::Spreadsheet, u::XlsxError> {
    let mut s = String::new();
    file.read_to_string(&mut s).map_err(u::XlsxError::Io)?;
    let Some(n) = s.strip_prefix("workbook ").and_then(|n| n.parse::<usize>().ok()) else { return Err(u::XlsxError::CellError("not a workbook".into())) };
    Ok(BOOKS.lock().unwrap()[n].clone())
}

// ---- what a workbook shows ---------------------------------------------------------------
type Look = BTreeMap<&'static str, String>;
const SIDES: [&str; 4] = ["Left", "Right", "Top", "Bottom"];
fn look(c: Option<&u::Cell>) -> Look {
    let d = u::Style::default();
    let s = c.map_or(&d, |c| c.get_style());
    let mut m = Look::new();
    m.insert("background", s.get_background_color().map_or(String::new(), |c| c.get_argb().to_uppercase()));
    let f = s.get_font();
    m.insert("Bold", f.is_some_and(|f| *f.get_bold()).to_string());
    m.insert("Italic", f.is_some_and(|f| *f.get_italic()).to_string());
    m.insert("Strikethrough", f.is_some_and(|f| *f.get_strikethrough()).to_string());
    m.insert("Underline", f.is_some_and(|f| *f.get_font_underline().get_val() == u::UnderlineValues::Single).to_string());
    // a font of its own has no name and no size where none was asked for; the workbook's is Calibri 11
    m.insert("font name", f.map_or(String::new(), |f| if f.get_name() == "Calibri" { String::new() } else { f.get_name().into() }));
    m.insert("font size", f.map_or(String::new(), |f| if *f.get_size() == 11.0 || *f.get_size() == 0.0 { String::new() } else { f.get_size().to_string() }));
    m.insert("font color", f.map_or(String::new(), |f| f.get_color().get_argb().to_uppercase()).replace("FF000000", ""));
    let b = s.get_borders();
    for (side, b) in [("Left", b.map(|b| b.get_left())), ("Right", b.map(|b| b.get_right())), ("Top", b.map(|b| b.get_top())), ("Bottom", b.map(|b| b.get_bottom()))] {
        m.insert(side, b.map_or(String::new(), |b| if b.get_border_style() == "none" { String::new() } else { format!("{} {}", b.get_border_style(), b.get_color().get_argb().to_uppercase()) }));
    }
    let a = s.get_alignment();
    m.insert("horizontal", a.map_or("", |a| match a.get_horizontal() { u::HorizontalAlignmentValues::Left => "Left", u::HorizontalAlignmentValues::Center => "Center", u::HorizontalAlignmentValues::Right => "Right", _ => "another" }).into());
    m.insert("vertical", a.map_or("", |a| match a.get_vertical() { u::VerticalAlignmentValues::Top => "Top", u::VerticalAlignmentValues::Center => "Center", u::VerticalAlignmentValues::Bottom => "Bottom", _ => "another" }).into());
    m.insert("wrap", a.map_or("", |a| if *a.get_wrap_text() { "Wrap" } else { "no" }).into());
    m.insert("format", s.get_numbering_format().map_or(String::new(), |n| n.get_format_code().into()));
    m
}
/// kind and text of what a cell holds
fn value(c: Option<&u::Cell>) -> (&'static str, String) {
    let Some(c) = c else { return ("", String::new()) };
    if c.is_formula() { return ("formula", c.get_formula().to_string()); }
    let v = c.get_value().to_string();
    match c.get_data_type() { "n" => ("number", v), "b" => ("boolean", v), "s" | "str" => if v.is_empty() { ("", v) } else { ("text", v) }, "" => ("", v), _ => ("error", v) }
}
fn notes(s: &u::Worksheet) -> Vec<(u32, u32, String)> {
    let mut v: Vec<_> = s.get_comments().iter().map(|c| (*c.get_coordinate().get_col_num(), *c.get_coordinate().get_row_num(), c.get_text().get_text().to_string())).collect();
    v.sort_by_key(|c| (c.0, c.1));
    v
}
fn rule(d: &u::DataValidation) -> String {
    let f = d.get_formula1();
    let f = f.strip_prefix('=').unwrap_or(f);
    // (the operator means something for numbers and dates only)
    let op = if matches!(d.get_type(), u::DataValidationValues::Custom | u::DataValidationValues::List) { String::new() } else { format!("{:?} ", d.get_operator()) };
    format!("{:?} {op}{f} {}", d.get_type(), d.get_formula2())
}
fn rules(s: &u::Worksheet) -> Vec<(String, String)> {
    let mut v: Vec<_> = s.get_data_validations().map_or(&vec![], |d| d.get_data_validation_list()).iter().map(|d| (d.get_sequence_of_references().get_sqref(), rule(d))).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
fn open(path: &str) -> u::Spreadsheet {
    match u::reader::xlsx::read(Path::new(path)) { Ok(b) => b, Err(e) => { note("error", &format!("{e:?}")); fail("the output is not a workbook") } }
}
fn excel(src: &str, change: impl FnOnce(&mut csvpp::CliArgs)) -> Result<u::Spreadsheet, csvpp::Error> {
    std::fs::write("main.csvpp", src).unwrap();
    let mut a = args("main.csvpp", "out.xlsx");
    change(&mut a);
    note("src", src);
    build(&a)?;
    Ok(open("out.xlsx"))
}
fn must(r: Result<u::Spreadsheet, csvpp::Error>) -> u::Spreadsheet { match r { Ok(b) => b, Err(e) => { note("error", &e.to_string()); fail("excel: rejected") } } }
fn sheet<'a>(b: &'a u::Spreadsheet, name: &str) -> &'a u::Worksheet { let Some(s) = b.get_sheet_by_name(name) else { fail("excel: the sheet is missing") }; s }
fn at(s: &u::Worksheet, x: usize, y: usize) -> Option<&u::Cell> { s.get_cell((x as u32 + 1, y as u32 + 1)) }
fn address(x: usize, y: usize) -> String { let mut c = String::new(); let mut n = x + 1; while n > 0 { c.insert(0, (b'A' + ((n - 1) % 26) as u8) as char); n = (n - 1) / 26; } format!("{c}{}", y + 1) }

// ---- C16 -----------------------------------------------------------------------------------
/// the cell at (x, y) of the sheet holds it and nothing else is there
fn placed(src: &str, x: usize, y: usize, kind: &str, text: &str, b: &u::Spreadsheet) {
    let _ = src;
    check(names(b) == ["main"], "excel: sheets");
    let s = sheet(b, "main");
    for c in s.get_cell_collection() {
        let (cx, cy) = (*c.get_coordinate().get_col_num() as usize - 1, *c.get_coordinate().get_row_num() as usize - 1);
        if (cx, cy) == (x, y) { continue; }
        check(value(Some(c)).0.is_empty(), "excel: a value where there is none");
    }
    let (k, v) = value(at(s, x, y));
    note("kind", k);
    note("value", &v);
    if kind.is_empty() && k == "number" {
        // (what looks like a number is written as a text, but would be as good as a number)
        check(v.parse::<f64>().is_ok() && v.parse::<f64>() == text.parse::<f64>(), "excel: value");
        return witness("text");
    }
    let kind = if kind.is_empty() { "text" } else { kind };
    check(k == kind, "excel: kind of value");
    check(eq(&v, text), "excel: value");
    witness(kind);
}
pub fn cell_at(x: usize, y: usize, cell: &str) -> String { format!("{}{}{cell}", "a := 1\n---\n".to_string() + &",\n".repeat(y), ",".repeat(x)) }
/// any text, wherever the cell is
pub fn c16_text() {
    warm();
    let n = 1 + choice(3, "n");
    let t = text(n, "text", b"a1 .-e%=");
    assume(!t.starts_with(['=', ' ']) && !t.ends_with(' '));
    let (x, y) = ([0, 1, 25, 26, 52, 701, 702][choice(7, "x")], [0, 1, 9][choice(3, "y")]);
    let src = cell_at(x, y, &t);
    if x + y == 0 { assume(!t.starts_with("--")); }
    limit(60_000_000);
    placed(&src, x, y, "", &t, &must(excel(&src, |_| ())))
}
pub fn c16_char() {
    warm();
    let t = format!("x{}y", range_text(2, "text", b' ', b'~', b"\",#"));
    placed("", 1, 1, "text", &t, &must(excel(&cell_at(1, 1, &t), |_| ())))
}
/// what a formula that is a single value becomes
pub fn c16_literal() {
    warm();
    let (src, kind, want) = match choice(6, "literal") {
        0 => { let d = format!("{}{}", text(1, "digit", b"123456789"), pick(&["", "0", "23", "6777217", "429496729600"], "more")); (d.clone(), "number", d) }
        1 => { let d = format!("{}.{}", text(1, "digit", b"0123456789"), pick(&["5", "25"], "fraction")); (d.clone(), "number", d) }
        2 => { let b = choice(2, "bool") == 1; (["false", "true"][usize::from(b)].to_string(), "boolean", if b { "TRUE".into() } else { "FALSE".into() }) }
        3 => { let n = 1 + choice(2, "n"); let t = text(n, "text", b"a 1=,;(&'<"); (format!("\"\"{t}\"\""), "text", t) }
        4 => { let n = 1 + choice(2, "n"); let t = text(n, "text", b"ab1"); assume(t.as_bytes()[0] != b'1'); (format!("x_{t}"), "formula", format!("x_{t}")) }
        _ => { let d = text(1, "digit", b"123456789"); let s = pick(&["-", "+"], "sign"); (format!("{s}{d}"), "formula", format!("{s}{d}")) }
    };
    let (x, y) = (choice(2, "x"), choice(2, "y"));
    // a percentage and a signed number may be either; anything else is what it says
    let b = must(excel(&cell_at(x, y, &format!("\"={src}\"")), |_| ()));
    if kind == "formula" && !want.starts_with('x') {
        let (k, v) = value(at(sheet(&b, "main"), x, y));
        note("value", &v);
        check((k == "formula" && eq(&v, &want)) || (k == "number" && eq(&v, want.trim_start_matches('+'))), "excel: signed number");
        return witness("signed");
    }
    placed("", x, y, kind, &want, &b)
}
/// a formula is the same one that is written to CSV
pub fn c16_formula() {
    warm();
    let n = 1 + choice(3, "n");
    let f = format!("{}{}", pick(&["=A1+", "=SUM(", "=b&", "=v*"], "start"), text(n, "formula", b"1AB(),:2+"));
    let src = format!("v := 1 + C3\n---\nx,\"{f}\",[[var=b]]y\n");
    limit(40_000_000);
    let csv = match to_csv(&src) { Ok(o) => o, Err(_) => { check(excel(&src, |_| ()).is_err(), "excel: accepts what CSV rejects"); return witness("rejected") } };
    let want = &cells(&csv).unwrap()[0][1];
    let (k, v) = value(at(sheet(&must(excel(&src, |_| ())), "main"), 1, 0));
    note("formula", &v);
    note("csv", want);
    check(k == "formula" && eq(&format!("={v}"), want), "excel: another formula");
    witness("formula");
}

/// one use of an option and what it is to change
pub fn any_option(nm: &str) -> (String, &'static str, &'static str) {
    let k = choice(OPTS.len(), nm);
    let o = &OPTS[k];
    let v = &o.values[choice(o.values.len(), nm)];
    (if v.0[0].is_empty() { o.names[0].into() } else { format!("{}={}", o.names[0], v.0[0]) }, o.attr, v.1)
}
pub fn rgb(debug: &str) -> String {
    let n: Vec<u32> = debug.split(|c: char| !c.is_ascii_digit()).filter(|p| !p.is_empty()).map(|p| p.parse().unwrap()).collect();
    format!("FF{:02X}{:02X}{:02X}", n[0], n[1], n[2])
}
pub fn quoted(debug: &str) -> String { debug.trim_start_matches("Some(").trim_end_matches(')').trim_matches('"').into() }
fn expect(plain: &Look, uses: &[(&str, &str)]) -> Look {
    let mut m = plain.clone();
    let (mut sides, mut style, mut color) = (vec![], "thin", String::new());
    for (attr, v) in uses {
        match *attr {
            "borders" => sides.push(*v),
            "border_style" => style = match *v { "Dashed" => "dashed", "Dotted" => "dotted", "Double" => "double", "Solid" => "thin", "SolidMedium" => "medium", _ => "thick" },
            "border_color" => color = rgb(v),
            "color" => { m.insert("background", rgb(v)); }
            "font_color" => { m.insert("font color", rgb(v)); }
            "font_family" => { m.insert("font name", quoted(v)); }
            "font_size" => { m.insert("font size", quoted(v)); }
            "horizontal_align" => { m.insert("horizontal", v.to_string()); }
            "vertical_align" => { m.insert("vertical", v.to_string()); }
            "text_wrap" => { m.insert("wrap", if *v == "Wrap" { "Wrap".into() } else { "no".into() }); }
            "text_formats" => { m.insert(["Bold", "Italic", "Strikethrough", "Underline"].into_iter().find(|t| t == v).unwrap(), "true".into()); }
            "number_format" => { m.insert("format", match *v {
                "Currency" => u::NumberingFormat::FORMAT_CURRENCY_USD, "Date" => u::NumberingFormat::FORMAT_DATE_YYYYMMDD, "DateTime" => u::NumberingFormat::FORMAT_DATE_DATETIME,
                "Number" => u::NumberingFormat::FORMAT_NUMBER, "Percent" => u::NumberingFormat::FORMAT_PERCENTAGE, "Text" => "@", "Time" => u::NumberingFormat::FORMAT_DATE_TIME1, _ => "0.00E+00",
            }.into()); }
            _ => (),
        }
    }
    for s in SIDES { if sides.contains(&s) || sides.contains(&"All") { m.insert(s, format!("{style} {color}")); } }
    m
}
/// The finding KF-COLOR: RRGGBBFF where it ought to be FFRRGGBB.  Anything else but these two is an
/// error of its own.
fn turned(got: &str, want: &str) -> bool { want.len() == 8 && got.len() == 8 && got[..6] == want[2..] && got[6..] == want[..2] }
fn same(got: &Look, want: &Look, what: &str) -> bool {
    let mut known = false;
    for (k, v) in got {
        if eq(v, &want[k]) { continue; }
        note("got", v);
        note("want", &want[k]);
        if (*k == "background" || *k == "font color") && turned(v, &want[k]) { known = true; continue; }
        fail(&format!("{what}: {k}"));
    }
    known
}
const TURNED: &str = "KF-COLOR a colour with its parts in another order";
/// three rows of three cells, options on the middle row and on one of its cells
fn styled(row: &[(String, &'static str, &'static str)], cell: &[(String, &'static str, &'static str)], x: usize) {
    let join = |u: &[(String, &str, &str)]| u.iter().map(|o| o.0.as_str()).collect::<Vec<_>>().join(" ");
    let mut c = ["1".to_string(), "2".into(), "3".into()];
    if !cell.is_empty() { c[x] = format!("[[{}]]{}", join(cell), x + 1); }
    if !row.is_empty() { c[0] = format!("![[{}]]{}", join(row), c[0]); }
    limit(80_000_000);
    let b = must(excel(&format!("p,,\n\"{}\"\nq,,\n", c.join("\",\"")), |_| ()));
    let s = sheet(&b, "main");
    let plain = look(at(s, 0, 0));
    check(plain["background"].is_empty() && SIDES.iter().all(|s| plain[s].is_empty()), "excel: colours and borders without options");
    check(["font name", "font size", "font color"].iter().all(|k| plain[k].is_empty()) && ["Bold", "Italic", "Strikethrough", "Underline"].iter().all(|k| plain[k] == "false"), "excel: a font without options");
    let (mut want_notes, mut want_rules) = (vec![], vec![]);
    let (mut color, mut lock) = (false, false);
    for (y, i) in (0..3).flat_map(|y| (0..3).map(move |i| (y, i))) {
        let mut uses: Vec<(&str, &str)> = vec![];
        if y == 1 { uses.extend(row.iter().map(|o| (o.1, o.2))); }
        if y == 1 && i == x { uses.extend(cell.iter().map(|o| (o.1, o.2))); }
        color |= same(&look(at(s, i, y)), &expect(&plain, &uses), if y == 1 { "excel: style" } else { "excel: style of another row" });
        if let Some((_, v)) = uses.iter().rev().find(|o| o.0 == "note") { want_notes.push((i as u32 + 1, 2, quoted(v))); }
        if let Some((_, v)) = uses.iter().rev().find(|o| o.0 == "data_validation") { want_rules.push((address(i, y), if v.contains("Date") { "Custom" } else { "Decimal GreaterThan 5 " })); }
        if uses.iter().any(|o| o.0 == "lock") {
            lock |= s.get_sheet_protection().is_none() || at(s, i, y).is_some_and(|c| c.get_style().get_protection().is_some_and(|p| !*p.get_locked()));
        }
        if y == 1 { check(eq(&value(at(s, i, y)).1, &(i + 1).to_string()), "excel: value beside options"); }
    }
    want_notes.sort();
    let got = notes(s);
    note("notes", &format!("{got:?}"));
    check(got == want_notes, "excel: notes");
    let got = rules(s);
    note("validations", &format!("{got:?}"));
    check(got.len() == want_rules.len() && want_rules.iter().all(|(a, r)| got.iter().any(|(b, g)| a == b && g.starts_with(r))), "excel: validations");
    witness("styled");
    check(!color, TURNED);
    check(!lock, "KF-LOCK a locked cell is not protected in Excel");
}
pub fn c16_style() { warm(); let o = any_option("option"); if choice(2, "on") == 0 { styled(&[], &[o], choice(3, "at")) } else { styled(&[o], &[], 0) } }
pub fn c16_two() { warm(); styled(&[], &[any_option("first"), any_option("second")], 1) }
pub fn c16_inherit() { warm(); styled(&[any_option("row")], &[any_option("cell")], choice(2, "at")) }
/// borders: sides, style and colour together
pub fn c16_border() {
    warm();
    let side = |n: &str| { let v = &OPTS[0].values[choice(5, n)]; (format!("b={}", v.0[0]), "borders", v.1) };
    let v = &OPTS[1].values[choice(6, "style")];
    let mut o = vec![side("first"), side("second"), (format!("bs={}", v.0[0]), "border_style", v.1)];
    if choice(2, "color") == 1 { o.push(("bc=#0B33F0".into(), "border_color", "Rgb { r: 11, g: 51, b: 240 }")); }
    styled(&[], &o, 2)
}
/// every colour
pub fn c16_color() {
    warm();
    let (name, key) = [("color", "background"), ("fontcolor", "font color"), ("bordercolor", "Left")][choice(3, "option")];
    let hex = text(3, "hex", b"0123456789abcdefABCDEF");
    let six = choice(2, "digits") == 0;
    let written = if six { format!("{hex}0f8") } else { hex.clone() };
    let up = hex.to_uppercase();
    let b = up.as_bytes();
    let want = if six { format!("FF{up}0F8") } else { format!("FF{0}{0}{1}{1}{2}{2}", b[0] as char, b[1] as char, b[2] as char) };
    let book = must(excel(&format!("x,[[{name}={written} b=l]]y"), |_| ()));
    let got = look(at(sheet(&book, "main"), 1, 0));
    note("got", &got[key]);
    let got = got[key].strip_prefix("thin ").unwrap_or(&got[key]);
    let known = key != "Left" && !eq(got, &want) && turned(got, &want);
    check(known || eq(got, &want), "excel: colour");
    witness("color");
    check(!known, TURNED);
}
/// any note, on any cell
pub fn c16_note() {
    warm();
    let n = 1 + choice(3, "n");
    let t = text(n, "note", b"a ,]=\"<");
    let (x, y) = ([0, 1, 26][choice(3, "x")], choice(3, "y"));
    let second = choice(2, "second") == 1;
    let src = format!("{}{}\"[[n='{}']]v\"{}", ",\n".repeat(y), ",".repeat(x), t.replace('"', "\"\""), if second { ",[[note='z']]w" } else { "" });
    let src = format!("a := 1\n---\n{src}");
    let b = must(excel(&src, |_| ()));
    let got = notes(sheet(&b, "main"));
    note("notes", &format!("{got:?}"));
    check(got.len() == 1 + usize::from(second), "excel: number of notes");
    check(got[0].0 as usize == x + 1 && got[0].1 as usize == y + 1, "excel: place of the note");
    check(eq(&got[0].2, &t), "excel: text of the note");
    if second { check(got[1] == (x as u32 + 2, y as u32 + 1, "z".to_string()), "excel: second note"); }
    witness("note");
}
/// days since the last day of 1899, with the 29th of February 1900 that Excel believes in
fn serial(y: i64, m: i64, d: i64) -> i64 {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut n = d;
    for k in 1900..y { n += if leap(k) { 366 } else { 365 }; }
    for k in 1..m { n += match k { 2 => 28 + i64::from(leap(y)), 4 | 6 | 9 | 11 => 30, _ => 31 }; }
    n + i64::from(n > 59)
}
fn ruled(dv: &str, want: &str) { ruled_at(dv, want, choice(2, "x"), choice(2, "y")) }
/// stands for the address of the cell
const HERE: char = '§';
fn ruled_at(dv: &str, want: &str, x: usize, y: usize) {
    let src = format!("a := 1\n---\n{}{}\"[[dv={}]]v\"", ",\n".repeat(y), ",".repeat(x), dv.replace('"', "\"\""));
    limit(60_000_000);
    let b = must(excel(&src, |_| ()));
    let got = rules(sheet(&b, "main"));
    note("validations", &format!("{got:?}"));
    check(got.len() == 1 && got[0].0 == address(x, y), "excel: cell of the validation");
    let want = want.replace(HERE, &address(x, y));
    note("want", &want);
    check(eq(&got[0].1, &want), "excel: validation");
    witness("validation");
}
pub fn c16_number_rules() {
    warm();
    let d = format!("{}{}", pick(&["", "-", "-7", "12"], "lead"), text(1, "digit", b"123456789"));
    let (dv, want) = match choice(8, "rule") {
        0 => (format!("num_gt({d})"), format!("Decimal GreaterThan {d} ")), 1 => (format!("num_gte({d})"), format!("Decimal GreaterThanOrEqual {d} ")),
        2 => (format!("num_lt({d})"), format!("Decimal LessThan {d} ")), 3 => (format!("num_lte({d})"), format!("Decimal LessThanOrEqual {d} ")),
        4 => (format!("num_eq({d})"), format!("Decimal Equal {d} ")), 5 => (format!("num_neq({d})"), format!("Decimal NotEqual {d} ")),
        6 => (format!("num_btwn({d} 300)"), format!("Decimal Between {d} 300")), _ => (format!("num_nbtwn({d} 300)"), format!("Decimal NotBetween {d} 300")),
    };
    ruled(&dv, &want)
}
pub fn c16_date_rules() {
    warm();
    let (y, m) = ([1900, 1999, 2000, 2024][choice(4, "year")], [1, 2, 3, 12][choice(4, "month")]);
    let t = choice(3, "tens");
    let c = text(1, "day", b"123456789");
    let day = conc(usize::from(c.as_bytes()[0] - b'0') + 10 * t) as i64;
    assume(!(m == 2 && day > 28 && !(y == 2000 || y == 2024)));
    let n = serial(y, m, day);
    let d = format!("{y}-{m:02}-{day:02}");
    let l = serial(2030, 6, 1);
    let (dv, want) = match choice(7, "rule") {
        0 => (format!("date_gt({d})"), format!("Date GreaterThan {n} ")), 1 => (format!("date_gte({d})"), format!("Date GreaterThanOrEqual {n} ")),
        2 => (format!("date_lt({d})"), format!("Date LessThan {n} ")), 3 => (format!("date_lte({d})"), format!("Date LessThanOrEqual {n} ")),
        4 => (format!("date_eq({d})"), format!("Date Equal {n} ")), 5 => (format!("date_btwn({d} 2030-06-01)"), format!("Date Between {n} {l}")),
        _ => (format!("date_nbtwn({d} 2030-06-01)"), format!("Date NotBetween {n} {l}")),
    };
    ruled_at(&dv, &want, 1, 1)
}
/// conditions on texts are formulas that contain the text
pub fn c16_text_rules() {
    warm();
    let n = 1 + choice(3, "n");
    let t = text(n, "text", b"a1 \"=,(");
    let q = t.replace('"', "\"\"");
    let (dv, want) = match choice(4, "rule") {
        0 => (format!("text_contains('{t}')"), format!("Custom ISNUMBER(SEARCH(\"{q}\", §)) ")),
        1 => (format!("text_does_not_contain('{t}')"), format!("Custom NOT(ISNUMBER(SEARCH(\"{q}\", §))) ")),
        2 => (format!("text_eq('{t}')"), format!("Custom § = \"{q}\" ")),
        // the reader of the real file drops the blanks around a formula
        _ => { assume(t.trim() == t && !t.starts_with("= ")); (format!("custom('{t}')"), format!("Custom {} ", t.strip_prefix('=').unwrap_or(&t))) }
    };
    note("rule", &dv);
    ruled(&dv, &want)
}
pub fn c16_other_rules() {
    warm();
    let (dv, want) = match choice(5, "rule") {
        0 => ("is_date".into(), "Custom ISNUMBER(DAY(§)) ".to_string()),
        1 => ("is_email".into(), "Custom ISNUMBER(MATCH(\"*@*.?*\", §, 0)) ".to_string()),
        2 => { let d = text(1, "digit", b"123456789"); (format!("in_range(A{d}:B9)"), format!("List A{d}:B9 ")) }
        3 => { let d = text(1, "digit", b"123456789"); (format!("in_list({d} 'x y' -2)"), format!("List \"{d}, x y, -2\" ")) }
        _ => { let t = text(2, "word", b"ab_"); (format!("in_list({t} '{t} {t}')"), format!("List \"{t}, {t} {t}\" ")) }
    };
    note("rule", &dv);
    ruled(&dv, &want)
}
/// the real writer and the real reader of the file format around it
pub fn c16_file() {
    warm();
    real_books(true);
    let o = any_option("option");
    assume(o.1 != "lock");
    styled(&[], &[o], choice(2, "at"))
}

// ---- C17 -----------------------------------------------------------------------------------
const KINDS: [&str; 6] = ["absent", "styled", "text", "number", "formula", "boolean"];
/// put a cell of that kind into a sheet
fn put(s: &mut u::Worksheet, x: u32, y: u32, kind: usize) {
    if kind == 0 { return; }
    let c = s.get_cell_mut((x + 1, y + 1));
    match kind { 2 => { c.set_value_string("old"); } 3 => { c.set_value_number(41.5); } 4 => { c.set_formula("SUM(Z1:Z9)").set_formula_result_default("7"); } 5 => { c.set_value_bool(true); } _ => () }
    if kind != 3 { c.get_style_mut().get_font_mut().set_italic(true); c.get_style_mut().set_background_color("FF112233"); }
}
fn add_note(s: &mut u::Worksheet, x: u32, y: u32, text: &str) {
    let mut c = u::Comment::default();
    c.set_author("me");
    c.get_text_mut().set_text(text);
    c.get_coordinate_mut().set_col_num(x + 1);
    c.get_coordinate_mut().set_row_num(y + 1);
    s.add_comments(c);
}
fn add_rule(s: &mut u::Worksheet, place: &str, formula: &str) {
    let mut d = u::DataValidation::default();
    let mut r = u::SequenceOfReferences::default();
    r.set_sqref(place);
    d.set_sequence_of_references(r).set_type(u::DataValidationValues::Whole).set_operator(u::DataValidationOperatorValues::GreaterThan).set_formula1(formula);
    let mut all = s.get_data_validations().cloned().unwrap_or_default();
    all.add_data_validation_list(d);
    s.set_data_validations(all);
}
fn save(b: &u::Spreadsheet) { if u::writer::xlsx::write(b, Path::new("out.xlsx")).is_err() { fail("harness: write") } }
/// everything that can be seen of a cell
type Seen = (&'static str, String, Look);
fn seen(s: &u::Worksheet, x: usize, y: usize) -> Seen { let c = at(s, x, y); let (k, v) = value(c); (k, v, look(c)) }
fn names(b: &u::Spreadsheet) -> Vec<String> { b.get_sheet_collection().iter().map(|s| s.get_name().to_string()).collect() }

/// two cells of an existing sheet, two cells that are compiled, and the two rules for which one wins
pub fn c17_merge() {
    warm();
    let (a, b) = (choice(6, "first old"), choice(6, "second old"));
    let safe = choice(2, "safe") == 1;
    let new = ["", "new", "\"=1+A9\"", "=8", "[[t=b n='hm' dv=num_gt(3)]]styled", "[[c=#00ff00]]"];
    let (p, q) = (choice(6, "first new"), choice(6, "second new"));
    let mut book = u::new_file_empty_worksheet();
    let s = book.new_sheet("main").unwrap();
    put(s, 0, 0, a);
    put(s, 1, 1, b);
    put(s, 2, 0, 2);
    put(s, 0, 2, 4);
    save(&book);
    let old = open("out.xlsx");
    std::fs::remove_file("out.xlsx").unwrap();
    let src = format!("x := 1\n---\n{},k\nl,{},m\n", new[p], new[q]);
    let fresh = must(excel(&src, |_| ()));
    save(&book);
    note("old", &format!("{} {} safe {safe}", KINDS[a], KINDS[b]));
    limit(80_000_000);
    let got = must(excel(&src, |x| x.safe = safe));
    let (s, o, f) = (sheet(&got, "main"), sheet(&old, "main"), sheet(&fresh, "main"));
    check(names(&got) == ["main"], "existing workbook: sheets");
    let mut marks = 0;
    for (x, y, kind) in [(0, 0, a), (1, 1, b), (1, 0, 0), (0, 1, 0)] {
        let keep = safe && kind > 1;
        let (g, w) = (seen(s, x, y), if keep { seen(o, x, y) } else { seen(f, x, y) });
        note("cell", &address(x, y));
        note("got", &g.1);
        note("want", &w.1);
        let what = if keep { "--safe: a value that existed was changed" } else if kind == 0 { "existing workbook: a new cell" } else { "existing workbook: a cell was not overwritten" };
        check(g.0 == w.0 && eq(&g.1, &w.1), what);
        for (k, v) in &g.2 { if !eq(v, &w.2[k]) { note("style", k); note("got", v); note("want", &w.2[k]); fail(what) } }
        if !keep && ((x, y) == (0, 0) && p == 4 || (x, y) == (1, 1) && q == 4) { marks += 1; }
        witness(if keep { "kept" } else { "overwritten" });
    }
    check(notes(s).len() == marks && rules(s).len() == marks, "existing workbook: notes and validations of cells");
    for (x, y) in [(2, 0), (0, 2), (2, 2)] { check(seen(s, x, y) == seen(o, x, y), "existing workbook: a cell beside what was compiled"); }
}
/// what a compilation has no business with
pub fn c17_keep() {
    warm();
    let (nx, ny) = (choice(3, "note column") as u32, choice(3, "note row") as u32);
    let (rx, ry) = (choice(3, "rule column"), choice(2, "rule row"));
    let name = ["main", "Data", "other sheet"][choice(3, "sheet name")];
    let before = choice(2, "sheet exists") == 1;
    let cells = ["a,b\nc,d", "[[n='new']]a,b\nc,[[dv=num_gt(3)]]d", ",[[n='x' dv=is_date]]b"][choice(3, "cells")];
    let mut book = u::new_file_empty_worksheet();
    for n in ["first", "last"] {
        let s = book.new_sheet(n).unwrap();
        for k in 0..6 { put(s, k as u32, 1, k); }
        add_note(s, 0, 0, "kept");
        add_rule(s, "B2", "9");
    }
    if before {
        let s = book.new_sheet(name).unwrap();
        for k in 0..6 { put(s, 3, k as u32, k); put(s, k as u32, 3, k); }
        add_note(s, nx, ny, "mine");
        add_note(s, 4, 4, "mine too");
        add_rule(s, &address(rx, ry), "100");
        add_rule(s, "D5:D9", "200");
    }
    save(&book);
    let old = open("out.xlsx");
    limit(80_000_000);
    let got = must(excel(cells, |a| a.sheet_name = Some(name.into())));
    let mut want = names(&old);
    if !before { want.push(name.into()); }
    note("sheets", &names(&got).join(","));
    check(names(&got) == want, "existing workbook: sheets");
    for n in ["first", "last"] {
        let (g, o) = (sheet(&got, n), sheet(&old, n));
        for (x, y) in (0..7).flat_map(|x| (0..3).map(move |y| (x, y))) { check(seen(g, x, y) == seen(o, x, y), "existing workbook: a cell of another sheet"); }
        check(notes(g) == notes(o) && rules(g) == rules(o), "existing workbook: notes and validations of another sheet");
    }
    let g = sheet(&got, name);
    if before {
        let o = sheet(&old, name);
        for (x, y) in (0..7).flat_map(|x| (0..7).map(move |y| (x, y))) { if x > 1 || y > 1 { check(seen(g, x, y) == seen(o, x, y), "existing workbook: a cell beside what was compiled"); } }
        for n in notes(o) { if n.0 > 2 || n.1 > 2 { check(notes(g).contains(&n), "existing workbook: a note beside what was compiled"); } }
        for r in rules(o) { if r.0 == "D5:D9" || rx > 1 || ry > 1 { check(rules(g).contains(&r), "existing workbook: a validation beside what was compiled"); } }
        witness("existing");
    } else { witness("new") }
    // the ones of this compilation are there, and no cell has two
    let fresh = { std::fs::remove_file("out.xlsx").unwrap(); must(excel(cells, |a| a.sheet_name = Some(name.into()))) };
    let f = sheet(&fresh, name);
    let (gn, gr) = (notes(g), rules(g));
    note("notes", &format!("{gn:?}"));
    note("rules", &format!("{gr:?}"));
    check(notes(f).iter().all(|n| gn.contains(n)), "existing workbook: note");
    check(rules(f).iter().all(|n| gr.contains(n)), "existing workbook: validation");
    check(gn.windows(2).all(|w| (w[0].0, w[0].1) != (w[1].0, w[1].1)), "existing workbook: two notes on a cell");
    check(gr.windows(2).all(|w| w[0].0 != w[1].0), "existing workbook: two validations of a cell");
}
/// compiling again to the file that was written changes nothing; so does compiling a third time
pub fn c17_twice() {
    warm();
    let (o, p) = (any_option("option"), any_option("other"));
    let safe = choice(2, "safe") == 1;
    let src = format!("a,[[{}]]b,=1+2\n\"![[{}]]\",c,\n", o.0, p.0);
    limit(120_000_000);
    let first = must(excel(&src, |_| ()));
    let second = must(excel(&src, |a| a.safe = safe));
    let (f, g) = (sheet(&first, "main"), sheet(&second, "main"));
    check(names(&first) == names(&second), "compiled twice: sheets");
    for (x, y) in (0..4).flat_map(|x| (0..3).map(move |y| (x, y))) {
        let (a, b) = (seen(f, x, y), seen(g, x, y));
        note("cell", &address(x, y));
        check(a == b, "compiled twice: a cell");
    }
    note("notes", &format!("{:?}", notes(g)));
    check(notes(f) == notes(g), "compiled twice: notes");
    check(rules(f) == rules(g), "compiled twice: validations");
    witness("twice");
}
/// a file that is not a workbook, and a program that is not correct, leave the file as it is
pub fn c17_bad() {
    warm();
    let broken = choice(2, "broken") == 1;
    let bytes = text(3, "file", b"PK\x03a\n\0");
    let src = if broken { pick(&["=1 +", "[[color=]]a", "a := f(\n---\nb", "fn f(a) a\n---\n=f(1,2)", "use nothing\n---\na", "\"a"], "error") } else { "a,b" };
    if broken && choice(2, "workbook") == 1 {
        let mut book = u::new_file_empty_worksheet();
        put(book.new_sheet("main").unwrap(), 0, 0, 2);
        save(&book);
    } else { std::fs::write("out.xlsx", &bytes).unwrap(); }
    let old = std::fs::read("out.xlsx").unwrap();
    check(excel(src, |_| ()).is_err(), "existing workbook: no error");
    check(std::fs::read("out.xlsx").unwrap() == old, "existing workbook: changed by a compilation that failed");
    witness(if broken { "program" } else { "workbook" });
}
