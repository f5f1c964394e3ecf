#![allow(clippy::missing_safety_doc)]
pub mod vf;
pub mod pipe;
#[macro_use]
pub mod reg { 
    /// `entries!{ name => path, .. }`: an IR entry point per harness plus the native dispatcher
    macro_rules! entries { ($($n:ident : $p:path),* $(,)?) => {
        pub mod entry { $( #[no_mangle] pub extern "C" fn $n() { $p() } )* }
        pub fn dispatch(n: &str) { $( if n == stringify!($n) { return entry::$n(); } )* eprintln!("no entry {n}"); std::process::exit(79) }
        pub const NAMES: &[&str] = &[$(stringify!($n)),*];
    } }
}
mod csv_layer;
mod refexpr;
mod formula;
mod total;
mod options;
mod fills;
mod csvout;
mod modules;
mod determ;
mod errs;
mod faults;
mod gsheets;
mod xlsx;
mod cache;
mod cli;

entries! {
    vf_main_c20_help: crate::cli::c20_help,
    vf_main_c20_places: crate::cli::c20_places,
    vf_main_c20_faults: crate::cli::c20_faults,
    vf_main_c20_fails: crate::cli::c20_fails,
    vf_main_c20_keys: crate::cli::c20_keys,
    vf_main_c20_flags: crate::cli::c20_flags,
    vf_main_c20_values: crate::cli::c20_values,
    vf_main_c09_escape: crate::options::c09_escape,
    vf_main_c11_lines: crate::csvout::c11_lines,
    vf_main_c07_four: crate::fills::c07_four,
    vf_main_c12_same: crate::modules::c12_same,
    vf_main_c05_many: crate::total::c05_many,
    vf_main_c19_large: crate::faults::c19_large,
    vf_main_c19_target: crate::faults::c19_target,
    vf_main_c19_rejected: crate::faults::c19_rejected,
    vf_main_c19_recover: crate::faults::c19_recover,
    vf_main_c19_backups: crate::faults::c19_backups,
    vf_main_c19_excel: crate::faults::c19_excel,
    vf_main_c19_csv: crate::faults::c19_csv,
    vf_main_c18_id: crate::gsheets::c18_id,
    vf_main_c18_many: crate::gsheets::c18_many,
    vf_main_c18_offset: crate::gsheets::c18_offset,
    vf_main_c18_existing: crate::gsheets::c18_existing,
    vf_main_c18_other_rules: crate::gsheets::c18_other_rules,
    vf_main_c18_text_rules: crate::gsheets::c18_text_rules,
    vf_main_c18_date_rules: crate::gsheets::c18_date_rules,
    vf_main_c18_number_rules: crate::gsheets::c18_number_rules,
    vf_main_c18_note: crate::gsheets::c18_note,
    vf_main_c18_color: crate::gsheets::c18_color,
    vf_main_c18_border: crate::gsheets::c18_border,
    vf_main_c18_inherit: crate::gsheets::c18_inherit,
    vf_main_c18_two: crate::gsheets::c18_two,
    vf_main_c18_style: crate::gsheets::c18_style,
    vf_main_c18_grid: crate::gsheets::c18_grid,
    vf_main_c18_formula: crate::gsheets::c18_formula,
    vf_main_c18_literal: crate::gsheets::c18_literal,
    vf_main_c18_text: crate::gsheets::c18_text,
    vf_main_c17_bad: crate::xlsx::c17_bad,
    vf_main_c17_twice: crate::xlsx::c17_twice,
    vf_main_c17_keep: crate::xlsx::c17_keep,
    vf_main_c17_merge: crate::xlsx::c17_merge,
    vf_main_c15_option_deep: crate::errs::c15_option_deep,
    vf_main_c15_formula_deep: crate::errs::c15_formula_deep,
    vf_main_c16_file: crate::xlsx::c16_file,
    vf_main_c16_other_rules: crate::xlsx::c16_other_rules,
    vf_main_c16_text_rules: crate::xlsx::c16_text_rules,
    vf_main_c16_date_rules: crate::xlsx::c16_date_rules,
    vf_main_c16_number_rules: crate::xlsx::c16_number_rules,
    vf_main_c16_note: crate::xlsx::c16_note,
    vf_main_c16_color: crate::xlsx::c16_color,
    vf_main_c16_border: crate::xlsx::c16_border,
    vf_main_c16_inherit: crate::xlsx::c16_inherit,
    vf_main_c16_two: crate::xlsx::c16_two,
    vf_main_c16_style: crate::xlsx::c16_style,
    vf_main_c16_formula: crate::xlsx::c16_formula,
    vf_main_c16_literal: crate::xlsx::c16_literal,
    vf_main_c16_char: crate::xlsx::c16_char,
    vf_main_c16_text: crate::xlsx::c16_text,
    vf_main_c15_import: crate::errs::c15_import,
    vf_main_c15_eval: crate::errs::c15_eval,
    vf_main_c15_csv: crate::errs::c15_csv,
    vf_main_c15_code: crate::errs::c15_code,
    vf_main_c15_place: crate::errs::c15_place,
    vf_main_c15_option: crate::errs::c15_option,
    vf_main_c15_formula: crate::errs::c15_formula,
    vf_main_c14_rows_both: crate::determ::c14_rows_both,
    vf_main_c14_rows2: crate::determ::c14_rows2,
    vf_main_c14_rows_delays: crate::determ::c14_rows_delays,
    vf_main_c13_history3: crate::cache::c13_history3,
    vf_main_c14_rows: crate::determ::c14_rows,
    vf_main_c14_errors: crate::determ::c14_errors,
    vf_main_c14_names: crate::determ::c14_names,
    vf_main_c14_imports: crate::determ::c14_imports,
    vf_main_c14_defs: crate::determ::c14_defs,
    vf_main_c13_place: crate::cache::c13_place,
    vf_main_c13_version: crate::cache::c13_version,
    vf_main_c13_torn: crate::cache::c13_torn,
    vf_main_c13_mtime: crate::cache::c13_mtime,
    vf_main_c13_history2: crate::cache::c13_history2,
    vf_main_c13_history: crate::cache::c13_history,
    vf_main_c12_code5: crate::modules::c12_code5,
    vf_main_c12_value5: crate::modules::c12_value5,
    vf_main_c12_schedule: crate::modules::c12_schedule,
    vf_main_c12_code: crate::modules::c12_code,
    vf_main_c12_body: crate::modules::c12_body,
    vf_main_c12_value: crate::modules::c12_value,
    vf_main_c12_graph: crate::modules::c12_graph,
    vf_main_c12_names: crate::modules::c12_names,
    vf_main_c12_cycle: crate::modules::c12_cycle,
    vf_main_c12_missing: crate::modules::c12_missing,
    vf_main_c06_marks: crate::csvout::c06_marks,
    vf_main_c06_csv: crate::csvout::c06_csv,
    vf_main_c06_dash: crate::csvout::c06_dash,
    vf_main_c06_char: crate::csvout::c06_char,
    vf_main_c06_again: crate::csvout::c06_again,
    vf_main_c11_row: crate::csvout::c11_row,
    vf_main_c11_rows: crate::csvout::c11_rows,
    vf_main_c11_text: crate::csvout::c11_text,
    vf_main_c08_which: crate::fills::c08_which,
    vf_main_c08_value: crate::fills::c08_value,
    vf_main_c08_address: crate::fills::c08_address,
    vf_main_c07_three: crate::fills::c07_three,
    vf_main_c07_endless: crate::fills::c07_endless,
    vf_main_c07_beyond: crate::fills::c07_beyond,
    vf_main_c01_lf: crate::csv_layer::c01_lf,
    vf_main_c01_lf9: crate::csv_layer::c01_lf9,
    vf_main_c01_quote: crate::csv_layer::c01_quote,
    vf_main_c01_quote9: crate::csv_layer::c01_quote9,
    vf_main_c01_crlf: crate::csv_layer::c01_crlf,
    vf_main_c01_mix: crate::csv_layer::c01_mix,
    vf_main_c01_mix8: crate::csv_layer::c01_mix8,
    vf_main_c02_lf: crate::csv_layer::c02_lf,
    vf_main_c02_quote: crate::csv_layer::c02_quote,
    vf_main_c03_ops: crate::formula::c03_ops,
    vf_main_c03_cmp: crate::formula::c03_cmp,
    vf_main_c03_call: crate::formula::c03_call,
    vf_main_c03_lit: crate::formula::c03_lit,
    vf_main_c03_word: crate::formula::c03_word,
    vf_main_c03_chain4: crate::formula::c03_chain4,
    vf_main_c03_chain5: crate::formula::c03_chain5,
    vf_main_c03_num: crate::formula::c03_num,
    vf_main_c03_ops6: crate::formula::c03_ops6,
    vf_main_c03_cmp6: crate::formula::c03_cmp6,
    vf_main_c03_call7: crate::formula::c03_call7,
    vf_main_c03_lit6: crate::formula::c03_lit6,
    vf_main_c03_paren: crate::formula::c03_paren,
    vf_main_c04_vars: crate::formula::c04_vars,
    vf_main_c04_args: crate::formula::c04_args,
    vf_main_c04_nest: crate::formula::c04_nest,
    vf_main_c04_arity: crate::formula::c04_arity,
    vf_main_c04_text: crate::formula::c04_text,
    vf_main_c04_plain: crate::formula::c04_plain,
    vf_main_c05_cell: crate::total::c05_cell,
    vf_main_c05_formula: crate::total::c05_formula,
    vf_main_c05_opts: crate::total::c05_opts,
    vf_main_c05_code: crate::total::c05_code,
    vf_main_c05_valid: crate::total::c05_valid,
    vf_main_c05_cell4: crate::total::c05_cell4,
    vf_main_c05_formula4: crate::total::c05_formula4,
    vf_main_c05_opts4: crate::total::c05_opts4,
    vf_main_c05_valid3: crate::total::c05_valid3,
    vf_main_c05_code4: crate::total::c05_code4,
    vf_main_c05_code5: crate::total::c05_code5,
    vf_main_c05_formula5: crate::total::c05_formula5,
    vf_main_c05_long: crate::total::c05_long,
    vf_main_c05_number: crate::total::c05_number,
    vf_main_c05_float: crate::total::c05_float,
    vf_main_c05_kv: crate::total::c05_kv,
    vf_main_c05_fill: crate::total::c05_fill,

    vf_main_c09_one: crate::options::c09_one,
    vf_main_c09_two: crate::options::c09_two,
    vf_main_c09_inherit: crate::options::c09_inherit,
    vf_main_c09_three: crate::options::c09_three,
    vf_main_c09_name: crate::options::c09_name,
    vf_main_c09_near: crate::options::c09_near,
    vf_main_c09_value: crate::options::c09_value,
    vf_main_c09_nearvalue: crate::options::c09_nearvalue,
    vf_main_c09_color: crate::options::c09_color,
    vf_main_c09_text: crate::options::c09_text,
    vf_main_c09_size: crate::options::c09_size,
    vf_main_c09_place: crate::options::c09_place,
    vf_main_c10_number: crate::options::c10_number,
    vf_main_c10_text: crate::options::c10_text,
    vf_main_c10_none: crate::options::c10_none,
    vf_main_c10_date: crate::options::c10_date,
    vf_main_c10_list: crate::options::c10_list,
    vf_main_c10_range: crate::options::c10_range,
}

fn main() -> std::process::ExitCode {
    if std::env::var_os("VF_PROGRAM").is_some() { return cli::main(); }
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { for n in NAMES { println!("{n}"); } return std::process::ExitCode::SUCCESS; }
    vf::load_model(&a[2]);
    dispatch(&a[1]);
    std::process::ExitCode::SUCCESS
}
