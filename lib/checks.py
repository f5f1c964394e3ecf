"""What each check runs: harness entry points, their bounds, and the witnesses they must reach."""


def job(entry, bounds, *witnesses, **kw):
    return dict(entry=entry, bounds=bounds, witnesses=list(witnesses), **kw)


CHECKS = {
    "C01": {
        "jobs": [
            job("c01_lf", "every text of up to 7 characters over {a , newline space # backslash}", "value", "fields", "records"),
            job("c01_quote", "every text of up to 7 characters over {a , newline space quote}", "value", "fields", "records", "rejected"),
            job("c01_crlf", "every text of up to 5 characters over {a , CRLF quote e-acute space}", "same", "rejected"),
            job("c01_mix", "every text of up to 7 characters over {a , newline space tab # backslash quote}", "value", "fields", "records", "rejected"),
            job("c01_mix8", "every text of up to 8 characters over {a , newline space tab # backslash quote}", "value", "fields", "records", "rejected", tier="thorough"),
            job("c01_lf9", "every text of up to 9 characters over {a , newline space # backslash}", "value", "fields", "records", tier="thorough"),
            job("c01_quote9", "every text of up to 9 characters over {a , newline space quote}", "value", "fields", "records", "rejected", tier="thorough"),
        ],
        "outside": "longer texts, other separators",
    },
    "C02": {
        "jobs": [
            job("c02_lf", "every text of up to 6 characters over {a , newline space # backslash}, 0 to 2 lines above it", "value", "fields", "records"),
            job("c02_quote", "every text of up to 7 characters over {a e-acute , newline space quote}", "value", "fields", "records", "rejected"),
        ],
        "outside": "longer texts, other separators",
    },
    "C03": {
        "jobs": [
            job("c03_ops", "every formula of up to 5 characters over {1 + - * % ( ) a}", "rejected", "number", "operator", "other", "call"),
            job("c03_cmp", "every formula of up to 5 characters over {1 < > = & ^ / space}", "rejected", "number", "operator"),
            job("c03_call", "every formula of up to 6 characters over {f 1 ( ) ,}", "rejected", "number", "call", "other"),
            job("c03_lit", "every formula of up to 5 characters over {1 0 . quote a & space}", "rejected", "number", "operator", "string"),
            job("c03_num", "every formula of up to 6 characters over {0 9 . % -}", "rejected", "number", "operator"),
            job("c03_word", "10 words (references, ranges, booleans, keywords, dotted and accented names) followed by up to 2 characters over {a 1 . ! _ ( + ) space ,}", "rejected", "call", "other"),
            job("c03_chain5", "five operands (reference, signed number, call, percentage) joined by any of 9 operators", "operator"),
            job("c03_paren", "four operands joined by any of 9 operators with parentheses around any stretch", "operator"),
            job("c03_ops6", "every formula of 6 characters over {1 + - * % ( ) a}", "rejected", "operator", "call", tier="thorough"),
            job("c03_cmp6", "every formula of 6 characters over {1 < > = & / space}", "rejected", "operator", tier="thorough"),
            job("c03_call7", "every formula of 7 characters over {f 1 ( ) ,}", "rejected", "call", tier="thorough"),
            job("c03_lit6", "every formula of 6 characters over {1 0 . quote a & space}", "rejected", "operator", tier="thorough"),
        ],
        "outside": "longer formulas; exponents with signs beyond those listed; array literals, quoted sheet names and error literals, which the language does not have",
    },
    "C04": {
        "jobs": [
            job("c04_vars", "two variables and a cell, each one of three shapes with a free choice of names; self-reference and cycles included", "expanded", "cycle"),
            job("c04_args", "a two-parameter function with free parameter names and body, called with free arguments, once or nested", "expanded"),
            job("c04_nest", "two functions and a variable with 7, 7 and 3 bodies, 6 cells: nesting, mutual recursion, shadowing by built-in names", "expanded", "cycle"),
            job("c04_arity", "0 to 2 parameters, 9 argument lists, 2 contexts", "expanded", "arity"),
            job("c04_text", "every formula of up to 5 characters over {a b quote 1 + .} with a, ab and a1 defined", "expanded"),
            job("c04_plain", "every text cell of up to 4 characters over {a b 1 + =} with a and b defined", "kept"),
        ],
        "outside": "longer programs; more than two parameters; definitions imported from other modules (C12)",
    },
    "C05": {
        "jobs": [
            job("c05_cell", "up to 3 characters of printable ASCII, tab, LF, CRLF, e-acute, ideographic space in 6 CSV contexts", "compiled", "error"),
            job("c05_formula", "up to 2 such characters in 6 formula contexts", "compiled", "error"),
            job("c05_formula4", "4 characters of {1 a e-acute ( , quote - % space} in 6 formula contexts", "compiled", "error"),
            job("c05_opts", "up to 3 such characters in 9 cell option contexts", "compiled", "error"),
            job("c05_valid", "up to 2 such characters in 8 data validation contexts", "compiled", "error"),
            job("c05_code", "up to 2 such characters in 7 code section contexts", "compiled", "error"),
            job("c05_code4", "4 characters of {a 1 e-acute space LF : = ( ,} in 7 code section contexts", "compiled", "error"),
            job("c05_long", "5 kinds of malformed text of 46 to 51 characters followed by up to 2 arbitrary characters", "error"),
            job("c05_many", "6 kinds of text that contain 7000 times one of 5 characters, doubled quotes, continued lines or escaped quotes: the depth of the stack does not grow", "compiled"),
            job("c05_number", "9 places that take a number, 7 leads of up to 32 digits, a free last digit", "compiled", "error"),
            job("c05_float", "3 places that take a decimal number, 5 leads, 11 tails, a free last character", "compiled", "error"),
            job("c05_kv", "command-line key=value: 4 starts and up to 2 arbitrary characters", "compiled", "error"),
            job("c05_fill", "fill amounts up to 2^64 and beyond, followed by a second fill", "compiled", "error"),
            job("c05_cell4", "exactly 4 such characters in 6 CSV contexts", "compiled", "error", tier="thorough", time=2400),
            job("c05_formula5", "5 characters of {1 a e-acute ( , quote - % space} in 6 formula contexts", "compiled", "error", tier="thorough", time=2400),
            job("c05_opts4", "exactly 4 such characters in 9 cell option contexts", "compiled", "error", tier="thorough"),
            job("c05_valid3", "exactly 3 such characters in 8 data validation contexts", "compiled", "error", tier="thorough"),
            job("c05_code5", "5 characters of {a 1 e-acute space LF : = ( ,} in 7 code section contexts", "compiled", "error", tier="thorough", time=2400),
        ],
        "outside": "longer texts; formulas nested some thousand levels deep (they exhaust the stack); how long compiling takes; other characters",
    },
    "C06": {
        "jobs": [
            job("c06_marks", "every text of up to 5 characters over {a , newline [ ] ! = / '} that has no option or formula", "value", "rows"),
            job("c06_csv", "every text of up to 6 characters over {a , newline quote space # backslash}", "value", "rows", "padding"),
            job("c06_dash", "every text of up to 6 characters over {a - , newline space quote} without a code section", "value", "rows"),
            job("c06_char", "any two printable ASCII characters, and 4 characters of several bytes or a tab, in 6 contexts", "value", "rows", "padding"),
            job("c06_again", "compiling again the output of every text of up to 5 characters over {a , newline quote space = [ 1}", "same", "rejected"),
        ],
        "outside": "longer texts",
    },
    "C07": {
        "jobs": [
            job("c07_three", "three rows, each plain or repeated 0 to 3 times, a cell variable and a row variable on any of them, 8 formulas", "filled"),
            job("c07_endless", "an endless fill with 3 rows before and 4 after it (other endless fills and more than 1000 rows included), variables on any row, 3 formulas", "filled", "rejected"),
            job("c07_four", "four rows, each plain, repeated twice or endlessly", "filled", "rejected"),
            job("c07_beyond", "fills that begin or end beyond row 1000", "filled"),
        ],
        "outside": "more than three source rows; more than one variable of a kind",
    },
    "C08": {
        "jobs": [
            job("c08_which", "5 names, defined by any of code section, cell, command line and parameter (4 definitions each), 8 formulas", "resolved"),
            job("c08_value", "every command-line value of up to 5 characters over {1 a + ( ) , quote =}", "resolved", "rejected"),
            job("c08_address", "11 columns up to AZZ, 64 combinations of lines above, 3 code sections, 5 spellings of the option", "resolved"),
        ],
        "outside": "a name defined both on the command line and in the source, of which neither is documented to win; longer values",
    },
    "C09": {
        "jobs": [
            job("c09_one", "every option with every documented value, name, alias, spacing and case, on a cell or row", "set"),
            job("c09_two", "any two options with any documented values, in one pair of brackets", "set"),
            job("c09_inherit", "any row option with any cell option on any of three cells", "set"),
            job("c09_name", "every lower-case name of up to 3 letters, with 5 arguments, on a cell or row", "accepted", "rejected", "fill"),
            job("c09_near", "every documented name with any one letter replaced by any letter", "accepted", "rejected"),
            job("c09_value", "every value of up to 3 letters and digits for every option with a fixed list of values", "accepted", "rejected"),
            job("c09_nearvalue", "every documented value with any one letter replaced by any letter or digit", "accepted", "rejected"),
            job("c09_color", "colours of 2 to 7 digits over {0 1 7 9 a b f A B F g z}, some of them fixed", "colour", "rejected"),
            job("c09_text", "every quoted text of up to 4 characters over {a space quote backslash ] , e-acute /}", "text", "rejected"),
            job("c09_escape", "any two printable characters (but the double quote) in quoted texts, also after backslashes, for 3 options", "text", "rejected"),
            job("c09_size", "every font size of up to 4 digits", "size", "rejected"),
            job("c09_place", "misplaced, repeated and unterminated options", "rejected"),
            job("c09_three", "three row options together or apart, and a cell option", "set", tier="thorough"),
        ],
        "outside": "more than three options; longer names and values",
    },
    "C10": {
        "jobs": [
            job("c10_number", "every numeric validation by every name, numbers of up to 19 digits", "validation"),
            job("c10_text", "every text validation by every name, texts of up to 3 characters", "validation"),
            job("c10_none", "every validation without arguments by every name", "validation"),
            job("c10_date", "every date validation by every name, 40 days of 16 months, 3 notations", "validation", "rejected"),
            job("c10_list", "lists of up to 3 dates, numbers, texts and words with free characters", "list"),
            job("c10_range", "every range of up to 4 characters over {A Z 1 $ : b} after 3 leads", "range", "rejected"),
        ],
        "outside": "longer arguments and lists; spelling of quoted texts in validations beyond the listed characters",
    },
    "C11": {
        "jobs": [
            job("c11_row", "one row of 1 to 3 cells over one of 1 to 3 cells, and a second row over one of 1 to 2 cells, each cell filled or empty, with and without --safe", "kept", "replaced", "beside"),
            job("c11_rows", "0 to 3 rows over 0 to 4 existing rows of 4 shapes, with and without --safe", "kept", "replaced", "beside"),
            job("c11_lines", "every existing file of up to 5 lines, each blank or of 3 kinds (one with a quoted line break), with any of the 3 line ends, ended or not, under a spreadsheet of 3 rows, with and without --safe", "kept", "replaced", "beside", "blank line"),
            job("c11_text", "every existing value of up to 4 characters over {a , space quote newline = [ #}, with and without --safe", "kept", "replaced", "beside"),
        ],
        "outside": "wider tables; existing CSV files with blank lines (which the CSV format does not distinguish from nothing)",
    },
    "C12": {
        "jobs": [
            job("c12_graph", "in both orders of the imports, every acyclic import graph over main and three modules, 3, 3 and 2 definitions, shadowing by main", "resolved", opts=["--one-schedule"]),
            job("c12_names", "parameters, variables and functions of three modules with free choice of names", "resolved", opts=["--one-schedule"]),
            job("c12_same", "a variable and a function of the same name in main, its import and an import of that one, 3 formulas", "resolved"),
            job("c12_cycle", "every list of up to 2 imports in each of three modules: cycles, self-imports and repetitions", "resolved", opts=["--one-schedule"]),
            job("c12_missing", "every import graph over main and three modules, each of which is fine, missing or malformed", "loaded", "reported", opts=["--one-schedule"]),
            job("c12_value", "a variable defined as every text of up to 4 characters over {w x 1 + - ( ) f ,}, imported or defined in main", "same", "rejected", opts=["--one-schedule"]),
            job("c12_body", "a function whose body is every text of up to 4 characters over {a b w v + - ( ) ,}, imported or defined in main", "same", "rejected", opts=["--one-schedule"]),
            job("c12_code", "a code section with every text of up to 4 characters over {w f space : = newline # ,}, imported or in main", "same", "undefined", "rejected", opts=["--one-schedule"]),
            job("c12_schedule", "three modules with 8 import graphs (a cycle included), one of them present or missing, under every schedule of the loader's threads with up to 1 preemption at synchronisation points", "loaded", "reported", opts=["--preempt", "1"]),
            job("c12_value5", "likewise, texts of up to 5 characters", "same", "rejected", opts=["--one-schedule"], tier="thorough"),
            job("c12_code5", "likewise, texts of up to 5 characters", "same", "undefined", "rejected", opts=["--one-schedule"], tier="thorough"),
        ],
        "outside": "more modules; modules in other directories (the lexer does not accept them); which of two imported definitions of the same name wins",
    },
    "C13": {
        "jobs": [
            job("c13_history2", "three files with 4 import graphs: every first compilation and every 2 of 12 edits, deletions and compilations of either file, with and without --no-cache and with 3 command lines, with other timestamps each", "compiled", "rejected", opts=["--one-schedule"]),
            job("c13_mtime", "any difference of the times of source and object code within 256 seconds, for the main and for an imported file", "newer", "older", opts=["--one-schedule"]),
            job("c13_torn", "object code of any of three files cut at any byte or replaced by arbitrary bytes", "compiled", opts=["--one-schedule"]),
            job("c13_version", "object code of any of three files with any smaller digit in its version, or with --no-cache, and with other content", "no cache", opts=["--one-schedule"]),
            job("c13_place", "every 2 of 4 compilations: by two paths, of another file of the same stem, after moving all files", "compiled", opts=["--one-schedule"]),
            job("c13_history3", "likewise, every 3 of 12 steps", "compiled", "rejected", opts=["--one-schedule"], tier="thorough"),
        ],
        "outside": "longer histories; sources changed without changing their time; compilers running at the same time",
    },
    "C14": {
        "jobs": [
            job("c14_defs", "576 programs of two variables and two functions that refer to each other, under 4 orders of the hash tables", "error", "output", opts=["--one-schedule"]),
            job("c14_imports", "64 import graphs over four files with names defined several times, some of the files malformed, under 4 orders of the hash tables", "error", "output", opts=["--one-schedule"]),
            job("c14_names", "names bound in up to four places and up to twice on the command line, under 4 orders of the hash tables", "output", opts=["--one-schedule"]),
            job("c14_errors", "up to 6 errors of 5 kinds in one file, under 4 orders of the hash tables", "output", "error", opts=["--one-schedule"]),
            job("c14_rows", "three rows evaluated by two threads, any of them erroneous, under every schedule with up to 1 preemption at synchronisation points", "output", "error", opts=["--delays", "0", "--preempt", "1"]),
            job("c14_rows_delays", "likewise, under every schedule with up to 2 delays", "output", "error", opts=["--delays", "2"]),
            job("c14_rows2", "likewise, under every schedule with up to 2 preemptions", "output", "error", opts=["--delays", "0", "--preempt", "2"], tier="thorough", time=800),
            job("c14_rows_both", "likewise, under every schedule with up to 1 preemption and 1 delay", "output", "error", opts=["--delays", "1", "--preempt", "1"], tier="thorough"),
        ],
        "outside": "other hash orders; more threads and preemptions; weaker memory orders than sequential consistency",
    },
    "C15": {
        "jobs": [
            job("c15_formula", "6 kinds of errors in a formula, after up to 2 symbolic characters of blanks or text, after options, other cells, rows and code sections", "formula", opts=["--one-schedule"]),
            job("c15_option", "9 kinds of errors in options of cells and rows, likewise", "option", opts=["--one-schedule"]),
            job("c15_place", "options that are misplaced or not ended, likewise", "place", opts=["--one-schedule"]),
            job("c15_code", "7 kinds of errors in the code section after up to 2 lines and up to 3 symbolic characters of blanks, comments or text", "code", opts=["--one-schedule"]),
            job("c15_csv", "3 kinds of malformed CSV after up to 3 symbolic characters", "csv", opts=["--one-schedule"]),
            job("c15_eval", "wrong calls in any of two columns after up to 2 rows of 4 kinds, fills included", "eval", opts=["--one-schedule"]),
            job("c15_import", "errors of 4 kinds in a directly or indirectly imported file", "import", opts=["--one-schedule"]),
            job("c15_formula_deep", "errors in formulas with up to 3 symbolic characters and more surroundings", "formula", opts=["--one-schedule"], tier="thorough"),
            job("c15_option_deep", "errors in options, likewise", "option", opts=["--one-schedule"], tier="thorough"),
        ],
        "outside": "errors in values of --key-values; which of several errors is reported; texts of messages",
    },
    "C16": {
        "jobs": [
            job("c16_text", "cells with any text of up to 3 characters over 'a1 .-e%=', at any of 7 columns up to ZZ+1 and 3 rows", "text"),
            job("c16_char", "cells with any 2 printable ASCII characters", "text"),
            job("c16_literal", "formulas that are one number (up to 13 digits, fractions), truth value, text of up to 2 symbolic characters, name or signed number", "number", "boolean", "text", "formula", "signed"),
            job("c16_formula", "formulas with up to 3 symbolic characters after 4 beginnings, compared with what is written to CSV", "formula"),
            job("c16_style", "each documented option with each value, on the cell or the row, in each of 3 columns", "styled"),
            job("c16_two", "every pair of options and values on one cell", "styled"),
            job("c16_inherit", "every pair of an option of the row and one of the cell, in 2 columns", "styled"),
            job("c16_border", "every pair of sides with every style", "styled"),
            job("c16_color", "colours with 3 symbolic digits for background, font and border", "color"),
            job("c16_note", "notes with up to 3 symbolic characters, at 4 places", "note"),
            job("c16_number_rules", "validations of numbers by each name, with up to 2 numbers of symbolic digits", "validation"),
            job("c16_date_rules", "validations of dates by each name, with dates of symbolic digits", "validation"),
            job("c16_text_rules", "validations of texts with up to 3 symbolic characters", "validation"),
            job("c16_other_rules", "validations by kind, list and range", "validation"),
            job("c16_file", "each option with the real writer and reader of the file format", "styled"),
        ],
        "outside": "the bytes of the file format (one option at a time is written and read for real); charts, themes and other parts that csv++ does not write; texts of prompts",
    },
    "C17": {
        "jobs": [
            job("c17_merge", "every pair of 6 kinds of existing cells and of 6 kinds of compiled cells, with and without --safe", "kept", "overwritten"),
            job("c17_keep", "notes and validations anywhere within 3 by 3 cells, existing or new sheet among others, by any of 3 names, 3 programs", "existing", "new"),
            job("c17_twice", "the same program twice: every pair of options and values", "twice"),
            job("c17_bad", "a file that is not a workbook (up to 3 symbolic bytes), a program that is rejected", "workbook", "program"),
        ],
        "outside": "parts of workbooks that umya-spreadsheet does not preserve; more than one cell of each kind",
    },
    "C18": {
        "jobs": [
            job("c18_text", "every text of up to 3 of 8 symbolic characters, at 9 places", "text"),
            job("c18_literal", "numbers with a symbolic digit, booleans, texts, references, signs and percentages, at 4 places", "number", "boolean", "text", "formula", "signed"),
            job("c18_formula", "4 formula starts with up to 3 of 10 symbolic characters: what CSV gets, or an error for both", "formula", "rejected"),
            job("c18_grid", "4 programs with fills, variables, functions and a symbolic digit: cell by cell what CSV gets", "grid"),
            job("c18_style", "every option with every value, on any cell of a row or on the row", "styled"),
            job("c18_two", "every pair of options and values on one cell", "styled"),
            job("c18_inherit", "every pair of an option of a row and an option of a cell", "styled"),
            job("c18_border", "every two sides, every style, with and without colour", "styled"),
            job("c18_color", "every colour of 2 symbolic hex digits (and fixed ones), 3 options", "color"),
            job("c18_note", "notes of up to 3 of 7 symbolic characters, 9 places, 1 or 2 notes", "note"),
            job("c18_number_rules", "all number rules, signs and a symbolic digit", "validation"),
            job("c18_date_rules", "all date rules, symbolic days", "validation"),
            job("c18_text_rules", "all text rules and custom formulas, up to 3 of 7 symbolic characters", "validation"),
            job("c18_other_rules", "the rules without numbers, dates and texts; lists and ranges with symbolic characters", "validation"),
            job("c18_existing", "three existing cells of every kind, 3 kinds of new cells, with and without --safe", "kept", "written"),
            job("c18_offset", "existing sheets of up to 4 by 3 cells per row, offsets of up to 2 each way, with and without --safe", "kept", "written"),
            job("c18_many", "8 numbers of rows around multiples of a request's 1000, with and without offsets", "rows"),
            job("c18_id", "sheet ids of up to 4 of 6 symbolic characters, with and without another output", "sheet"),
        ],
        "outside": "the network, authentication, what the service does with a request; more than 2001 rows; numbers of more than one symbolic digit",
    },
    "C19": {
        "jobs": [
            job("c19_csv", "any of the first 8 changing or 12 reading operations fails with one of 4 errors, writes only part, is where the machine stops or where the disk becomes full; 3 previous outputs, --safe, --backup", "survived", "complete", "backup", "error"),
            job("c19_large", "likewise for any of the first 12 operations, with files of several buffers", "survived", "complete", "backup", "error"),
            job("c19_excel", "likewise for any of the first 9 changing operations and for reading, with or without a previous workbook", "survived", "complete", "backup", "error"),
            job("c19_backups", "2 to 5 compilations with --backup of 4 output names within the same time, one of them with any such fault", "backup"),
            job("c19_recover", "any such fault in a compilation of two modules with object code of this, an older or no source; two compilations after it", "survived", "complete", "error"),
            job("c19_rejected", "every formula of 3 characters over {= 1 + ( , quote}, --safe, --backup, with and without a previous output", "rejected", "written"),
            job("c19_target", "4 stems with every extension of 2 to 5 characters over {c s v x l o d C S V X .}", "written", "rejected"),
        ],
        "outside": "more than one fault per run; faults of asking for metadata; writes that an operating system accepts and loses later; the previous CSV output when a write fails and no backup was asked for",
    },
    "C20": {
        "jobs": [
            job("c20_values", "every way to write the options that take values, 8 sets of keys, in any rotation of the arguments and backwards", "done"),
            job("c20_flags", "every way to write --safe, --backup, --no-cache and --verbose, joined or not, with and without a previous output", "done", "safe", "backup"),
            job("c20_keys", "a key with every value of up to 3 of 11 symbolic characters, compared with a definition in the code section", "same", "rejected"),
            job("c20_places", "programs and outputs in any of 7 written directories, 4 names of each, with and without --backup, with a module", "done", "backup"),
            job("c20_help", "--help and --version before and after 6 other command lines", "help"),
            job("c20_fails", "20 command lines and 7 programs that are wrong, with 5 sets of flags", "error"),
            job("c20_faults", "--backup with any of the first 12 changing or 24 reading operations failing in any of 4 ways, with and without --safe", "done", "safe", "backup", "error"),
        ],
        "outside": "Google Sheets; arguments that are not UTF-8; what is written to the terminal; the program's own name",
    },
}
