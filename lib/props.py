#!/usr/bin/env python3
"""The properties, in one place.  `python3 lib/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os

TECH = "symbolic execution of the compiled code's LLVM IR with an SMT solver (bounded), counterexamples replayed natively"
NOTE = "Bounded: every value within the stated bounds is decided by the solver on the IR of the current source; nothing is claimed outside them. Trusts rustc's IR, the engine (checked each run by replaying sampled models natively) and z3. "
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note="", hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, hook=hook, na=na))


prop("C01", "CSV reading follows the documented dialect",
     "Reading any CSV text yields exactly the records and fields RFC 4180 prescribes (quoted separators, doubled quotes and line breaks inside quotes; every record ends at its line break, LF and CRLF alike), with field values trimmed, lines starting with # ignored, and a backslash before a line break joining the two lines. Text whose quoting is malformed is reported as an error, never silently repaired, and well-formed text is never rejected.",
     ["inputs"], "every CSV text up to the bounded length over alphabets that contain every character the dialect treats specially",
     "the tests read about fifteen fixed documents; which field a character lands in depends on every combination of quote, separator, blank, line break, comment and continuation before it",
     ["csvp/src/parser.rs", "csvp/src/field_builder.rs"], [("recursive-descent field and record parser", "csvp/src/parser.rs"), ("trimming", "csvp/src/field_builder.rs")],
     ["records returned by the CSV reader"], note="Oracle: an independent state-machine reader of the dialect, executed symbolically beside the real one.")
prop("C02", "Every field knows its grid address and source position",
     "Each field read from a CSV text carries the row and column it has in the resulting grid (comments and skipped lines do not count), and maps each character of its value to the exact line and offset that character has in the source text.",
     ["inputs"], "every CSV text up to the bounded length over alphabets with line breaks, continuations, comments, quotes and blanks, and any number of lines above it",
     "tests look at the first line of two documents; positions go wrong only after particular line breaks, continuations, escapes or leading blanks",
     ["csvp/src/parser.rs", "csvp/src/field_builder.rs", "csvp/src/field.rs"], [("line and offset tracking", "csvp/src/parser.rs"), ("position list kept beside the value", "csvp/src/field_builder.rs")],
     ["fields returned by the CSV reader"], note="Oracle: positions computed directly from the source text.")

prop("C03", "A compiled formula means what the source formula means",
     "For every formula in a cell, the formula written to the output denotes the same expression tree under standard spreadsheet grammar: the same literals, references, ranges, calls, argument lists (empty arguments included), prefix and percent operators, grouping and precedence. A formula that is malformed is reported as an error, never partially compiled, and a well-formed one is never rejected. Compiling the output again changes nothing.",
     ["inputs"], "every formula text up to the bounded length over several alphabets, and longer chains of operands with any operators and grouping",
     "tests compile a few dozen fixed formulas; precedence, grouping and token boundaries depend on every combination of adjacent tokens",
     ["src/parser/ast_lexer/mod.rs", "src/parser/ast_parser.rs", "src/ast/node.rs", "src/ast/references.rs", "src/ast/display.rs"],
     [("tokens", "src/parser/ast_lexer/mod.rs"), ("Pratt parser", "src/parser/ast_parser.rs"), ("printing", "src/ast/display.rs")],
     ["cells of the CSV output"], note="Oracle: an independent lexer, parser and printer of spreadsheet formulas, executed symbolically beside the real ones.")
prop("C04", "Definitions are substituted exactly",
     "Where a formula uses a variable or calls a function that the code section defines, the compiled formula is the definition with every parameter replaced by its argument (simultaneously, without capturing other names), to any depth; a call with the wrong number of arguments is an error; recursive definitions do not make the compiler run forever; and names inside strings, parts of longer names, undefined names and cells that are not formulas are left alone.",
     ["inputs"], "every program of the bounded shapes: free names in definitions, parameters, bodies, arguments and cells",
     "tests use a handful of programs with distinct names; wrong substitution needs particular coincidences of parameter, argument, variable and function names and of nesting",
     ["src/ast/eval.rs", "src/ast/mod.rs", "src/module/mod.rs"], [("variable and function evaluation", "src/ast/eval.rs"), ("scope of definitions", "src/scope")],
     ["cells of the CSV output"], note="Oracle: capture-free simultaneous substitution on the reference parse tree.")

prop("C05", "Compilation always answers: a spreadsheet or an error",
     "Whatever the source text or the command-line definitions contain, compiling ends with either a written spreadsheet or an error message; it never panics, overflows, or runs forever.",
     ["inputs"], "every text up to the bounded length, multi-byte characters included, in every place of the language: CSV text, formulas, cell options, validations, code section, numbers, repetition counts, command line",
     "tests feed sensible input; crashes hide behind single unusual characters, empty pieces, huge numbers and characters of several bytes next to a shortened or sliced text",
     ["src/parser", "src/source_code/mod.rs", "src/error", "csvp/src/parser.rs"], [("lexers and parsers", "src/parser"), ("error construction and display", "src/error"), ("fill expansion", "src/spreadsheet/mod.rs")],
     ["result of the compiler"], note="Panics, arithmetic overflow, out-of-range slices and exceeded step budgets are found as reachable states.")

prop("C06", "Plain CSV passes through unchanged",
     "A CSV document that uses no csv++ feature compiles to the same table: the same rows in the same order, the same values in the same columns, short rows padded with empty cells to the width of the widest; and compiling the output of any document again gives that output.",
     ["inputs"], "every text up to the bounded length over alphabets with the characters csv++ gives a meaning elsewhere, those CSV is sensitive to, and characters of several bytes",
     "tests compile a few tidy tables; a value changes only when it resembles something else at a particular place (a bracket, a dash, a sign, a keyword, a quote)",
     ["src/parser/cell_lexer", "src/source_code/mod.rs", "src/spreadsheet/mod.rs", "src/target/csv/compilation_target.rs"],
     [("splitting off the code section", "src/source_code/mod.rs"), ("recognising options and formulas", "src/parser/cell_lexer"), ("writing CSV", "src/target/csv/compilation_target.rs")],
     ["the CSV output"], note="Oracle: the independent reader of C01 applied to source and output.")

prop("C07", "Fills repeat rows and resolve variables relative to the row",
     "A row with fill=N appears exactly N times in its place, and one with a bare fill takes what the other rows leave of 1000; all other rows keep their order and content. Within a fill, a cell variable or row variable bound in that fill is the cell or row of the copy at hand, also when it is reached through functions, other variables or arguments; elsewhere it is the whole range of the copies; one bound outside of any fill is always the single cell or row where it is bound.",
     ["inputs"], "every arrangement of rows within the bounds: which are filled and how often, where variables are bound, and how the formula reaches them",
     "tests fill one row a few times; wrong addresses need fills above other fills, empty fills, ends beyond row 1000, or variables used through functions",
     ["src/spreadsheet/mod.rs", "src/row/mod.rs", "src/ast/variable_value.rs", "src/ast/eval.rs", "src/cell_options/fill"],
     [("expansion of fills", "src/spreadsheet/mod.rs"), ("addresses relative to the row", "src/ast/variable_value.rs")],
     ["rows and formulas of the CSV output"], note="Oracle: direct computation of where each copy ends up.")
prop("C08", "Every name refers to the right definition",
     "A name used in a formula or function body refers to the parameter of that name if there is one, else to the code section's definition, else to the cell bound to it, whose address is that of the cell in the output whatever comments, continued lines, code section or fills precede it; names given on the command line as key=value stand for the value, read as an expression, everywhere in the spreadsheet; a value that is not an expression is an error.",
     ["inputs"], "every combination of places that define the name, every bounded command-line value, and every bounded layout above and beside the cell",
     "tests use one definition per name and cells in the first rows; wrong scoping shows only when definitions compete or are reached through functions, wrong addresses beyond column Z or after uncounted lines",
     ["src/scope/mod.rs", "src/ast/eval.rs", "src/ast/variable_value.rs", "src/parser/ast_parser.rs", "src/module/mod.rs", "src/spreadsheet/mod.rs"],
     [("precedence of definitions", "src/scope/mod.rs"), ("cell variables", "src/spreadsheet/mod.rs"), ("command-line definitions", "src/parser/ast_parser.rs")],
     ["cells of the CSV output"], note="Oracle: lexical scoping on the reference parse tree.")
prop("C09", "Options apply exactly what they say, where they say it",
     "Each documented cell and row option, under each of its names and with each of its values in any case, sets exactly the attribute it documents to that value, on exactly the cell it is written on, or on every cell of the row unless the cell itself overrides it; text formats and borders accumulate, other attributes take the last value. Undocumented names, undocumented values, malformed colours, sizes and texts and misplaced options are errors.",
     ["inputs"], "every option, name, value, alias, spelling and place, every pair of them, and every bounded undocumented name and value",
     "tests check one value of most options alone; confusion between options, aliases and rows needs particular pairs and spellings",
     ["src/parser/cell_parser", "src/parser/cell_lexer", "src/cell_options", "src/row/mod.rs", "src/cell/mod.rs", "src/rgb"],
     [("option parser", "src/parser/cell_parser"), ("inheritance from the row", "src/row/mod.rs"), ("colours", "src/rgb")],
     ["attributes of rows and cells of the compiled module"], note="Oracle: a table of the documented options and values.")
prop("C10", "Validations mean what is written",
     "Each documented data validation, under each of its names and with one or two numbers, dates, texts, a list or a range, is kept on the cell with exactly that meaning and those arguments in order; dates in every documented notation denote that calendar day; days that do not exist, malformed ranges, missing or superfluous arguments are errors.",
     ["inputs"], "every validation by every name, with arguments over the bounded digits, texts, dates, lists and ranges",
     "tests check a few validations by their short name with one argument each",
     ["src/parser/cell_parser", "src/cell_options/data_validation.rs", "src/date_time"],
     [("validation parser", "src/parser/cell_parser"), ("dates", "src/date_time")],
     ["validation of the cells of the compiled module"], note="Oracle: a table of the documented validations and the calendar.")


prop("C11", "Writing over an existing CSV file keeps what it should",
     "When the CSV output already exists, --safe keeps every value it holds, at its place and character by character, and only fills in what was empty; without --safe every cell of the spreadsheet gets its compiled content; in either mode the values that the spreadsheet has no cell for stay where they are.",
     ["inputs", "histories"], "every existing table and every compiled table within the bounded numbers of rows and columns, each cell filled or empty, with and without --safe",
     "the tests merge single cells in memory and never a file with other dimensions than the spreadsheet",
     ["src/target/mod.rs", "src/target/csv/mod.rs", "src/target/csv/compilation_target.rs"], [("merging", "src/target/mod.rs"), ("reading existing values", "src/target/csv/mod.rs")],
     ["the CSV output file"], note="Oracle: cell-by-cell merge of the two tables.")
prop("C12", "Imports bring in exactly what the imported file defines",
     "A file that is imported with use gives the importing file all of its own definitions, each meaning what it means in that file (through that file's own imports, with parameters taking precedence), and nothing else; its own cells are ignored; definitions in the importing file win over imported ones. Circular, repeated and shared imports end and work whatever order the loader's threads run in. Every file that cannot be read or parsed is reported, and no other.",
     ["inputs", "schedules"], "every import graph over up to four files, every bounded definition text, and every interleaving of the loader's threads within the bound",
     "tests import a single chain of files with distinct names, on whatever schedule happens",
     ["src/module_loader/mod.rs", "src/module/mod.rs", "src/scope/mod.rs", "src/ast/eval.rs", "src/module_path"],
     [("concurrent loading", "src/module_loader/mod.rs"), ("merging scopes", "src/scope/mod.rs")],
     ["cells of the CSV output", "error message"], note="Oracle: module-wise substitution on the reference parse trees, and inlining of the imported text. Threads are scheduled by the engine.")
prop("C13", "The object code cache never changes the result",
     "Whatever was compiled, edited, deleted or moved before, and whatever object files lie about (older, damaged, from other versions, other paths or other command lines), compiling gives the result that a compilation without any cache gives; a source changed after its object code was written is compiled again; with --no-cache no object code is read or written.",
     ["histories", "inputs", "crash_points"], "every bounded history of edits and compilations of a project of three files, every truncation of object files, every order of timestamps",
     "tests check one up-to-date and one outdated file; staleness needs a particular order of edits, compilations and imports",
     ["src/module_loader/mod.rs", "src/module/mod.rs", "src/compiler/mod.rs", "src/source_code/mod.rs"], [("object files", "src/module/mod.rs"), ("use of cached modules", "src/module_loader/mod.rs")],
     ["the CSV output", "error message", "object files"], note="Oracle: compilation of the same sources in a directory without object files.")
prop("C14", "Compiling is deterministic",
     "The same sources and command line give the same output or the same error message on every run, whatever the order of hash tables and the interleaving of threads: in particular, of several errors always the same one is reported.",
     ["inputs", "schedules"], "every program of the bounded shapes, under several orders of all hash tables, and every schedule of the evaluating threads within the bounds",
     "a test runs once, with one random hash seed and on one schedule",
     ["src/ast/eval.rs", "src/ast/references.rs", "src/module/mod.rs", "src/module_loader/mod.rs", "src/scope/mod.rs"],
     [("substitution of definitions", "src/ast/eval.rs"), ("parallel evaluation of rows", "src/module/mod.rs"), ("collecting load errors", "src/module_loader/mod.rs")],
     ["the CSV output", "error message"], note="Oracle: equality of the runs; hash seeds and thread schedules are inputs of the engine.")
prop("C15", "Errors point at their cause",
     "An error in a source file is reported with the name of that file (the imported one where it is imported), for cells with the address that the cell has in the spreadsheet that is produced, and with the line and column of the offending text, whatever comes before it: options, quoted fields, escaped quotes, line breaks within fields and strings, comments, characters outside of ASCII. The excerpt shows that line with its number, the caret below that column.",
     ["inputs"], "every bounded source text before the offending piece, for each kind of error",
     "the tests compare a handful of positions, nearly all on the first line of a source without line breaks in fields",
     ["src/error", "src/source_code", "src/parser", "csvp/src"], [("positions of tokens", "src/parser/token_input.rs"), ("excerpts", "src/source_code/mod.rs"), ("cell offsets", "csvp/src")],
     ["error message", "csvpp::Error"], note="Oracle: the place at which the harness has put the offending text.")

prop("C16", "Excel output shows what was compiled",
     "In the Excel file every cell of the spreadsheet is at its place with the same content that CSV output has: formulas as formulas, formulas that are a single number, truth value or text as that value, other cells as their text. Every option that Excel has a counterpart for (formats, alignment, wrapping, borders, colours, fonts, notes, validations) appears on exactly its cells with that meaning, and nothing else is in the sheet.",
     ["inputs"], "every bounded text, number and formula, every option, value and pair of them, every validation with bounded arguments, at several places",
     "the tests look at one workbook with each feature once; wrong places, colours, sides, dates and quotes need particular combinations",
     ["src/target/excel", "src/rgb", "src/date_time"], [("cells and notes", "src/target/excel/mod.rs"), ("styles", "src/target/excel/excel_cell.rs"), ("validations", "src/target/excel/cell_validation.rs")],
     ["the workbook written"], note="The code of csv++ and the object model of umya-spreadsheet are executed; its XML and zip code is executed by c16_file and by replays only.")
prop("C17", "Writing into an existing workbook changes only what it should",
     "When the Excel file exists, the sheet of the given name (or of the source) is updated or added and all other sheets stay as they are; in that sheet cells that were compiled replace the existing ones with value, style, note and validation, unless --safe is given and the existing cell has a value, which is then kept; cells, notes and validations elsewhere stay. Compiling twice changes nothing more, a file that is not a workbook is an error, and after any error the file is as it was.",
     ["inputs", "histories"], "every combination of the kinds of existing and compiled cells, notes and validations at every bounded place, sheets by several names",
     "the tests write to fresh files only, or compare a single cell",
     ["src/target/excel", "src/target/mod.rs"], [("which value wins", "src/target/mod.rs"), ("updating in place", "src/target/excel/mod.rs")],
     ["the workbook before and after"], note="As for C16; the file system is the in-memory one of the engine.")

prop("C18", "Google Sheets is sent exactly the compiled spreadsheet",
     "The requests sent to Google Sheets cover every compiled row once and in order, starting at the --x-offset and --y-offset, each request where the one before it ended. Every cell carries the value that CSV gets (numbers, booleans, texts and formulas as such, nothing for an empty cell), and exactly the colours, borders, fonts, alignment, wrapping, number format, note and validation its options ask for, in the terms of the API. With --safe a cell of the sheet (at its place after the offset) that holds a value is sent back unchanged, as are cells beyond the end of a compiled row; without it compiled cells replace them. Any sheet id made of letters, digits, - and _ is accepted and used.",
     ["inputs", "configurations"], "every bounded text, option, pair of options, validation, note and colour, existing sheets, offsets and numbers of rows around the size of a request",
     "nothing about the requests is tested beyond their number: the service cannot be called in a test",
     ["src/target/google_sheets", "src/target/mod.rs", "src/output", "src/rgb"], [("requests, values and merging", "src/target/google_sheets/batch_update_builder.rs"), ("formats and validations", "src/target/google_sheets/google_sheets_cell.rs")],
     ["the BatchUpdateSpreadsheetRequest that would be sent"], hook="csvpp::verif::batch_update (cfg csvpp_verif): builds the requests for a compiled module and given existing cells",
     note="The code that builds the requests is executed; sending them, the credentials and what the service does with them are outside.")

prop("C19", "Success means written, and failures lose nothing that was to be kept",
     "When the program reports success, the output file holds the whole result, whatever operations of the operating system failed, were cut short or were interrupted on the way; otherwise it reports an error and never panics. With --backup the previous content of the output is, after any failure and at whatever point the machine stops, intact in the output or in a backup beside it, under a name that no existing file had, whatever the output is called and however often it is backed up. A workbook is replaced as a whole or not at all. A program that is rejected, or a failure while reading, leaves the output as it was, and whatever a failed compilation leaves behind does not change the result of a later one. The extension of the output (.csv, .xlsx, .ods in any case) decides what is written; any other is an error.",
     ["inputs", "fault_sequences", "crash_points", "histories"], "every file operation of the bounded runs as the one that fails, is cut short, or is the last one, with every previous state of the output, and every bounded extension",
     "the tests never make an operation fail, and there is no test of backups at all",
     ["src/target", "src/output", "src/module/mod.rs", "src/main.rs"], [("backups", "src/target/file_backer_upper.rs"), ("writing", "src/target/csv/compilation_target.rs"), ("replacing workbooks", "src/target/excel/compilation_target.rs"), ("kind of output", "src/output")],
     ["the files in the directory", "result of the compiler"], note="Oracle: the directory before and the result of an undisturbed run. Faults are injected by the engine's file system, and by a preloaded library in replays; the sequence of main() (compile, back up, write) is repeated in the harness.")


prop("C20", "The command line does what its help says",
     "However a documented command line is written (options before or after the input, short, long, joined or with =), the program compiles the given input with exactly the given settings: the output is where -o says and nowhere else, -k definitions mean what the same definitions mean in the code section, --safe keeps existing values, --backup puts a copy of the previous output beside it before anything is changed, --no-cache leaves no object code, -v changes nothing in the files, modules are looked for next to the input. It then exits with 0. Help and version exit with 0 and touch no file. Any other command line, and any program that cannot be compiled, ends with another exit status and without a change of the output; a failure in a run with --backup loses nothing.",
     ["inputs", "configurations", "fault_sequences"], "every bounded command line in every order and notation, every bounded value of a key, every bounded fault",
     "the tests build the settings directly and never run the program",
     ["src/main.rs", "src/cli_args.rs", "src/compiler", "src/config", "src/output", "src/logger.rs", "src/parser/ast_parser.rs"], [("order of steps and exit status", "src/main.rs"), ("options", "src/cli_args.rs"), ("settings", "src/compiler/try_from.rs"), ("keys", "src/parser/ast_parser.rs")],
     ["exit status", "the files in the directory"], note="Oracle: the documented meaning of the options. src/main.rs is compiled into the harness unchanged and executed from its main() on, with the option parser and the standard library; the replay runs it as a process of its own.")


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            if p["hook"]:
                anchors["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/vf.py setup",
         "hooks": {"guard": "csvpp_verif", "enable": "RUSTFLAGS=\"--cfg csvpp_verif\"", "source_commits": ["118da24e021f7ff853a461b295d220c5aecb87e2"]},
         "checks": [{"property": p["id"], "quick_cmd": "python3 lib/vf.py check %s --tier quick" % p["id"], "thorough_cmd": "python3 lib/vf.py check %s --tier thorough" % p["id"],
                     "technique": TECH, "level": "model_checking", "level_note": NOTE + p["note"]} for p in P if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design(here)


def design(here):
    """the generated lists in DESIGN.md"""
    import re
    from checks import CHECKS
    b = []
    for pid, c in CHECKS.items():
        b.append("\n**%s** (outside: %s)\n" % (pid, c["outside"]))
        for j in c["jobs"]:
            b.append("* `%s`%s: %s%s" % (j["entry"], " (thorough)" if j.get("tier") else "", j["bounds"], " [%s]" % " ".join(j["opts"]) if j.get("opts") else ""))
    try:
        caught = json.load(open(os.path.join(here, "lib/plants.json")))
    except FileNotFoundError:
        caught = {}
    t = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    sd = os.path.join(here, "seeded")
    for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        t.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, "not yet run")))
    p = os.path.join(here, "DESIGN.md")
    s = open(p).read()
    for k, v in (("bounds", b), ("plants", t)):
        s = re.sub("<!-- %s -->.*<!-- /%s -->" % (k, k), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (k, "\n".join(v), k), s, flags=re.S)
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
