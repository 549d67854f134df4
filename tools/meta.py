#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both; run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, T, P, TO, PR, O, ST, K = "src/lib.rs", "src/types.rs", "src/internals/parser.rs", "src/internals/toml.rs", "src/internals/primitives.rs", "src/internals/objects.rs", "src/internals/ast/structs.rs", "src/bin/tomlkit.rs"

INDEX = {"name": "index", "meaning": "map from full key path (\"a.b[0].c\") to a shared cell with the value and a children entry (keys or count)", "where": P + " Parser.map"}
AST = {"name": "document", "meaning": "the parsed expressions with every whitespace, comment and newline slot, sharing value cells with the index", "where": P + " Parser.root, " + ST}
ERRS = {"name": "errors", "meaning": "non-fatal errors found while parsing", "where": P + " Parser.errors"}
CTX = {"name": "parse context", "meaning": "current table keys, array-of-tables counters, key stack, line count while parsing", "where": P + " Parser.last_array_tables, last_table, keychain, line_count"}

def m(name, where): return {"name": name, "where": where}

DOCBOUND = ("all documents of ~30 families enumerated to a length bound: token and character strings over the grammar's alphabet, "
  "value shapes and formatting slots, sequences of header/key-value/erroneous lines, comments and newlines in arrays, date, number and string bodies, every calendar date, "
  "every Unicode scalar value, every pair of similar key names, every one-character edit (and pairs of edits) of sample documents, long, large and deep documents")
HISTBOUND = "all sequences of up to 2, 3 or 4 set operations (every addressable path and many absent ones x every kind of value, and every value replaced by each of its neighbours) on families of documents, and walks of 24 to 40 sets"

props = []
def prop(id, title, statement, over, text, why, files, mech, state, observe, note, technique="explicit-state model checking: exhaustive bounded enumeration, every case run on the real code and compared with a reference model"):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, note=note, technique=technique))

prop("C01", "A parsed document prints back byte for byte",
  "Printing a parser after it has parsed a text gives exactly the part of the text that was parsed, and together with the leftover text a partial result reports, exactly the input: no character of whitespace, comment, newline style, number, date or string spelling is lost, added or normalised. A full result has nothing left over, and a failed parse keeps nothing.",
  ["inputs"], "for every input text, valid or not: " + DOCBOUND,
  "tests/assets.rs and get_set.rs print a few fixture documents with few formatting combinations; losslessness quantifies over every placement of whitespace, comments, newlines and every spelling of every construct, and over every point where parsing can stop.",
  [P, TO, PR, O, ST, L], [m("Display of the AST node types", ST), m("slots for whitespace and comments captured by the grammar", O + " array_value, comment_nl, table_keyval, std_table; " + TO + " expression; " + PR + " keyval"), m("leftover of Partial results", P + " parse")],
  [AST], ["Display of TOMLParser", "ParseResult leftover"],
  "Every enumerated text is parsed by the real crate and printed; printed + leftover must equal the input. No model needed beyond the text itself, so this check has no specification gap; it covers the listed families up to their length bounds.")

prop("C02", "No input or call sequence crashes or hangs",
  "For every text, every path string and every value, and every order of calls, parsing, querying, setting, constructing, validating, comparing and printing all return normally: no panic, overflow, endless loop or unbounded growth. Bad input is reported through the results only.",
  ["inputs", "histories"], "for every input text and every sequence of API calls: " + DOCBOUND + "; " + HISTBOUND + "; all constructor arguments over the number, date and string alphabets",
  "A test shows absence of a panic for its own input; robustness is a statement about every malformed document, every path string and every history, and the parser is full of index arithmetic, unwrap and RefCell borrows that only particular combinations reach.",
  [L, P, TO, PR, O, ST, T], [m("result types instead of panics", P + " parse, get_value, get_children, set_value"), m("Display impls with length arithmetic", ST), m("constructors returning Result", T)],
  [INDEX, AST, CTX], ["panic or time-out of any public call"],
  "Every case of all document, history, constructor and reuse families runs under catch_unwind with overflow and debug assertions on and a per-case watchdog; only a panic, abort or time-out is a violation. Deep nesting (up to 100000 levels, each case in a process of its own) is part of the exploration; that some thousands of levels exhaust the stack is a recorded known finding.")

prop("C03", "Every written value is found under its path, and nothing else is",
  "After parsing, looking up the dotted path of any value of the document (tables, nested inline tables, array elements by index, elements of arrays of tables) returns that value with its type, its exact spelling and its content in document order. A path that names no value in the document returns nothing.",
  ["inputs"], "for every document: " + DOCBOUND + "; for each document, every path the reference model derives and a set of absent paths (neighbouring indices, prefixes, tables, misspellings)",
  "Existing tests look up hand-picked keys of a few documents; wrong context tracking (table keys, array-of-tables indices, key nesting) shows only for particular orders and nestings of headers and values.",
  [P, PR, O, T], [m("path construction while parsing", PR + " get_current_key, insert_keyval_into_map, insert_value_into_map"), m("table and array-of-tables context", O + " std_table, array_table, start_table, add_table, array, inline_table"), m("conversion of stored values to API values", P + " get_value; sanitize_array, sanitize_inline_table")],
  [INDEX, CTX], ["TOMLParser::get_value"],
  "The whole reference index of every enumerated document is compared with the implementation's answers, path by path, plus absent paths; the reference model (refm.rs) is an independent recogniser of the same dialect.")

prop("C04", "Children listings match the structure of the document",
  "For every table, inline table, array, array of tables and for the root, the children query reports exactly the direct children: the keys in the order the document introduces them, or the number of elements. Anything without children reports none, and a path that names nothing reports nothing.",
  ["inputs"], "for every document: " + DOCBOUND + "; every path of the reference model and absent paths",
  "Child lists are maintained incrementally by several code paths (headers, implicit parents, inline tables, array elements, sub-tables of array-of-tables elements); only systematic combination of these shows a lost, doubled or misordered child.",
  [PR, O, P, T], [m("incremental child bookkeeping", O + " add_table; " + PR + " insert_value_into_map, insert_keyval_into_map"), m("children query", P + " get_children")],
  [INDEX], ["TOMLParser::get_children"],
  "Same exploration as for value lookup, comparing key lists (in order) and counts for every path.")

prop("C05", "Exactly the well-formed documents are accepted in full",
  "A text is reported as parsed in full if and only if all of it belongs to the documented TOML dialect, and otherwise as partial, with the leftover starting at the first line that does not belong to it, or as a failure when nothing could be read. Nothing malformed (bad escapes, numbers, dates, separators, control characters, headers) is silently accepted.",
  ["inputs"], "for every input text: " + DOCBOUND,
  "Acceptance is a language-equality question over all strings; tests sample a few hundred members and few non-members, while one character class in one regular expression changes infinitely many.",
  [TO, PR, O, P], [m("lexical rules", PR + " integer, float, raw_*_string, time, date, time_offset, key"), m("structural rules", O + " array, inline_table, std_table, array_table, array_sep; " + TO + " toml, nl_expression, expression"), m("full/partial decision", P + " parse")],
  [CTX], ["ParseResult variant and leftover"],
  "The reference recogniser decides every enumerated text independently; verdict and leftover must agree. Constructs that documentation and tests leave open (listed in DESIGN.md) are not judged.")

prop("C06", "Duplicate keys and invalid tables are reported exactly, first one kept",
  "Parsing reports one duplicate-key error for each key that is defined again and one invalid-table error for each header that cannot be opened, naming the offending full path and carrying the refused value or content, and no such error for anything else. The first definition keeps its value and children, and content of a refused header or value is not reachable.",
  ["inputs"], "for every document built from lines that define, redefine and extend keys, tables, inline tables, arrays and arrays of tables, in every order up to the bound, and all other document families",
  "The rules relate any two lines of a document at any distance; tests pin a handful of pairs. The set of conflicts and which definition wins can only be settled by enumerating orders and combinations.",
  [O, PR, P], [m("table placement and conflict detection", O + " find_table, is_table_with_values, add_table, start_table, std_table, array_table"), m("key insertion", PR + " insert_keyval_into_map, insert_value_into_map")],
  [INDEX, ERRS, CTX], ["ParseResult errors", "get_value", "get_children"],
  "Set of (kind, path) errors compared with the model for every case, along with values and children of the surviving index.")

prop("C07", "Mixed arrays and invalid dates are reported exactly",
  "Parsing reports a mixed-array error for every array whose elements are not all of one type, and an invalid-date error for every syntactically correct date or time that is outside the calendar or clock, each with its path, at any nesting, and none for anything else. Such a value stays part of the document.",
  ["inputs"], "for every document of the value, date, array and erroneous-line families and all others: " + DOCBOUND,
  "Whether an error is missed or doubled depends on nesting, position and on the parser's backtracking; tests cover single flat examples, and a few calendar boundaries.",
  [O, PR, T, P], [m("element type comparison", O + " map_val_to_array_type, array"), m("date validation", PR + " date_time; " + T + " Date::validate, Time::validate, TimeOffsetAmount::validate")],
  [ERRS], ["ParseResult errors"],
  "Multiset of mixed-array and invalid-date errors compared with the model (with line numbers left to C08), with the values themselves.")

prop("C08", "Reported line numbers are the real ones",
  "The line number in every reported error and in every partial result is the one-based line of the construct or leftover it is about, whatever combination of line ends, blank lines, comments, multi-line strings, arrays and earlier errors comes before it. Line feed and carriage-return line feed each count once. Columns are always reported as 0, as documented.",
  ["inputs"], "for every document of the line-counting families (all sequences of multi-line constructs x closing errors x line-end styles) and all other document families",
  "Line counting is a running total touched by every construct that can contain a newline and undone on backtracking; only combinations show a double or missing count.",
  [PR, O, TO, P], [m("running line count", PR + " count_lines and the string/array/comment rules that add to it; " + O + " comment_nl; " + TO + " nl_expression, try_keyval_comment"), m("reporting", P + " parse")],
  [CTX, ERRS], ["line numbers in ParseResult and ParseError"],
  "For each error the model knows where the construct is; implementation line numbers are compared in every enumerated case.")

prop("C09", "A successful set is what a later get returns, everything else is kept",
  "When setting a value reports success, reading that path gives the value that was set (with its type, spelling, elements and order), and every path outside it still gives exactly what it gave before. Values read out earlier do not change, and each element or key of a composite value is reachable under its own path.",
  ["histories", "inputs"], "for every document and every sequence of sets: " + HISTBOUND,
  "get_set.rs sets a few keys in fixture documents; values are shared cells between the document, the index and what was handed out, so aliasing or wrong addressing depends on kind, nesting and order of operations.",
  [P, T, L], [m("replacement of a value", P + " set_value, replace_values, same_structure, convert_vector"), m("shared cells", P + " map; " + ST)],
  [INDEX, AST], ["set_value's result", "get_value of every path, before and after", "values returned earlier"],
  "For each history the model computes the expected index; return value, set path, all other paths and snapshots taken earlier are compared after every step.")

prop("C10", "A set changes only the bytes of the value it sets",
  "After a successful set the printed document is the old text with exactly the replaced value's spelling exchanged for the new one: comments, whitespace, line ends, other values, key spellings and table order all stay as they were, and when an array or inline table is replaced by one of the same shape, its inner formatting stays too.",
  ["histories", "inputs"], "for every formatted document and every sequence of sets: " + HISTBOUND,
  "Format preservation under modification is the library's purpose; each test checks a single set in one formatting. The quantifier is over every formatting, position, kind and history.",
  [P, ST], [m("in-place replacement", P + " set_value, replace_values, same_structure"), m("printing", ST + " Display impls")],
  [AST], ["Display of TOMLParser after each set"],
  "The model splices the old text at the byte spans it recorded for values; the printed document must equal the splice after each step of every history.")

prop("C11", "A modified document behaves like its printed text parsed again",
  "After any sequence of sets, also ones that change the structure of arrays and inline tables, looking up values and children in the live document gives the same answers as parsing its printed text with a fresh parser, and the printed text is still a document that parses in full. No stale path of a replaced value remains and no new one is missing.",
  ["histories", "inputs"], "for every sequence of up to 4 sets on families of documents: " + HISTBOUND,
  "Consistency of index and text after a history is a two-view invariant; tests look at one view after one set. Stale or missing entries appear only after structure-changing replacements, in particular orders.",
  [P, PR, T], [m("re-indexing on structure change", P + " set_value, get_all_subkeys, convert_vector; " + PR + " insert_value_into_map")],
  [INDEX, AST], ["get_value and get_children of live and re-parsed document", "ParseResult of the printed text"],
  "After every step the printed text is re-parsed by the real crate and by the model; values, children and absent paths of all three must agree.")

prop("C12", "A refused set changes nothing, and exactly the impossible ones are refused",
  "Setting a value is refused if and only if the path names no value in the document (it is absent, a table or an array of tables) or the value cannot be written as TOML, and it never adds keys. A refused set leaves the printed document and every lookup as they were, and an accepted one never makes the document unparsable.",
  ["histories", "inputs"], "for every document, every present, absent, partial and odd path, and every valid or invalid value over the string, number and key alphabets",
  "A few tests check one refusal each; the property is an exact characterisation over all paths and values plus absence of partial effects.",
  [P, T], [m("validity decision", T + " Value::validate, is_parsed_whole"), m("refusal before any change", P + " set_value")],
  [INDEX, AST], ["set_value's result", "Display, get_value, get_children after a refusal"],
  "Acceptance is compared with the model for all combinations; after each refusal text and index are compared with those before.")

prop("C13", "Numbers and booleans built for a document are valid and exact",
  "Building an integer, float or boolean from a number gives a valid value that denotes exactly the given number, and building one from text succeeds if and only if the text is exactly one integer or float of the dialect, which then keeps its spelling, or exactly one boolean word in any letter case. Whatever is built successfully validates, and can be set and read back.",
  ["inputs"], "for every text over the number alphabet up to the bound; every integer and finite float out of sets of boundary, power and bit-pattern values",
  "Tests build single numbers; the claim is an exact characterisation over strings and over the number ranges (extremes, signs, exponents, underscores).",
  [T, PR], [m("constructors", T + " Value::int, int_from_str, float, float_from_str, bool, bool_from_str"), m("validation by whole-text parse", T + " validate, is_parsed_whole; " + PR + " integer, float")],
  [], ["constructor results, validate, Display"],
  "Exhaustive over the enumerated texts and numbers against the reference number grammar. One recorded known finding: floats with integral value print without a fraction.")

prop("C14", "Dates and times built for a document are valid and exact",
  "Building a date or date-time from numbers or texts, with fraction, offset or Z, succeeds if and only if its fields form a real calendar date and clock time in the dialect's spelling, and then prints as exactly those fields. Parsing one from text accepts exactly what a document accepts as that value, and validity of a date-time agrees with it.",
  ["inputs"], "for every year of 4 centuries' boundary set x month x day, every field at and around its limits, every sequence of date-time fragments and every single edit of sample date-times",
  "Leap years, month lengths, field limits and sign or width errors form a large product; tests pick about one example per function.",
  [T, PR], [m("constructors", T + " date_*, datetime_* functions"), m("calendar and clock rules", T + " Date::validate_numbers, Time::validate_numbers, TimeOffsetAmount::validate_numbers"), m("datetime_parse", T + " datetime_parse; " + PR + " date_time")],
  [], ["constructor results, validate, Display"],
  "Exhaustive over the enumerated field products against an independent calendar.")

prop("C15", "Strings and composite values validate iff writable; equality is by content",
  "Building a string of each of the four kinds succeeds if and only if the text can stand between its quotes in a document, and then prints as a document would hold it; an array or inline table value is valid if and only if its text is a document value, and printing and parsing it gives an equal value. Two values are equal exactly when they have the same kind, spelling and content.",
  ["inputs"], "for every string body over the string alphabet up to the bound, every Unicode scalar value, all escape sequences, and all composite values up to a size and nesting bound, pairwise for equality; every value read out of every document of the value, formatting, array, inline-table, date and string families",
  "String validity is a language over all characters and escapes with quote-count subtleties; tests show single cases.",
  [T, PR], [m("string constructors and validation", T + " basic_string, ml_basic_string, literal_string, ml_literal_string, validate"), m("printing of values", T + " Display for Value"), m("hand-written equality", T + " PartialEq impls")],
  [], ["constructor results, validate, Display, =="],
  "Exhaustive over enumerated bodies, values and pairs against the reference grammar.")

prop("C16", "Parsers do not leak one document into another",
  "A parser object that has parsed, and perhaps modified, other documents gives for the next document exactly the results, errors, line numbers, values and printed text that a fresh parser gives. Documents living side by side in one program do not influence one another.",
  ["histories"], "for every sequence of up to 3 (4) documents out of sets of representative, structural and erroneous documents, with and without sets in between, and for documents held side by side",
  "No test parses twice with one parser; leftovers of context (table, counters, errors, line count, index) show only for particular pairs of documents.",
  [L, P], [m("reset at the start of a parse", P + " parse; " + L + " parse")],
  [INDEX, ERRS, CTX], ["everything observable of the second and later document"],
  "Each sequence is executed with one parser object and compared with fresh parsers and with the model.")

prop("C17", "Combining a path with its children walks the whole document",
  "Starting from the root and combining each path with the reported children, by key or by index, reaches every value of the document and only paths that exist; the combined paths are exactly those under which lookups answer. The combination functions are consistent with each other for every base path, including the empty one.",
  ["inputs"], "for every document of the structural families, and every base path, key and count over a small alphabet",
  "Tests combine fixed strings; the guarantee links the helper functions to lookups for every document, including quoted keys, index-like keys and nested arrays.",
  [T, P, PR], [m("combination functions", T + " Children::combine_keys, combine_keys_index, combine_child_keys"), m("children queries", P + " get_children")],
  [INDEX], ["Children functions, get_children, get_value"],
  "Each enumerated document is walked from the root with the helper functions and the set of visited paths compared with the model's.")

KIT = "the real tomlkit binary is run on scratch files"
prop("C18", "tomlkit's queries print what the document says",
  "For every document and every list of keys, the command line's value, existence, children and type queries print exactly the answers that the document gives for those keys, one per key in order, with the requested separators and quoting. Combinations of several query options print every requested answer.",
  ["inputs", "configurations"], "for every combination of up to four query options, key lists over present and absent keys, and every combination of formatting options, on sample documents; tens of thousands of documents of the library families asked for everything they hold",
  "There are no tests of the command-line tool at all; each option has its own loop, separator handling and absent-key case.",
  [K, T], [m("query commands", K + " get_value, has_value, get_children, has_children, process_document")],
  [], ["stdout, exit status and files after each invocation"],
  "A model of the tool's documented options predicts the output of each enumerated invocation; " + KIT + ".")

prop("C19", "tomlkit sets all of the given keys or none, and writes where asked",
  "Setting keys from the command line changes the document exactly like the same sets through the library, when every key and value is acceptable; if any is not, nothing is written and the failure is reported. The result goes to the requested target only (printed, same file or other file), all other files stay untouched, and a write that fails is reported.",
  ["inputs", "configurations", "fault_sequences"], "for every type of value (valid and not), every list of up to 3 settings and lists of many, every output option and unwritable targets; tens of thousands of documents of the library families with all their values set",
  "There are no tests of the tool; partial application of a list of settings and interplay with output options only shows for particular combinations.",
  [K, P, T], [m("set command", K + " set_value, nth_val, csv_to_vec"), m("writing", K + " process_document, write_to_file")],
  [], ["stdout, exit status and all files after each invocation"],
  "A model predicts output and file contents for each enumerated invocation; " + KIT + ", including targets that cannot be written. Crash-atomicity of the file write is not promised and not judged.")

prop("C20", "tomlkit refuses documents it cannot read safely and never modifies on read",
  "A document that is unreadable, does not parse in full or has reported errors is refused with a message that says so and no command takes effect on it. Commands that only read leave every file byte for byte as it was.",
  ["inputs", "configurations", "fault_sequences"], "for every kind of defective document (also every one-edit change of sample documents, every sequence of erroneous lines) and missing or unreadable file x every command and output option, and formatting-preserving pass-through of valid documents",
  "There are no tests of the tool; the guard must hold for each result kind the library can report and for each command.",
  [K, L], [m("result handling", K + " process_document, get_file")],
  [], ["stdout, exit status and all files after each invocation"],
  "Each enumerated invocation of " + KIT + " is compared with the model.")

prop("C21", "tomlkit handles a list of files from standard input one by one",
  "When no file is given, every file named on standard input is processed in order with the same commands, each with the result it would have on its own. Processing stops with an error at the first file that cannot be used: the files before it have their results, the files after it stay untouched.",
  ["inputs", "configurations"], "for every sequence of up to 3 lines of file names (good, defective, missing, repeated, blank, padded) and lists of up to 33, x commands x output options",
  "There are no tests of the tool; the loop over standard input must carry no state from one file to the next.",
  [K], [m("standard input loop", K + " main, process_document")],
  [], ["stdout and all files after each invocation"],
  "Each enumerated invocation of " + KIT + " is compared with the model.")

exec(open(os.path.join(ROOT, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "meta_more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]: a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "./build.sh harness kit", "checks": [
    {"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in props],
  "not_applicable": [],
  "notes": "No hooks in /repo. All repairs are 'fix:' commits listed in known-findings.txt. The crate is single-threaded, without persistence of its own, so schedules and crash points do not arise; see DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
