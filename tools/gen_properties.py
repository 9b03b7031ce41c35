#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so they can be edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TOK="crates/styx-tokenizer/src/tokenizer.rs"; LEX="crates/styx-parse/src/lexer.rs"; PAR="crates/styx-parse/src/parser/mod.rs"
TREE="crates/styx-tree/src/builder.rs"; VAL="crates/styx-tree/src/value.rs"; CST="crates/styx-cst/src/parser.rs"
CF="crates/styx-format/src/cst_format.rs"; VF="crates/styx-format/src/value_format.rs"; WR="crates/styx-format/src/writer.rs"
SC="crates/styx-format/src/scalar.rs"; FP="crates/facet-styx/src/parser.rs"; FS="crates/facet-styx/src/serializer.rs"
SV="crates/facet-styx/src/schema_validate.rs"; SG="crates/facet-styx/src/schema_gen.rs"
CLI="crates/styx-cli/src/main.rs"; LSP="crates/styx-lsp/src/server.rs"; SEM="crates/styx-lsp/src/semantic_tokens.rs"
FFI="crates/styx-ffi/src/lib.rs"; EMB="crates/styx-embed/src/lib.rs"; WASM="crates/styx-wasm/src/lib.rs"

p("C01","Every front end terminates without panicking on any text",
 "For every Unicode text (nesting at most a few hundred levels deep), tokenizing, parsing to events, building a value tree, building and validating the lossless syntax tree, formatting, and typed or untyped deserialization each return a result or an error: none of them panics, aborts, overflows or loops, and the amount of output is bounded by a constant times the input length.",
 ["inputs"],"all UTF-8 texts: valid documents, mutated documents, random byte soup biased to Styx punctuation, truncated and spliced files",
 "Tests parse a few hundred hand-written snippets; a panic needs an unusual character boundary, count or truncation point that no fixed snippet has.",
 [TOK,LEX,PAR,TREE,CST,CF,FP],[("byte-offset slicing and cursor advance",TOK),("escape validation",PAR),("event loop state machine",PAR)],
 observe=["panic hook / process exit status","event count per input byte","CPU time limit"])
p("C02","Parser event streams are well formed, ordered and inside the source",
 "For every text the event stream starts with document start and ends with document end, object/sequence/entry/tag starts and ends nest and balance, every entry of an error-free stream has exactly one key followed by exactly one value, and the stream is the same however it is pulled. Every event's span lies inside the text on character boundaries with start<=end, and a scalar, key, tag or comment event's span covers exactly the source text it reports.",
 ["inputs"],"all texts, valid and invalid, including errors in the middle of nested structures",
 "Unit tests compare event lists of selected snippets; balance and span containment must hold for every error-recovery path.",
 [PAR,LEX,"crates/styx-parse/src/events.rs"],[("state stack of the pull parser",PAR),("span arithmetic for trimmed lexemes",LEX)],
 observe=["each event pulled from the parser"])
p("C03","Tokens and the lossless syntax tree reproduce the source byte for byte",
 "For every text, valid or not, the token spans tile the input contiguously from the first byte to the last with every token's text equal to its slice, and the lossless syntax tree's text equals the input exactly.",
 ["inputs"],"all texts including unterminated strings, heredocs, control characters, CRLF and non-ASCII whitespace",
 "Losslessness is a for-all-inputs statement; tests (and one small proptest) check it on chosen texts.",
 [TOK,CST],[("token emission for every byte",TOK),("trivia and error nodes",CST)],observe=["token stream","syntax tree text"])
p("C04","A document is accepted exactly when the language allows it, with its meaning",
 "A document that follows the language reference (objects, sequences, tags and their payloads, units, attributes, dotted keys, comments, doc comments, separators) parses without error to the value tree the reference assigns: same entries in the same order, same keys, tags, payloads, scalar texts and kinds, and doc comments. A document that breaks a structural rule (unbalanced or mismatched brackets, more than two atoms in an entry, a key form that is not allowed, commas in sequences, content after an explicit root, text glued to a tag, an invalid tag name, a dangling doc comment) is rejected.",
 ["inputs"],"all documents produced by a grammar covering every construct and layout style, and every single structural fault injected in them",
 "The compliance corpus holds a fixed list of documents; interactions of constructs (comments inside tags payloads, attributes in sequences, dotted keys next to blocks) are unbounded.",
 [PAR,LEX,TREE,VAL],[("entry/atom grammar",PAR),("tree building from events",TREE)],observe=["value tree","parse errors"])
p("C05","Every string survives every scalar notation that can spell it",
 "Any string written as a quoted scalar with any mix of literal characters and escapes, as a raw string with any number of hashes, as a heredoc with any delimiter, indentation and language hint, or (when its characters allow) as a bare scalar, is read back as exactly that string with the notation recorded. Malformed escapes, unterminated strings and unterminated or malformed heredocs are always rejected.",
 ["inputs"],"all strings x all notations x lengths and hash/delimiter counts; all malformed escapes",
 "Escapes, dedent and hash matching are checked on a few dozen literals; boundaries (multi-byte characters after an escape, 1-6 hex digits, blank lines in a heredoc, long delimiters) are not enumerated.",
 [TOK,LEX,PAR,VAL],[("escape processing",LEX),("heredoc dedent",LEX),("raw-string closing match",TOK),("escape validation",PAR)],observe=["scalar text and kind in the value tree","errors"])
p("C06","Repeated or reopened keys are always rejected, distinct keys never",
 "Two entries of one object whose keys are equal by parsed value (whatever notation each key is written in, and however far apart they are) are reported as an error, at the later one. At the root, a dotted path that reopens a path already left, or that nests into a key already given a value, is reported as an error; objects whose keys are all different, and dotted paths that stay grouped, never are.",
 ["inputs","histories"],"all sequences of keys and dotted paths in one object, in every key notation, with any other entries between",
 "Tests cover two-entry documents; whether a collision is noticed depends on the whole history of keys and paths before it.",
 [PAR],[("per-object seen-key set",PAR),("open/closed dotted-path tracking",PAR)],
 state=[("seen keys","keys of the object being read",PAR),("path state","current and closed dotted paths",PAR)],observe=["error events and their spans"])
p("C07","Syntax errors are reported at the fault, in every tool alike",
 "When one fault is injected in an otherwise valid document, parsing reports at least one error whose location is inside the text, at or after the start of the smallest entry or bracket pair holding the fault (for a missing bracket, the outermost entry) and not beyond the text the fault affects; everything before the faulty entry still yields the same events as in the intact document. The tree builder is in error exactly when the event parser is, and no deserializer accepts such a text.",
 ["inputs"],"all documents x all fault kinds x all positions",
 "Error tests are snapshots of single-line snippets; error position depends on where in a large document the fault sits.",
 [PAR,TREE,FP],[("error events with spans",PAR),("error propagation in the builder",TREE)],observe=["error spans","prefix of the event stream"])
p("C08","Every value's and key's span points back at its own source text",
 "In the tree of a valid document, the span of each value and key lies within its parent's extent, spans of siblings are in source order and do not overlap, and parsing the spanned text on its own yields the same value again.",
 ["inputs"],"all valid documents, all nodes of the tree, any preceding multi-byte text",
 "Diagnostics, editors and validators rely on spans of every node; tests assert a handful of spans in ASCII snippets.",
 [TREE,VAL,PAR],[("span merge of tag, payload and object events",TREE)],observe=["span of each value in the tree"])
p("C09","Formatting a document never changes its meaning",
 "For every valid document and every combination of formatting options, formatted output is a valid document whose value tree (entries, order, keys, tags, scalar texts, doc comments) equals that of the source.",
 ["inputs","configurations"],"all valid documents in all layout styles x all formatting options",
 "The formatter's tests are fixed-point snapshots; meaning can be lost by any interaction of construct, line width, comment position and option.",
 [CF,WR,SC,"crates/styx-format/src/options.rs"],[("layout decisions inline/multiline",CF),("scalar re-quoting",SC)],observe=["parse(format(x)) versus parse(x)"])
p("C10","Formatting keeps every comment",
 "For every valid document, the formatted text contains the same line comments and doc comments with the same text, each once, in the same order relative to each other and to the entries around them.",
 ["inputs","configurations"],"all valid documents with comments at every legal position x options",
 "Comment positions times constructs is an unbounded product; tests place comments in a few places.",
 [CF],[("trivia handling in the CST formatter",CF)],observe=["ordered comment list interleaved with keys before and after"])
p("C11","Formatting is idempotent and leaves invalid text alone",
 "Formatting already formatted text with the same options returns it unchanged, for every valid document and option set. A document with a syntax error (repeated or reopened keys aside) is returned byte for byte unchanged.",
 ["inputs","configurations"],"all valid documents x options; all invalid documents",
 "Idempotence is sampled on a few fixtures; one layout threshold crossed in the second pass breaks it.",
 [CF],[("layout decisions stable under re-format",CF)],observe=["format(format(x)) versus format(x)"])
p("C12","A value written as text reads back as the same value",
 "For every value tree (any keys, tags, scalars with any characters, nested objects and sequences) and every formatting option, the text written for it parses to a tree equal in entries, order, keys, tags and scalar texts.",
 ["inputs","configurations"],"all value trees built by a program rather than parsed, x options",
 "The writer must choose quoting for every string and layout for every shape; tests cover simple trees.",
 [VF,WR,SC],[("bare/quoted/raw/heredoc choice",SC),("inline/multiline choice",WR)],observe=["parse(format_value(v)) versus v"])
p("C13","Typed values survive serialize then deserialize",
 "For every value of a supported Rust type (structs, options, enums of every variant shape, lists, maps, nested and flattened types, numbers, floats, characters, strings, spanned and documented wrappers), serializing it in default, compact or any option form gives text that parses cleanly and deserializes to an equal value.",
 ["inputs","configurations"],"all values of a family of types covering every supported shape x serialization options",
 "Tests serialize single examples; string contents, number extremes and empty/nested combinations are unbounded.",
 [FS,FP],[("serializer",FS),("typed parser events",FP),("scalar quoting",SC)],observe=["from_str(to_string(v)) == v"])
p("C14","serde values survive serialize then deserialize and agree with the other API",
 "For every value of a serde-enabled type in the supported data model, serializing and deserializing with the serde integration returns an equal value, and the text it writes is a valid document with the same tree as the other serializer would read.",
 ["inputs"],"all values of a family of serde types (structs, options, lists, maps, enums, strings, numbers)",
 "Tests round-trip single examples.",
 ["crates/serde_styx/src/ser.rs","crates/serde_styx/src/de.rs"],[("serde serializer","crates/serde_styx/src/ser.rs"),("serde deserializer","crates/serde_styx/src/de.rs")],observe=["from_str(to_string(v)) == v"])
p("C15","Typed reading gives what the document says, whatever its notation",
 "However a document spells a value (bare, quoted, raw or heredoc scalars; block, inline or attribute objects; dotted keys; any comments and separators; schema declaration present), reading it into a Rust type yields the value its tree denotes. Text that is not a valid document, out-of-range numbers, missing required fields and unknown tags are rejected rather than given another value.",
 ["inputs"],"all spellings of all values of a family of types; all single faults",
 "Deserialization tests fix one spelling per value.",
 [FP,"crates/facet-styx/src/lib.rs"],[("event to field translation",FP)],observe=["deserialized value versus model"])
p("C16","Schema validation accepts exactly the conforming documents",
 "For every schema built from the documented type expressions and every document, validation reports no error exactly when the document conforms: required, optional, defaulted and unknown fields, catch-all fields, scalar types with their constraints, sequences, tuples, maps, unions, enums, literals, named and nested type references.",
 ["inputs","programs"],"all pairs of schema and document over the documented schema language, including documents one edit away from conforming",
 "Tests pair a few dozen schemas and documents; the space is a product.",
 [SV,"crates/facet-styx/src/schema_types.rs"],[("structural validator",SV)],observe=["validation result versus an independent validator"])
p("C17","Schemas generated from Rust types accept what those types serialize",
 "For every supported Rust type, the schema generated for it parses as a schema, the text serialized for any value of the type (finite numbers) validates against it with no error, and text lacking a required field, with an unknown field or with a value of another kind is reported.",
 ["programs","inputs"],"a family of types covering all supported shapes x random values",
 "Tests snapshot generated schemas; nobody checks the schema against the serializer's output for all values.",
 [SG,SV,FS],[("schema generation by reflection",SG)],observe=["validation result of serialized values"])
p("C18","Validation errors name the offending value's path and span",
 "When one field of a conforming document is changed to break the schema, validation reports an error whose path names that field (or its parent for missing fields) and whose source range, when present, covers the offending text in the document.",
 ["inputs","programs"],"all conforming pairs x all single violations at any depth",
 "Tests look at the message of a few errors.",
 [SV,"crates/facet-styx/src/schema_error.rs"],[("error path tracking",SV)],observe=["error path and span"])
p("C19","Command-line exit status and streams tell the truth",
 "For every document and option combination, the command exits 0 exactly when the requested operation succeeded, 1 for syntax or usage errors, 2 for schema violations and 3 for I/O failures; on failure nothing is written to the requested output, errors go to standard error, and results come only on the requested stream.",
 ["inputs","configurations"],"all documents (valid, invalid, non-conforming, unreadable, non-UTF-8) x option combinations",
 "CLI tests run a few fixed invocations.",
 [CLI],[("exit-code mapping and output routing",CLI)],observe=["exit status, stdout, stderr, files"])
p("C20","The command line never damages a file it was not told to write",
 "Whatever the input and options, a failed run leaves every file's contents unchanged, in-place formatting writes exactly the formatted text of that file, output to the input file is refused, and no file other than the named outputs is created or changed.",
 ["inputs","configurations","fault_sequences"],"all invocations over a directory of files incl. invalid files, same-file outputs through links, read-only or unwritable targets",
 "Tests check one in-place success and one refusal.",
 [CLI],[("same-file check and write ordering",CLI)],observe=["directory contents before and after"])
p("C21","JSON and S-expression output represent the document exactly",
 "For every valid document, the JSON output is valid JSON that determines the same tree of entries, tags, payloads and scalar texts, and the S-expression output is well formed with every string decodable to the exact text and every span correct.",
 ["inputs"],"all valid documents with arbitrary Unicode and control characters in keys, tags and scalars",
 "Compared on the fixed compliance corpus only.",
 [CLI,WASM],[("JSON conversion",CLI),("sexp printing and escaping",CLI)],observe=["stdout parsed by independent readers"])
p("C22","The C interface is memory safe and agrees with the tree",
 "Any sequence of C API calls that follows its ownership rules, with any text (nested at most a few hundred levels deep) including invalid, empty and escaped-NUL input and null handles, performs no invalid memory access, double free or leak, never unwinds into C, and returns the same structure, texts and errors that the library's tree has.",
 ["inputs","histories"],"random call sequences over random documents",
 "One example program runs one fixed sequence without a sanitizer.",
 [FFI,"crates/styx-ffi/include/styx.h"],[("handle ownership",FFI),("string conversion",FFI)],observe=["AddressSanitizer/valgrind reports","values returned through the C API"])
p("C23","Embedded schemas come back out of a binary intact",
 "Any set of schemas embedded in a binary image, at any offset and among arbitrary other bytes, is extracted complete, once each and byte for byte. A truncated or corrupted image never causes a crash, unbounded allocation or a changed schema: it yields an error, or only intact schemas.",
 ["inputs","fault_sequences"],"all schema texts x placements x byte corruptions and truncations",
 "Tests embed short schemas in one layout and corrupt nothing.",
 [EMB],[("magic, length, hash and compression framing",EMB)],observe=["extracted strings versus embedded ones","panic/allocation monitors"])
p("C24","The language server always answers from the latest document text",
 "After any sequence of open, change, close and reopen notifications and requests over several documents, every answer and the last published diagnostics for a document reflect its latest version only, every request gets exactly one response, documents do not affect each other, and the server survives any text.",
 ["histories","schedules","inputs"],"random editing histories over several documents with requests interleaved and pipelined",
 "LSP tests call handlers for single documents; no history is checked.",
 [LSP],[("document store behind a lock",LSP)],state=[("documents","uri -> text, version, parse",LSP)],observe=["JSON-RPC messages over stdio"])
p("C25","Positions in language-server answers are valid for the client's text",
 "Every position and range in any answer of the language server lies inside the document as counted in UTF-16 code units, semantic tokens are ordered, non-overlapping and cover the text they classify, and symbol and error ranges select the text they name, whatever characters precede them.",
 ["inputs"],"all documents including astral and combining characters, CRLF and empty lines x all position-bearing requests",
 "All LSP tests use ASCII documents.",
 [LSP,SEM],[("offset/position conversion",LSP),("semantic token deltas",SEM)],observe=["ranges in responses decoded by an independent UTF-16 model"])
p("C26","Editor diagnostics agree with the library and the command line",
 "For every document that the specification decides, with or without a declared schema, the language server publishes error diagnostics exactly when parsing or schema validation as done by the command line reports errors.",
 ["inputs"],"all documents and schemas, valid or faulty",
 "Tests look at single diagnostics.",
 [LSP,"crates/styx-lsp/src/schema_validation.rs",CLI],[("diagnostic computation",LSP)],observe=["publishDiagnostics versus CLI exit status"])
p("C27","Editor formatting and quick fixes edit the text safely",
 "Applying the edits returned for formatting gives exactly the text the formatter gives for the document; edits never overlap or reach outside the document, and applying a quick fix or refactoring keeps a valid document valid with every value it had.",
 ["inputs","configurations"],"all documents x formatting options x every offered code action",
 "Tests assert one or two edits' text.",
 [LSP,"crates/styx-lsp/src/schema_validation.rs"],[("edit construction",LSP)],observe=["document after applying returned edits"])
for id,lang,d,f in (("C28","Go","implementations/styx-go",["implementations/styx-go/parser.go","implementations/styx-go/lexer.go"]),
                  ("C29","JavaScript","implementations/styx-js",["implementations/styx-js/src/parser.ts","implementations/styx-js/src/lexer.ts"]),
                  ("C30","Python","implementations/styx-py",["implementations/styx-py/styx/parser.py","implementations/styx-py/styx/lexer.py"])):
    p(id,f"The {lang} implementation agrees with the reference on every document",
     f"For every text whose validity the specification decides (chains of tags aside), the {lang} parser accepts it exactly when the Rust parser does and yields the same tree: entries, order, keys, tags, payloads, scalar texts and kinds, and the places of untagged one-line scalars. It never crashes or hangs on any text (nesting up to a hundred levels).",
     ["inputs"],"all documents of a grammar covering every construct and layout, and single-fault mutations of them",
     "Agreement is tested on the fixed compliance corpus.",f,[("independent parser",d)],observe=["S-expression tree of both implementations"])
p("C31","The editor grammar's scanner is memory safe and terminates on any text",
 "Parsing any byte sequence with the tree-sitter grammar, from scratch or incrementally after edits, performs no invalid memory access or undefined behaviour, terminates, and yields a tree whose ranges nest and stay inside the text.",
 ["inputs","histories"],"all byte sequences and edit histories",
 "tree-sitter tests parse a fixed corpus without sanitizers.",
 ["crates/tree-sitter-styx/src/scanner.c"],[("external scanner serialize/scan","crates/tree-sitter-styx/src/scanner.c")],observe=["ASan/UBSan reports","tree ranges"])
p("C32","The editor grammar recognises valid documents and their structure",
 "For every valid document the tree-sitter grammar gives a tree without error nodes whose entries, tags, sequences, objects and scalars match the document's value tree, and incremental reparsing after any edits that lead to such a document gives the same tree as parsing it from scratch.",
 ["inputs","histories"],"all valid documents, all edit sequences",
 "The corpus is a fixed list.",
 ["crates/tree-sitter-styx/grammar.js","crates/tree-sitter-styx/src/scanner.c"],[("grammar and external scanner","crates/tree-sitter-styx")],observe=["syntax tree vs value tree"])
p("C33","Go code generated from a schema compiles and honours the schema",
 "For every schema of the supported type expressions (no flattened fields, no required by-value recursion, no commas in names), the Go package that the command writes compiles and passes go vet, whatever the names are. It has one type per named type and per inline object field, and one field per schema field of the Go type its type stands for, a pointer (for types without a nil) exactly when the field is optional, tagged with the field's own name and under its doc comment; an enum has one constant per variant. Validate on any value reports exactly the fields whose own constraints are violated, once for each, naming the bound. The same schema gives the same files every time.",
 ["programs","inputs"],"all schemas over the supported type expressions, names and constraints x all values of the generated structs",
 "The generator has no tests at all; names that collide or are not Go identifiers, types that reference each other and hash-map order only show over many schemas and runs.",
 ["crates/styx-gen-go/src/lib.rs","crates/styx-gen-go/src/types.rs"],[("naming and type mapping","crates/styx-gen-go/src/types.rs"),("code emission","crates/styx-gen-go/src/lib.rs")],observe=["go vet and go build of the generated package","reflection over its types","what Validate returns"])
p("C34","Only programs the user allowed run, and what was allowed stays",
 "The language server starts a program that a schema names only if its command is, character for character, an entry of allowed_extensions in the user configuration, or was allowed with styx.allowExtension in this session; every other is reported at the schema declaration with an offer to allow exactly that command. An allowed one is started with the arguments of the schema, once for a schema, however many documents use it (again only if it failed and something was allowed since). Allowing adds exactly that command to the configuration file: entries of others, written meanwhile by hand or by other servers, stay; a file that is a link stays one; a file that cannot be read as a configuration allows nothing and is left as it is; a save that is interrupted or fails leaves the file as it was or as it should be, never anything between.",
 ["inputs","histories","schedules","crash_points","fault_sequences"],"all configurations, commands, schemas, sessions and servers x all points of interruption",
 "Which near misses an attacker's schema uses, when another editor saves, and where a crash falls are not in any test.",
 ["crates/styx-lsp/src/extensions.rs","crates/styx-lsp/src/config.rs"],[("allow-list and process start","crates/styx-lsp/src/extensions.rs"),("configuration file","crates/styx-lsp/src/config.rs"),("allow command","crates/styx-lsp/src/server.rs")],observe=["programs started","the configuration file","diagnostics and code actions"])
p("C35","Extensions are told the truth, passed on faithfully, and cannot stop the editor",
 "An extension is told the document's latest text, its places as the editor means them (bytes for UTF-16 columns), the path, object and word at the cursor, and what it asks of the host (source, tree, subtree, schema, places) is the document's. What it answers reaches the editor once, beside the server's own answers, at the places it named. Whatever it does (end at any moment, hang, write garbage, close its output, answer slowly or with impossible places, ask back while documents change), every request is answered once, the server's own diagnostics are the ones it gives without an extension, all places are in the document, and no extension process outlives the server's orderly end.",
 ["inputs","schedules","histories","fault_sequences"],"all texts, positions and edits x all behaviours of an extension",
 "No test starts an extension process.",
 ["crates/styx-lsp/src/extensions.rs","crates/styx-lsp/src/server.rs","crates/styx-lsp-ext/src/lib.rs"],[("host and processes","crates/styx-lsp/src/extensions.rs"),("requests to extensions","crates/styx-lsp/src/server.rs")],observe=["what the extension is asked","what the editor is sent","processes left"])
p("C36","The typed view of the lossless tree says what the document says",
 "For every valid document, reading its lossless syntax tree through the typed accessors (document, object and sequence entries, keys, values, scalars, heredocs, tags, attributes, doc comments) gives the entries, order, key and scalar texts after unescaping, scalar kinds, tags, payloads and doc comments that the parser reports, each at its own place in the text. The tree's own validation calls two keys of one object equal exactly when the parser does, and reports the repeat at the second.",
 ["inputs"],"all documents of a grammar covering every construct, spelling and layout, and mutations of them that are still valid",
 "The accessors are tested on a dozen snippets; each picks children by kind, and which children a node has depends on comments, line ends, tags and nesting around it.",
 ["crates/styx-cst/src/ast.rs","crates/styx-cst/src/validation.rs"],[("typed accessors","crates/styx-cst/src/ast.rs"),("duplicate keys and structure warnings","crates/styx-cst/src/validation.rs")],observe=["what the accessors return","diagnostics of validate()"])
p("C37","Values are found and changed by path as the document spells them",
 "In every value tree, each value is found (get, get_mut) under the path made of the keys and indices leading to it, and only there: paths that lead nowhere give nothing, and replacing what a path leads to changes that value and no other. After any history of inserts and changes of an object, its length, order, lookups, unit key and iteration are those of an ordered map: one entry for each key, replaced in place. Joining sibling dotted paths puts the entries of neighbours with equal keys into one, at the place of the first, in order, and changes nothing else.",
 ["inputs","histories"],"all trees, all paths (keys with dots, brackets, digits and empty ones), all histories of changes",
 "Tests use three-entry objects and plain names.",
 [VAL],[("path lookup",VAL),("object as an ordered map",VAL)],observe=["results of get, get_mut, insert, iteration","tree after changes"])
p("C38","Rendered error reports name and show the place of the fault",
 "For every text and every error of parsing, schema validation or typed reading that has a place, the rendered report names the file, line and column (in characters) where the place begins, shows that line of the text, marks exactly the faulty characters when they are on one plain line, says the same as the error's message, mentions the names it is about, and for a repeated key also shows the line of the first. No report panics, whatever the text, and none has colours when NO_COLOR is set.",
 ["inputs"],"all faulty texts (including characters of several bytes, tabs, all line ends, places at the end of the text) x all kinds of error",
 "Snapshot tests render a handful of errors, all in ASCII texts, where bytes and characters are the same.",
 ["crates/styx-tree/src/diagnostic.rs","crates/facet-styx/src/error.rs","crates/facet-styx/src/schema_error.rs"],[("parse errors","crates/styx-tree/src/diagnostic.rs"),("typed reading errors","crates/facet-styx/src/error.rs"),("validation errors","crates/facet-styx/src/schema_error.rs")],observe=["text of the rendered report"])
p("C39","The browser library agrees with the parser, and its JSON says what the text says",
 "For every text, parse and validate call it valid exactly when the parser reports no error, and the diagnostics are the parser's errors at their places. to_json then gives the document: every entry of every object (sibling dotted paths joined, keys of every kind under distinct names), sequences, units as null, tags as {$tag, $value}, and each scalar as its text, or as the boolean, null or finite number that the text spells; json and jsonString are the same. from_json refuses what is not JSON and writes every JSON object that is not itself a tag as a valid document, which to_json turns back into that object, except that strings which spell a number, boolean or null, integers beyond 2^53 and one-element payloads of tags may change their type.",
 ["inputs"],"all texts and all JSON objects, with odd names, number-like strings, numbers at the limits, tags nested and with further members",
 "The crate has no tests.",
 [WASM],[("JSON conversion",WASM),("diagnostics",WASM)],observe=["values handed to JavaScript"])
p("C40","No breaking schema change is called compatible; publishing does what it says",
 "styx diff reports no change only between schemas that say the same, and suggests less than a major bump only if every document valid under the published schema is valid under the local one (flattened types aside). New optional fields of closed objects, new variants, new types and fields that become optional are minor; changed documentation, default values, order of types and metadata are patches. styx publish publishes the given schema, byte for byte, once, under its own name and the version that this comparison gives (a breaking change of 0.x is a minor bump, a first publication is 0.1.0), and only if it was confirmed; it publishes nothing when nothing changed, or the published schema cannot be fetched or read. styx package writes that crate and nothing else. A crate name or version that is none (quotes, paths, shell syntax, line ends) runs and writes nothing. Temporary directories are removed.",
 ["inputs","histories","fault_sequences"],"all pairs of schemas (histories of edits of types, fields, variants, constraints, wrappers) x all documents x registry states, answers, faults and names",
 "These commands have no tests, and whether a change breaks some document depends on wrappers, nesting and open objects that no sample of changes covers.",
 [CLI],[("schema comparison",CLI),("publishing and packaging",CLI)],observe=["suggested bump","validation of witnesses","commands run","files written"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
