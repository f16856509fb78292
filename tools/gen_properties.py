#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Integers on the wire are exact, shortest and invertible",
 "In generated Rust code every 64-bit unsigned integer is encoded with the documented variable-length scheme (1 to 9 bytes, the length readable from the first byte, exactly one encoding per value, always the shortest), signed integers use the documented zig-zag mapping in front of it, and decoding an encoding returns the original value having consumed exactly its bytes. The size computed for a value ahead of time always equals the number of bytes written, and reading never consumes bytes past the encoding. Field headers combine index and size code so that both are recovered exactly.",
 ["inputs"], "every 64-bit unsigned and signed integer, every field index below 2^62 with every size code, every byte string given to the decoder",
 "The integration tests encode a few dozen chosen values; there are 2^64 values and eight length thresholds where an off-by-one changes the format silently on both sides of a round trip.",
 ["src/generate_rust.rs"],
 [("zig-zag, varint size/serialize/deserialize, field header helpers emitted into every generated file", "src/generate_rust.rs (generate, prelude text)"),],
 observe=["bytes written by and read from the generated functions"])

prop("C02", "Generated Rust messages round-trip with exact size and documented layout",
 "For every accepted schema whose file and directory names are identifiers and every message value of a generated Rust type, the bytes written follow the documented layout (fields with their headers, size codes chosen as documented, choices as a single field followed by fallbacks until a non-optional one), the size reported beforehand equals the number of bytes written, and deserializing those bytes yields the value that was serialized.",
 ["programs", "inputs"], "every accepted schema (any nesting of arrays, any field index, any rule, any import structure) and every value of its types",
 "Tests round-trip a handful of values of one example schema; nested arrays, large indices, empty containers, default values and fallback chains multiply without bound.",
 ["src/generate_rust.rs"],
 [("per-type size, serialize and deserialize code emission", "src/generate_rust.rs (write_schema, write_size_calculation, write_serialization_invocation, write_deserialization_invocation)"),],
 observe=["size(), serialize and deserialize of generated types"])

prop("C03", "Messages survive the schema changes the rules declare safe",
 "Deserializing with generated Rust code ignores struct fields the reader does not know, accepts struct fields in any order with repeated fields resolved to one value, treats missing asymmetric and optional struct fields as absent, and rejects a message that lacks a required struct field. When a reader meets a choice case it does not know it uses the first fallback it does know, and it reports an error when no known case is found. Consequently every schema change documented as safe (adding or removing asymmetric or optional fields, promoting asymmetric to required, and so on) lets old and new programs exchange messages both ways.",
 ["programs", "inputs"], "every pair of schemas related by a documented safe change, every value, every writer/reader direction",
 "Tests exchange messages between one old and one new version of one schema; the guarantee is about every pair of compatible schemas and every value.",
 ["src/generate_rust.rs"],
 [("unknown-field skipping, required-field check, fallback handling in emitted deserializers", "src/generate_rust.rs (write_schema)"),],
 observe=["result of deserialize on bytes written by another schema version"])

prop("C04", "Decoding untrusted bytes with generated Rust ends in a message or an error",
 "For every byte string whatsoever, a generated Rust deserializer terminates with either a message or an error; it does not panic, overflow arithmetic, or read beyond the bytes that belong to the message it was asked to decode. A truncated message is reported as an error rather than accepted with made-up content for a required part.",
 ["inputs", "programs"], "every byte string (truncated, corrupted, hostile) fed to the deserializer of every generated type",
 "Tests decode only bytes that a serializer produced; the space of malformed inputs is unbounded and unexplored.",
 ["src/generate_rust.rs"],
 [("bounded sub-readers, skip, size checks and error propagation in emitted deserializers", "src/generate_rust.rs (generate prelude, write_deserialization_invocation)"),],
 observe=["deserialize on arbitrary bytes"])

prop("C05", "Generated TypeScript and Rust agree on the wire",
 "For every schema the tool accepts, the generated TypeScript code writes exactly the bytes the generated Rust code writes for the same message, reports the same size, and decodes whatever the Rust code writes to the same message, and vice versa.",
 ["programs", "inputs"], "every accepted schema and every message value",
 "Tests compare generated text with one golden file and exchange a few messages of one schema.",
 ["src/generate_typescript.rs", "src/generate_rust.rs"],
 [("TypeScript prelude and per-type codec emission", "src/generate_typescript.rs"),],
 observe=["bytes produced by the generated TypeScript"])

prop("C06", "Any schema text yields a schema or located errors, never a crash",
 "Whatever text a schema file contains, reading it (tokenizing, parsing, validating, rendering errors) terminates with either a schema or a non-empty list of errors, without panicking, provided the nesting of array types stays small enough for the call stack. No accepted schema results from a file for which any stage reported an error.",
 ["inputs"], "every UTF-8 text, including empty files, truncated declarations, arbitrary Unicode and files ending inside any construct",
 "Tests feed a few dozen snippets; a crash needs one particular token order at the end of a file, or one particular character at a slice boundary.",
 ["src/tokenizer.rs", "src/parser.rs", "src/validator.rs", "src/error.rs"],
 [("index and slice bounds in the scanning loops", "src/tokenizer.rs (tokenize)"), ("token position checks and error recovery", "src/parser.rs")],
 observe=["exit status and stderr of generate/format on any file"])

prop("C07", "Tokenization is exact: nothing dropped, merged, misplaced or miscounted",
 "The tokens of a schema file, in order, correspond exactly to its non-whitespace text: each token covers a non-empty, character-aligned, in-bounds range, ranges do not overlap, everything between them is whitespace, and the kind and content of each token (symbol, keyword, identifier with its optional sigil removed, integer value, path text, comment text) is determined exactly by the characters it covers. An integer is accepted precisely when it is below 2^64, and any text that is not part of a token makes the whole file rejected.",
 ["inputs"], "every UTF-8 text",
 "Tests check one example per token kind; longest-match and range arithmetic depend on arbitrary neighbours, multi-byte characters and end of file.",
 ["src/tokenizer.rs", "src/token.rs"],
 [("maximal-munch scanning with byte offsets", "src/tokenizer.rs (tokenize)"), ("keyword table", "src/token.rs")],
 observe=["token stream (kinds, contents, source ranges)"])

prop("C08", "The parser accepts exactly the schema grammar and keeps every detail",
 "A token stream is accepted if and only if it is a schema according to the documented grammar (optional schema comment, imports with distinct names, then struct and choice declarations with fields and an optional list of distinct deleted indices). The resulting schema contains exactly the imports, declarations, fields, rules, types, indices, deleted indices and comments that the tokens spell out, in the same order, with a missing rule meaning required and a missing type meaning unit, and every part carries the source range of exactly its own tokens.",
 ["inputs"], "every finite token sequence",
 "Tests parse a few dozen snippets; acceptance is a statement about every token sequence, including every truncation and every misplaced token.",
 ["src/parser.rs"],
 [("recursive-descent parser with error recovery", "src/parser.rs (parse, parse_schema, parse_import, parse_field, parse_type)")],
 observe=["result of parsing: schema or errors"])

prop("C09", "Validation accepts exactly the well-formed schemas",
 "Apart from recursion between types, a set of schemas is accepted if and only if declaration names are distinct within each file, field names and field indices are distinct within each declaration, no field uses an index marked deleted, no index exceeds 2^62-1, the indices in use together with the deleted ones leave no gap, and every type mentioned names a declaration of the same file or of the file imported under the given name. Everything else is rejected with at least one error per offence, and validation never modifies the schemas.",
 ["inputs"], "every finite set of parsed schemas with resolved imports",
 "Each rule has one or two positive and negative examples in the tests; combinations of files, imports, name collisions up to case and boundary indices are unbounded.",
 ["src/validator.rs"],
 [("uniqueness sets, deleted/limit/gap checks, type lookup", "src/validator.rs (validate, validate_type)")],
 observe=["acceptance or error list of validation"])

prop("C10", "Recursive types are always rejected and non-recursive ones never are",
 "A set of schemas that is otherwise well-formed is rejected with a cycle error if and only if some type, through any chain of struct and choice fields, nested arrays and imports across files, contains itself; the reported chain consists of real references and ends by returning to a type already on it. The check terminates for every set of schemas.",
 ["inputs"], "every finite set of otherwise well-formed schemas, i.e. every finite type graph",
 "Tests use a direct cycle and a two-file cycle; whether a depth-first search with memoisation is exact is a statement about every graph and visiting order.",
 ["src/validator.rs"],
 [("depth-first search with checked and visited sets", "src/validator.rs (check_declaration_for_cycles, check_type_for_cycles)")],
 observe=["cycle errors of validation"])

prop("C11", "Formatting preserves the meaning of a schema and is idempotent",
 "The text produced by formatting an accepted schema file is itself accepted and denotes the same schema: the same imports under the same names, the same declarations, fields, rules, types, indices and deleted indices in the same order (identifiers up to letter case conventions), and the same comments up to line wrapping and white space. Formatting the formatted text changes nothing.",
 ["inputs"], "every accepted schema file",
 "One golden file is formatted in the tests; keyword-like names, comment shapes, wrapping positions and import aliases combine without bound.",
 ["src/schema.rs", "src/tokenizer.rs", "src/parser.rs"],
 [("pretty-printer of schemas", "src/schema.rs (write methods)")],
 observe=["output of the format command"])

prop("C12", "Checking the format never writes; formatting writes only what changes",
 "With the check option the format command writes no file and fails exactly when at least one loaded schema file differs from its formatted text; without it the command rewrites exactly the loaded schema files that differ, each with its formatted text and no other file, and then succeeds. After a successful format run, a check run on the same schema succeeds.",
 ["inputs", "configurations"], "every schema with imports, every subset of already formatted files, both modes",
 "The command is exercised by hand or in CI on a formatted example; the combination of several files, some changed and some not, is untested.",
 ["src/main.rs", "src/schema_loader.rs", "src/schema.rs"],
 [("comparison of loaded text and rendered text, guarded write", "src/main.rs (format_schema)")],
 observe=["file system effects and exit status of the format command"])

prop("C13", "Every cross-file type reference resolves to the declaration it names",
 "For schema files and directories whose names are identifiers, in generated code a reference from one schema's module to a type of another schema (or of its own) always denotes exactly the module generated for the file that was imported, whatever the relative position of the two files in the directory tree, including files at the root, in the same directory, in parents, siblings and nested directories. The module tree of the output contains each schema exactly once at the position given by its path relative to the base directory.",
 ["inputs", "programs"], "every pair of module paths of any depth and every set of schema paths",
 "Tests cover a few pairs of paths and one directory layout; the claim is about every pair of paths.",
 ["src/schema.rs", "src/generate_rust.rs", "src/generate_typescript.rs"],
 [("relative path between namespaces", "src/schema.rs (relativize_namespace)"), ("module tree construction and reference emission", "src/generate_rust.rs and src/generate_typescript.rs (insert_schema, write_module, write_custom_type)")],
 observe=["module tree and type references of generated code"])

prop("C14", "Identifier comparison and case conversion are consistent",
 "Two identifiers are equal exactly when they consist of the same words ignoring letter case and word separators; equality, ordering and hashing always agree with one another. The snake, camel and Pascal case forms are built from exactly those words in order, so equal identifiers have equal snake case forms.",
 ["inputs"], "every pair of strings usable as identifiers, including Unicode letters and digits",
 "Tests check a few ASCII names; map and set behaviour throughout the tool rests on the agreement of equality, order and hash for all strings.",
 ["src/identifier.rs"],
 [("word splitting and pre-computed snake case", "src/identifier.rs (split_words, From<&str>, PartialEq, Ord, Hash)")],
 observe=["identifier comparisons; names in generated code"])

prop("C15", "Loading collects every transitively imported file exactly once, correctly named",
 "Loading a schema yields exactly the file itself and all files it imports directly or indirectly, each exactly once even when import chains form cycles or diamonds, each under the namespace given by its path relative to the directory of the main schema, and with every import annotated with the namespace of the file it points to. A missing, unreadable or malformed file, an import outside the base directory, or two different files competing for one namespace make loading fail with an error.",
 ["inputs", "configurations"], "every directory of schema files and every import graph over it",
 "Tests load one fixed directory; import graphs, relative paths with parent components and colliding names are unbounded.",
 ["src/schema_loader.rs"],
 [("work-list traversal with a visited set, canonicalisation and prefix stripping", "src/schema_loader.rs (load_schemas, path_to_namespace)")],
 state=[("work list", "files still to be read, with the namespace and origin of each", "src/schema_loader.rs load_schemas")],
 observe=["set of loaded files, namespaces and import targets; errors"])

prop("C16", "No output is written unless the whole schema is valid; failures exit non-zero",
 "The generate command writes an output file only after the schema and all its dependencies were loaded and found valid, writes only the output files requested on the command line, and exits with status zero exactly when everything requested was written; any error is printed to standard error and gives a non-zero exit status. An invalid schema leaves existing output files untouched.",
 ["inputs", "configurations", "fault_sequences"], "every schema (valid or not), every combination of requested outputs, every failing read or write",
 "Exit codes and side effects on failing runs are not exercised by the unit tests at all.",
 ["src/main.rs", "src/error_merger.rs"],
 [("sequencing of load, validate, write with early return", "src/main.rs (generate_code, entry, main)")],
 observe=["file system effects, stderr and exit status of the generate command"])

prop("C18", "Error listings show exactly the lines an error refers to",
 "For every source text and every range spanning one or more consecutive tokens of it, the listing attached to an error shows exactly the lines the range touches (trimmed of trailing blank ends), each with its correct one-based line number, and marks exactly the characters of the range on those lines; rendering it never panics, whatever the text contains. Merging several errors keeps every error's message, in order.",
 ["inputs"], "every text and every in-bounds character-aligned range, every list of errors",
 "Tests list a handful of ranges in short ASCII texts; off-by-one line or column errors appear only for particular ranges, empty lines, multi-byte or multi-width characters.",
 ["src/error.rs", "src/error_merger.rs"],
 [("line computation and range clipping", "src/error.rs (listing)"), ("error concatenation", "src/error_merger.rs (merge_errors)")],
 observe=["text of reported errors"])

prop("C19", "Generation is a pure function of the schemas",
 "Generating code twice from schemas with the same content gives byte-identical output, independent of the order in which files were discovered, of the current directory, of how the schema path was spelled, and of any run-to-run randomness.",
 ["histories", "configurations", "inputs"], "every accepted schema set, every run",
 "Tests run the generator once per process on one schema; hash-seed dependence shows only across processes and with several entries.",
 ["src/generate_rust.rs", "src/generate_typescript.rs", "src/schema_loader.rs"],
 [("ordered maps for schemas, imports and modules", "src/generate_rust.rs, src/generate_typescript.rs (generate)")],
 observe=["bytes of generated files across runs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
