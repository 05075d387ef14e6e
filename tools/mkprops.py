#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
T="crates/toon/src/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mechanism,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

ENC=[T+"ser/stream.rs",T+"encode/encoders.rs",T+"encode/primitives.rs",T+"encode/writer.rs",T+"number.rs"]
DEC=[T+"decode/scanner.rs",T+"decode/parser.rs",T+"decode/validation.rs",T+"de/mod.rs"]

prop("C01","Decoding what was encoded gives back every JSON value, under every option set",
 "Encoding any JSON value and decoding the result with the same delimiter, indentation and strictness returns an equal JSON value: same types, strings, numbers, array order and object members, nothing lost, added or moved to another parent. Nesting beyond the decoder's limit of 256 levels is refused with an error. It holds for every delimiter, every indentation width of at least 1, strict and lenient decoding, and with keys that look like paths left alone while path expansion is off.",
 ["inputs","configurations"],
 "All JSON values (any nesting of objects and arrays, empty containers, any Unicode strings and keys, all i64/u64/finite f64 numbers) x delimiter {comma, tab, pipe} x indent >= 1 x strict {on, off}.",
 "The tests round-trip about a dozen hand-written values, nearly all with the default options; the guarantee is over all value shapes (e.g. an empty object before a sibling, arrays nested in list items) times all options.",
 ENC+DEC,
 [("streaming serializer layout choice",T+"ser/stream.rs"),("quoting rules",T+"encode/primitives.rs"),("indentation-driven parser",T+"decode/parser.rs")],
 ["toon_rs::encode_to_string","toon_rs::decode_from_str"])

prop("C02","Key folding is undone exactly by path expansion",
 "For every JSON value whose object keys contain no dots, encoding with safe key folding at any flatten depth and decoding with safe path expansion returns an equal value, and decoding without expansion returns the value in which exactly the foldable single-key chains have become dotted keys. Folding never merges with or hides an existing sibling key, never folds a key that needs quoting, and never joins more segments than the flatten depth.",
 ["inputs","configurations"],
 "All JSON values x flatten depth {none, 0, 1, 2, ...} x delimiter x indent x strict.",
 "Folding has a handful of example tests; interaction of depth limit, quoted segments, sibling collisions, list items and tables is a product no test enumerates.",
 [T+"encode/encoders.rs",T+"ser/stream.rs",T+"decode/path_expand.rs"],
 [("try_fold_keys",T+"encode/encoders.rs"),("buffered map entries for collision detection",T+"ser/stream.rs"),("expand_paths",T+"decode/path_expand.rs")],
 ["toon_rs::encode_to_string","toon_rs::decode_from_str"])

prop("C03","The encoder emits exactly the canonical TOON text",
 "For every JSON value and option set the encoded text is the canonical TOON v3 form: declared lengths, active delimiter marked in every array header, tabular form exactly for non-empty arrays of objects that share one non-empty key set and hold only primitives, inline form for primitive arrays, list form otherwise, empty array as a zero-length header, one indentation step per depth with two below a list item's first field, source key order, no trailing newline or trailing spaces.",
 ["inputs","configurations"],
 "All JSON values x delimiter {comma, tab, pipe} x indent >= 1 (folding off).",
 "Tests compare a few expected strings; canonical form must be right for every shape in every position (root, field, list item, first field of a list item) and there are three separately written copies of the layout code.",
 ENC,
 [("header formatting",T+"encode/primitives.rs"),("is_tabular_array",T+"encode/encoders.rs"),("encode_list_item_json / encode_keyed_array_json",T+"ser/stream.rs")],
 ["toon_rs::encode_to_string","toon_rs::ser::to_string"])

prop("C04","Strict decoding accepts well-formed documents, and reads them right",
 "In strict mode a document that is well-formed TOON v3 decodes to exactly the value it denotes, object members in document order, for every delimiter declared in its headers and any configured indentation. A document that is malformed (a declared length or row width that does not match, a blank line inside an array, a tab or a non-multiple in indentation, an unterminated or badly escaped string, a missing colon, content that belongs to nothing) is rejected, never turned into some other value.",
 ["inputs"],
 "All texts built from TOON lines: every sequence of keyed, header, row, list-item, scalar and blank lines at every indentation, up to the explored length.",
 "The strict tests each try one bad document; the guarantee ranges over all combinations of line kinds and indentations, where most parser mistakes (attaching a line to the wrong parent, dropping a tail) live.",
 DEC,
 [("line scanner",T+"decode/scanner.rs"),("recursive parser",T+"decode/parser.rs"),("indentation validation",T+"decode/validation.rs")],
 ["toon_rs::decode_from_str with strict on"])

prop("C05","Decoding any text ends in a value or an error, never a crash",
 "Decoding any UTF-8 text, under any options and into any target, terminates with a value or an error: no panic, no arithmetic overflow, no hang and no stack exhaustion. A syntax error names a line that exists in the input.",
 ["inputs","configurations"],
 "All UTF-8 texts (explored: all short texts over the structural alphabet, all short line sequences, every code point in every structural position, large repetitive documents whose nesting depth stays at or below 128) x strict x expand x indent.",
 "Tests decode sensible text; hostile text is unbounded. The fuzz targets sample it, and are not run.",
 DEC+[T+"decode/path_expand.rs",T+"number.rs",T+"error.rs"],
 [("byte-offset slicing in scanner and header parsing",T+"decode/scanner.rs, "+T+"decode/parser.rs"),("recursion per nesting level",T+"decode/parser.rs")],
 ["toon_rs::decode_from_str","exit status of the process"])

prop("C06","Whatever strict mode accepts, lenient mode reads identically",
 "If a text decodes in strict mode then it also decodes with strict off, to an equal value; strictness only ever adds rejections. This holds with and without path expansion.",
 ["inputs","configurations"],
 "All texts x {expansion off, safe} x indent.",
 "A relation between two runs over all inputs; the tests compare modes on two or three documents.",
 DEC+[T+"decode/path_expand.rs"],
 [("strict flag branches in the parser",T+"decode/parser.rs"),("strict conflicts in path expansion",T+"decode/path_expand.rs")],
 ["toon_rs::decode_from_str with strict on and off"])

prop("C07","Every single damage to array structure in an encoded document is detected",
 "Take any encoded document and damage it once: drop or duplicate one table row or list item or inline value, add or remove one cell or one header field, change a declared length to another number, insert a blank line between the rows or items of an array, shift a line's indentation off the grid or put a tab in it, cut a string's closing quote (so that some quoted token is left unterminated or with text behind it), or truncate at a line end inside an array so that at least one element is lost. Strict decoding of the damaged text fails with a syntax error; it never returns a value.",
 ["inputs","fault_sequences"],
 "All encoded documents (over the enumerated values) x every position x every damage kind listed x delimiter.",
 "Tests damage one table of one document in five ways; truncation detection is a guarantee over every array in every position (keyed, nested in list items, root, tabular, inline).",
 DEC,
 [("length checks",T+"decode/parser.rs parse_array_with_length_check, parse_tabular_rows, parse_keyed_array_value"),("indentation validation",T+"decode/validation.rs")],
 ["toon_rs::decode_from_str with strict on"])

prop("C08","All ways of encoding a value produce the same bytes",
 "The streaming encoder, the value-based encoder and the writer-based variants produce byte-identical output for the same data and options, including folding, whether the data is a JSON value or an equivalent Rust type (structs, maps, tuples, options, newtypes and all enum variant kinds, which encode as their conventional JSON form).",
 ["inputs","configurations"],
 "All JSON values and all serde data-model shapes x all encode options x all public encode entry points.",
 "One test compares two entry points on one struct. The two encoders are separate code with separate layout logic, so agreement is needed on every shape.",
 [T+"lib.rs",T+"ser/mod.rs",T+"ser/stream.rs",T+"ser/value_builder.rs",T+"encode/encoders.rs",T+"encode/mod.rs"],
 [("StreamingSerializer",T+"ser/stream.rs"),("value builder then encode_value",T+"ser/mod.rs")],
 ["encode_to_string, encode_to_writer, ser::to_string, ser::to_string_streaming, ser::to_writer, ser::to_writer_streaming"])

prop("C09","Numbers keep their exact value and have one canonical spelling",
 "Every i64, u64 and finite f64 is written in plain decimal notation (no exponent, no leading or trailing zeros, no minus zero), in every position of a document, and decodes back to exactly the same number; non-finite floats are written as null. A number token in a document decodes to the mathematically nearest representable number; a token with forbidden leading zeros, or whose value is beyond the largest double, decodes to a string with the same characters.",
 ["inputs"],
 "All i64, u64, f64 values, and all JSON-number-shaped tokens, at root, as field, inline array element, table cell, list item.",
 "Tests check about ten numbers; correctness depends on the binade, digit count and exponent, i.e. on all 2^64 doubles and all token lengths.",
 [T+"number.rs",T+"decode/parser.rs",T+"encode/primitives.rs",T+"ser/stream.rs",T+"encode/encoders.rs"],
 [("format_canonical_f64 / expand_exponent / trim_fraction",T+"number.rs"),("parse_scalar_token, classify_numeric_hint",T+"decode/parser.rs"),("has_forbidden_leading_zeros",T+"number.rs")],
 ["encode_to_string of numbers","decode_from_str of number tokens"])

prop("C10","Strings and keys survive in every position, quoted exactly when necessary",
 "Any Unicode string, used as a root value, object key, object value, array element, table header, table cell or list item, under any delimiter, is read back unchanged and with string type. It is written without quotes exactly when the TOON rules allow it: a value is quoted only if it is empty, has leading or trailing whitespace, reads as a literal or a number, starts with a hyphen, or contains a colon, quote, backslash, bracket, brace, control character or the active delimiter, and a key is unquoted exactly when it is an identifier with optional dots.",
 ["inputs","configurations"],
 "All Unicode strings x 8 syntactic positions x 3 delimiters x strict {on, off}.",
 "Tests use a dozen strings; the escape and quoting decision depends on each character, its neighbours and the position.",
 [T+"encode/primitives.rs",T+"decode/parser.rs",T+"decode/scanner.rs"],
 [("needs_quotes / key_needs_quotes / escape_and_quote",T+"encode/primitives.rs"),("try_unescape_json_string, split_delim_aware, trim_ascii",T+"decode/parser.rs")],
 ["encode_to_string","decode_from_str"])

prop("C11","Path expansion builds exactly the object that the dotted keys describe",
 "With safe expansion, an unquoted key made of identifier segments joined by dots becomes nested objects that merge with one another and with plain keys in document order; quoted keys and keys with any non-identifier segment are kept verbatim, at every depth and inside arrays and tables. Where a path meets a non-object, strict mode reports an error and lenient mode lets the later entry win; with expansion off no key is changed.",
 ["inputs","configurations"],
 "All documents of dotted, quoted and plain keys up to the explored size x strict x expansion mode.",
 "Merging is order-sensitive and recursive; tests try a few two-key documents.",
 [T+"decode/path_expand.rs",T+"decode/parser.rs",T+"de/mod.rs"],
 [("expand_paths / deep_merge",T+"decode/path_expand.rs"),("quoted-key marker",T+"decode/parser.rs parse_key_token")],
 ["decode_from_str with expand_paths"])

prop("C12","Typed Rust data survives encoding and decoding",
 "A value of any Rust type with derived serialization (structs, nested and optional fields, tuples, newtypes, unit types, maps with string, integer, bool, char or unit-enum keys, vectors, all four enum variant kinds under every serde tagging mode, flattened and defaulted fields) decodes back from its own encoding to an equal value. For a document without repeated keys, decoding into a type gives the same result as decoding to a generic JSON value and converting that to the type.",
 ["inputs","programs","configurations"],
 "All values of a family of Rust types covering every serde data-model call, each in every container position, x delimiter x indent x strict.",
 "Tests derive two structs of scalars; every other serde hook (options, newtypes, enums, non-string keys) is never exercised on decode.",
 [T+"de/mod.rs",T+"ser/stream.rs",T+"ser/value_builder.rs"],
 [("Deserializer over the parsed value",T+"de/mod.rs"),("StreamingSerializer and its key/scalar helpers",T+"ser/stream.rs")],
 ["encode_to_string::<T>","decode_from_str::<T>"])

prop("C13","Feature flags change performance and footprint, never results",
 "Building with the performance features (memchr, smallvec, lexical, chrono), or without std and JSON interop, gives byte-identical encodings and equal decode results, including which inputs are rejected. Building with the direct deserializer gives the same typed decode results for encoded documents of nested objects, scalars and inline arrays of scalars, and ends in a value or an error for any document. (Error messages are not part of this.)",
 ["configurations","inputs"],
 "All enumerated values and documents x {default, perf features, alloc-only, direct deserializer} builds.",
 "Each build runs the same few tests in isolation; nothing compares builds, and the no-JSON build has its own copy of the encoder.",
 [T+"ser/stream.rs",T+"ser/value_builder_alloc.rs",T+"decode/scanner.rs",T+"decode/parser.rs",T+"de/direct.rs"],
 [("cfg(feature) duplicates of scan, split and encoders",T+"ser/stream.rs, "+T+"decode/scanner.rs, "+T+"decode/parser.rs"),("DirectDeserializer",T+"de/direct.rs")],
 ["encode_to_string and decode_from_str in four builds"])

prop("C14","Reader and writer entry points are exact under every I/O behaviour",
 "Decoding from a reader gives the result of decoding the whole text however the reader splits it, interrupts or buffers; a reader error or invalid UTF-8 yields an error, never a value from partial input. Encoding to a writer delivers exactly the encoded bytes under any pattern of short or interrupted writes, and any write error or zero-length write is reported as an error.",
 ["fault_sequences","inputs"],
 "All split points and all fault positions (short transfer, interruption, error, end of file, invalid byte) of a family of documents and values.",
 "Tests never use a misbehaving reader or writer.",
 [T+"lib.rs",T+"ser/mod.rs",T+"error.rs"],
 [("decode_from_reader / encode_to_writer / to_writer*",T+"lib.rs, "+T+"ser/mod.rs")],
 ["decode_from_reader","encode_to_writer","ser::to_writer","ser::to_writer_streaming"])

prop("C15","The command line tool converts losslessly and signals failure",
 "For every input the tool's standard output is exactly the library's encoding (or, when decoding, the JSON text of the library's strict result) followed by one newline with exit status 0, for every delimiter, for compact and pretty output, from a file or standard input. For invalid JSON, invalid TOON, invalid UTF-8 or a missing file it exits non-zero, prints a message on standard error and nothing on standard output.",
 ["inputs","configurations"],
 "All enumerated documents and values x {encode, decode} x delimiter x pretty x {file, stdin}.",
 "Two smoke tests run the tool on one input each.",
 ["crates/toon-cli/src/main.rs",T+"lib.rs"],
 [("argument to option mapping","crates/toon-cli/src/main.rs main")],
 ["process stdout, stderr and exit status"])

prop("C16","The WebAssembly bindings are the library with their options applied",
 "JSON-to-TOON through the bindings equals the library's encoding with comma or pipe as selected, and TOON-to-JSON equals the JSON text, compact or pretty as selected, of the library's decoding with the selected strictness. Invalid input of either kind returns an error, inputs over the documented size limit are refused and inputs at the limit are not, and nothing panics.",
 ["inputs","configurations"],
 "All enumerated JSON texts and TOON documents x pipe x strict x pretty; input sizes around the limit.",
 "Its unit tests try a few documents and never compare with the library.",
 ["crates/toon-wasm/src/lib.rs",T+"lib.rs"],
 [("json_to_toon / toon_to_json","crates/toon-wasm/src/lib.rs"),("MAX_INPUT_SIZE","crates/toon-wasm/src/lib.rs")],
 ["json_to_toon","toon_to_json","version"])

prop("C17","Results depend only on the arguments, never on earlier or concurrent calls",
 "Every encode and decode call returns the same result as in a fresh process, whatever calls (including failing ones) came before it and whatever other threads are doing at the same time.",
 ["histories","schedules"],
 "All sequences of operations from an alphabet of encode and decode calls up to the explored length, in one thread and spread over threads.",
 "Tests call each function once; hidden state would show only across calls.",
 [T+"lib.rs",T+"de/mod.rs",T+"ser/stream.rs",T+"decode/parser.rs"],
 [("parser and serializer state is per call",T+"decode/parser.rs, "+T+"ser/stream.rs")],
 ["public encode and decode functions"])

prop("C18","A failing serialization or deserialization is reported, never papered over",
 "If the caller's own serialization code fails at any point of any value, or the data cannot be represented (a key that is a container, an integer beyond 64 bits), encoding returns an error and never a document with a substitute in it. If a document does not match the target type (wrong type, missing field, unknown variant, out-of-range number, wrong length), decoding returns an error, never a defaulted or truncated value.",
 ["fault_sequences","programs","inputs"],
 "Every failure point of every enumerated serde call tree x every entry point; every enumerated document x every type of a family.",
 "No test serializes a failing type; error paths inside nested positions are never taken.",
 [T+"ser/stream.rs",T+"ser/value_builder.rs",T+"ser/mod.rs",T+"de/mod.rs"],
 [("error conversion in the value builder",T+"ser/value_builder.rs to_value"),("scalar attempt before value building",T+"ser/stream.rs try_scalar_to_string")],
 ["encode_to_string","ser::to_string","decode_from_str"])

prop("C19","Any accepted document re-encodes stably",
 "If a text decodes to a value, in either mode, then encoding that value gives a text that decodes to the same value again and whose re-encoding is identical byte for byte. So one decode-encode pass normalizes any accepted document and a second pass changes nothing.",
 ["inputs","configurations"],
 "All texts that decode, x delimiter x indent x strict.",
 "A property of the composition over all accepted texts; the fuzz target states it but is not run.",
 ENC+DEC,
 [("decode then encode",T+"lib.rs")],
 ["decode_from_str","encode_to_string"])

prop("C20","Every way of decoding a document gives the same result",
 "All decoding entry points (from a string, from a reader, the serde entry point, the parser's own lenient entry point) and all targets that take any data (generic JSON, a transparent wrapper, a map of generic values, a target that ignores the data) agree on every text: all give the same value, with object members in document order, or all give the same error naming the same line.",
 ["inputs","configurations"],
 "All texts x strict {on, off} x expansion {off, safe} x indent, x every public decoding entry point and catch-all target.",
 "Each test decodes through one entry point; the generic JSON target and typed targets take different routes through the code in some builds, and only a comparison over all texts shows they agree.",
 [T+"lib.rs",T+"de/mod.rs",T+"decode/parser.rs"],
 [("decode_from_str / decode_from_reader",T+"lib.rs"),("de::from_str, type dispatch",T+"de/mod.rs"),("parse_to_value",T+"decode/parser.rs")],
 ["decode_from_str","de::from_str","decode_from_reader","decode::parser::parse_to_value"])

prop("C21","An option changes only what it is documented to change",
 "Decoding never depends on the encoding options (delimiter, key folding, flatten depth): documents declare their own delimiters. Encoding never depends on the decoding options (strictness, path expansion). Flatten depth has no effect while folding is off; folding with depth 0 or 1 is no folding; a depth beyond every chain is no limit; path expansion changes nothing in a document without a dot. The default options are comma, strict, two spaces, no folding, no depth limit, no expansion.",
 ["configurations","inputs"],
 "All texts and all JSON values x pairs of option sets that differ in an irrelevant option.",
 "A relation between runs under different options; tests run most inputs under one option set, and an option read in the wrong place shows up only on an input whose reading it changes.",
 [T+"options.rs",T+"de/mod.rs",T+"decode/parser.rs",T+"ser/stream.rs",T+"encode/encoders.rs"],
 [("Options","crates/toon/src/options.rs"),("uses of options in the decoder",T+"de/mod.rs, "+T+"decode/parser.rs"),("uses of options in the encoder",T+"ser/stream.rs")],
 ["decode_from_str","encode_to_string","Options::default"])

prop("C22","Every well-formed way of writing a value decodes to that value",
 "The format leaves a writer choices: an array may be written inline, as a table or as a list as far as its content permits, every array declares a delimiter of its own, table fields come in any order, strings and keys may be quoted without need, spaces may surround delimiters, blank lines may stand outside arrays, and a final newline may follow. Whatever combination of choices a document makes, in strict and lenient mode it decodes to the value written.",
 ["inputs"],
 "All JSON values x all sequences of writer choices.",
 "Documents written by hand or by other tools need not look like this library's own output, and the tests contain only a handful of such documents; the combinations of choices are unbounded.",
 DEC,
 [("array forms and header delimiters",T+"decode/parser.rs parse_array_header, parse_keyed_array_value"),("tokens",T+"decode/parser.rs split_delim_aware, parse_scalar_token"),("blank lines",T+"decode/parser.rs skip_blanks")],
 ["decode_from_str"])

prop("C23","A document means the same alone and as part of a larger one",
 "A well-formed object document placed one level deeper below a key, before, after or between other fields, or as a list item, contributes exactly the value it has alone, and the surrounding document is unaffected; a root array document with a key in front is a field with that array as value. A malformed document makes the whole that contains it malformed in strict mode; its error is never swallowed by its surroundings.",
 ["inputs"],
 "All documents x all places in larger documents, nested to any depth.",
 "Parser mistakes about where a part ends (a lost tail, an error overwritten, an indentation remembered from the level above) need a part and a context that no single example combines.",
 DEC,
 [("recursive descent over indentation",T+"decode/parser.rs parse_node, parse_object_fields, parse_array_items"),("error slot shared by all levels",T+"decode/parser.rs Parser::error")],
 ["decode_from_str"])

prop("C24","Nothing in an accepted document is ignored",
 "Every line, every declared length and every visible character of a document accepted in strict mode matters: adding, removing or repeating a line with content, swapping two lines that say different things, changing a declared length, or replacing a visible character by a letter gives an error or a different value (member order and repeated keys count). Left out are the header of a root or nested list, which the decoder can do without, and the field names of an empty table.",
 ["inputs"],
 "All accepted documents x all single changes of these kinds.",
 "A decoder that drops a tail, skips a check in one of several code paths, or stops reading early still returns a plausible value; tests compare the values of chosen documents and cannot notice text that no longer has any effect.",
 DEC,
 [("line consumption and length checks",T+"decode/parser.rs"),("line scanner",T+"decode/scanner.rs")],
 ["decode_from_str with strict on"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
