ENUM = "bounded exhaustive enumeration of the real code against a reference model"
MC = "model_checking"
LEVELS = {
 "C01": (ENUM + " (every JSON value of the bounded spaces x layouts x strictness)", MC,
         "Exhaustive within the stated bounds on tree size, string/number/key alphabets and option sets; trusts the harness's JSON comparison."),
 "C02": (ENUM + " (every value of the bounded spaces x flatten depth x layouts, folded form compared with a model of folding)", MC,
         "Exhaustive within the stated bounds; trusts the reference folding in harness/core/src/enc.rs."),
 "C03": (ENUM + " (every value x layout, output bytes compared with a reference encoder)", MC,
         "Exhaustive within the stated bounds; trusts the reference encoder in harness/core/src/enc.rs, itself run against the repository's spec fixtures' shapes by agreement with the implementation on every state."),
 "C04": (ENUM + " (every document of the bounded line/word spaces, decoded in strict mode and compared with an independent strict decoder)", MC,
         "Exhaustive within the stated bounds; documents the TOON rules leave open are counted apart and only checked for the absence of a crash."),
 "C05": (ENUM + " (every document of the bounded spaces x options x targets run to completion under a supervisor that notices crashes and hangs)", MC,
         "Exhaustive within the stated bounds; built with debug assertions and overflow checks; hang limit 40 s."),
 "C06": (ENUM + " (every document x options, strict and lenient runs compared)", MC,
         "Exhaustive within the stated bounds."),
 "C11": (ENUM + " (every object of bounded size over a key/value alphabet, expansion compared with a path-insertion model)", MC,
         "Exhaustive within the stated bounds; trusts the insertion model in harness/check/src/c11.rs."),
 "C19": (ENUM + " (every document of the bounded spaces, decode/encode/decode fixpoint)", MC,
         "Exhaustive within the stated bounds."),
 "C08": (ENUM + " (every JSON value and every tree of serde calls x options x 7 entry points, bytes compared)", MC,
         "Exhaustive within the stated bounds; the conventional JSON form of a call tree is a model in harness/core/src/dm.rs."),
 "C12": (ENUM + " (every value of ~95 Rust types in every container position; every small document into 60 target types, compared with conversion of the generic JSON)", MC,
         "Exhaustive within the stated bounds; serde_json is trusted as the oracle for converting generic JSON into a type."),
 "C09": (ENUM + " (every number token of the bounded alphabets and the enumerated doubles and integers, encoded and decoded, compared with exact decimal arithmetic)", MC,
         "Exhaustive within the stated bounds on digits, exponents and mantissas; trusts the exact big-number comparison in harness/core/src/big.rs."),
 "C10": (ENUM + " (every code point, every short string over significant characters, in every value and key position x delimiters, text and decoded value compared with the quoting model)", MC,
         "Exhaustive within the stated bounds; strings whose quoting the rules leave open are only round-tripped."),
 "C07": ("exhaustive fault enumeration (every damage kind at every place of every encoded document of the bounded spaces, decoded by the real code)", "fault_enumeration",
         "Exhaustive within the stated bounds (both ends and the middle of containers longer than 24); damage places come from the reference encoder."),
 "C18": ("exhaustive fault enumeration (every failing step of every bounded tree of serde calls x 6 entry points, every unrepresentable datum in every place, every document x 72 targets)", "fault_enumeration",
         "Exhaustive within the stated bounds; serde_json is trusted as the oracle for whether generic JSON fits a type."),
 "C14": ("exhaustive fault enumeration (every script of read and write results up to a length, every cut, interruption, error, end of file and invalid byte at every place)", "fault_enumeration",
         "Exhaustive within the stated bounds on script length and document size; between 300 KB and the largest size (2^25 bytes, thorough 2^27) only sizes next to a power of two are read and written."),
 "C17": ("stateless model checking of the real code under a controlled scheduler (every history of calls up to a length; every schedule of two calls with up to two preemptions; every nesting of a call in another)", MC,
         "Exhaustive within the stated bounds; threads are preempted at allocations and callbacks only, two threads, at most two preemptions."),
 "C13": (ENUM + " (every value, tree of serde calls and document of the bounded spaces encoded/decoded by eight builds of the crate loaded side by side)", MC,
         "Exhaustive within the stated bounds; error messages are not compared; the direct deserializer only on the document shapes it supports (the others are recorded as known findings)."),
 "C15": (ENUM + " (every input, command line, delivery and output sink of the bounded spaces run through the built tool as a process)", MC,
         "Exhaustive within the stated bounds; the library's own answer is the oracle, serde_json reads the JSON on both sides."),
 "C16": (ENUM + " (every input and option combination of the bounded spaces called through the compiled bindings, sizes around the limit included)", MC,
         "Exhaustive within the stated bounds; the bindings run natively, the generated JavaScript glue is not examined."),
 "C20": (ENUM + " (every document of the bounded spaces through every decoding entry point and catch-all target, results and errors compared)", MC,
         "Exhaustive within the stated bounds; differential, no other oracle."),
 "C21": (ENUM + " (every document and value of the bounded spaces under option sets that must not differ in effect)", MC,
         "Exhaustive within the stated bounds; differential, no other oracle."),
 "C22": ("exhaustive exploration of a nondeterministic writer (every value of the bounded spaces x every sequence of the writer's choices, decoded by the real code)", MC,
         "Exhaustive within the stated bounds on value size; the writer's choices are those the format clearly permits."),
 "C23": (ENUM + " (every document of the bounded spaces in every context, contexts nested up to three (thorough: four) deep, compared with the value alone)", MC,
         "Exhaustive within the stated bounds; whether a part is well-formed is decided by the reference decoder, and parts it leaves open are left out."),
 "C24": (ENUM + " (every document of the bounded spaces x every single change to a line, a declared length or a visible character, both decoded by the real code)", MC,
         "Exhaustive within the stated bounds; no reference decoder is involved, only the comparison of two decoded values."),
}
