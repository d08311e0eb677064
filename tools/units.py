"""Which contracts (units) and which bounded searches serve which property."""
import corpus
import gen_de
import gen_ser

UNITS = {
    "c01": {},
    "de": {},
    "ser": {},
    "scalars": {},
    "dtext": {"expand": True},
    "dde": {"expand": "flat", "modules": lambda: gen_de.modules(corpus.TYPES)},
    "dser": {"expand": "flat", "modules": lambda: gen_ser.modules(corpus.TYPES)},
    "dmac": {"expand": "macros"},
}
XMLRS = "xml-rs's EventReader delivers a fixed event sequence with matched tags (contracts/xml_model.rs, `Src::wf`), and an end that repeats"
XMLW = "xml-rs's EventWriter either writes an event, in UTF-8, or fails; namespace::Namespace::put inserts unless the prefix is taken (contracts/ser_model.rs)"
SERH = "user implementations of Serialize / ToText meet the trait contracts (they only extend what they are given; they do not mem::forget builders or swap them)"
HANDLERS = "handlers (`dyn ElementVisitor`, `Deserialize`, `ParseText` implementations of the user) meet the trait contracts; safe Rust gives them no other access to the reader"
PROPS = {
    "C01": {"note": 'The contract of `normalize` (equality with a recursive specification of all three modes, valid UTF-8, no panic) is discharged for every string. Trusted: the std functions named in the evidence.',
            "units": ["c01"], "harness": ["core"], "level": "proof", "secs": 5,
            "assumptions": ["String::from_utf8_unchecked, String::into_bytes, slice iteration adaptors and copy_within behave as documented"]},
    "C02": {"note": "`next`, `return_to_depth`, `read_to`, `read_string` meet contracts over the whole event sequence, for every document and every handler that meets the handler contract. Trusted: xml-rs's event stream.",
            "units": ["de"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLRS, HANDLERS]},
    "C03": {"note": "`read`, `from_str`, `root`, `end` succeed exactly on complete documents and pass on the source's error; all panics unreachable, all loops terminate. Trusted: xml-rs's event stream.",
            "units": ["de"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLRS, HANDLERS]},
    "C04": {"note": "Contracts fix stack, position and cause of every error on every exit. Trusted: xml-rs's event stream. What `Display` prints of an error (message, position, and the stack from the innermost element to the root) and its `source()` are under contract too; trusted there: how std and xml-rs print a number, a position or a name.",
            "units": ["de"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLRS, HANDLERS]},
    "C05": {"note": "`read_string` returns the concatenation of all text events for every event sequence. Trusted: xml-rs's event stream.",
            "units": ["de"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLRS]},
    "C06": {"note": 'The field implementations for T, Option<T>, Vec<T> and the attribute ones meet the cardinality contracts; the derive side is covered under C13.',
            "units": ["de"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLRS, HANDLERS]},
    "C11": {"note": '`from_xml_name` and `find` meet their contracts for every name and sorted table. Trusted: binary_search and the derived order.',
            "units": ["de"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLRS, "slice::binary_search and the derived Ord of ExpandedNameRef behave as documented"]},
    "C12": {"note": "The three delegate functions meet contracts over the handlers' call logs, for every number of handlers and every behaviour.",
            "units": ["de"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [HANDLERS]},
    "C07": {"note": "The 14 `ParseText` and 15 `ToText` implementations (the macros' arms expanded mechanically) meet contracts saying what they accept and print, for every string and value; print-then-parse is a lemma over those contracts. Trusted: std's FromStr, Display and trim_matches, and that they round-trip.",
            "units": ["scalars"], "harness": ["core"], "level": "proof", "secs": 5,
            "assumptions": ["std's FromStr and Display of numbers round-trip (NaN aside) and print no white space; str::trim_matches and friends behave as documented; bool displays as true / false"]},
    "C08": {"note": "`write`/`poison`, both `Drop` impls (made explicit calls at every scope exit by the extractor), `start`, `finish`, `text`, `Serializer::to` and `to_string` meet contracts over the log of events and the first failure. Trusted: xml-rs's writer.",
            "units": ["ser"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLW, SERH]},
    "C09": {"note": "`ElementBuilder::attribute` and `start` meet contracts over the attribute list for every sequence of additions. Trusted: std maps, xml-rs's writer.",
            "units": ["ser"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLW, SERH]},
    "C10": {"note": "`insert`, `attribute`, `finalize`, `child`, `resolve_element`, `resolve_attribute` meet contracts for every namespace table; documented panics are reachable only for undeclared names. Trusted: std BTreeMap, format! of a prefix and a number.",
            "units": ["ser"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLW, "format!(\"{}{}\", prefix, i) starts with the prefix and differs for different i"]},
    "C17": {"note": "The field implementations for T, Option<T>, Vec<T>, the attribute ones and the blanket `Serialize` for text meet contracts over the event log, for every value and length.",
            "units": ["ser"], "harness": ["core"], "level": "proof", "secs": 8, "assumptions": [XMLW, SERH]},
    "C15": {"note": "The `parse` and `to_text` that the macros generate for the 20 text types of the corpus (the compiler's expansion, verbatim) meet contracts written from the documented meaning of the annotations, for every string and value; print-then-parse is a lemma over those contracts. The macros' code that reads a declaration is under contract in unit dmac (C18); the code that prints (quote!) is not, so the shapes of types are bounded by the corpus and by the declarations of the bounded search.",
            "units": ["dtext"], "harness": ["derive"], "level": "proof", "secs": 5,
            "assumptions": ["the quantifier over declarations is covered by the 20 text types of corpus/src/lib.rs only; strings and values are not bounded", "rustc's -Zunpretty=expanded prints what is compiled", "FromStr and Display of a `std` type are functions of the text and the value"],
            "not_covered": ["the functions of static-xml-derive/src/{parse,to_text}.rs that print code: their output for the corpus is"]},
}
CORPUS = "the quantifier over declarations is covered by the types of corpus/src/lib.rs only; documents and values are not bounded"
EXPAND = "rustc's -Zunpretty=expanded prints what is compiled, and `extract flatten` (rewrites listed in tools/extract/src/flatten.rs) keeps its meaning"
SLOTS = "MaybeUninit, ptr::write and raw field places behave as slots of memory (contracts/dde_model.rs); a struct's memory is its fields' slots"
PROPS["C13"] = {
    "note": "The visitors that the macro generates for the 17 structs of the corpus (the compiler's expansion, rewritten mechanically) meet contracts over the history of what they were told: no slot is read before it was written or written twice, and the struct is exactly what the document's elements and attributes say, for every document. The macro's code that reads a declaration is under contract in unit dmac (C18); the code that prints (quote!) is not, so the shapes of structs are bounded by the corpus and by the declarations of the bounded search.",
    "units": ["de", "dde"], "harness": ["derive"], "level": "proof", "secs": 5, "assumptions": [XMLRS, HANDLERS, CORPUS, EXPAND, SLOTS],
    "not_covered": ["the functions of static-xml-derive/src/{deserialize}.rs that print code: their output for the corpus is"]}
PROPS["C14"] = {
    "note": "The visitors that the macro generates for the 8 element enums of the corpus meet contracts over the history of what they were told, for every document; skipped variants are never held. The macro's code that reads a declaration is under contract in unit dmac (C18); the code that prints (quote!) is not, so the shapes of enums are bounded by the corpus and by the declarations of the bounded search.",
    "units": ["dde", "dser"], "harness": ["derive"], "level": "proof", "secs": 5, "assumptions": [XMLRS, HANDLERS, CORPUS, EXPAND, SLOTS],
    "not_covered": ["the functions of static-xml-derive/src/{deserialize,serialize}.rs that print code: their output for the corpus is"]}
PROPS["C11"]["units"] = ["de", "dde", "dmac"]
PROPS["C11"]["harness"] = ["core", "derive"]
PROPS["C11"]["secs"] = 6
PROPS["C16"] = {
    "note": "The `write_attributes`, `write_children` and `root` that the macro generates for the 25 element types of the corpus (the compiler's expansion) meet contracts over the builder's attributes and the event log, for every value: own fields before flattened ones, once each, under the declared names, the first failure returned; `Serializer::to` writes the whole document. The macro's code that reads a declaration is under contract in unit dmac (C18); the code that prints (quote!) is not, so the shapes of types are bounded by the corpus and by the declarations of the bounded search.",
    "units": ["ser", "dser"], "harness": ["derive"], "level": "proof", "secs": 5, "assumptions": [XMLW, SERH, CORPUS, EXPAND],
    "not_covered": ["the functions of static-xml-derive/src/{serialize}.rs that print code: their output for the corpus is"]}
SYN = "syn parses the declarations and attributes as documented (contracts/dmac_model.rs: its types as far as the macros look at them), and fields in braces have names"
MAC = "`extract macros` (rewrites listed in tools/extract/src/macros.rs) keeps the meaning of the macro crate's code"
PROPS["C18"] = {
    "note": "The 26 functions with which the macros read a declaration (common.rs and the four `derive` functions), the accumulator of errors (its `Drop` included) and the four entry points in lib.rs, mechanically rewritten, meet contracts over syn's trees, for every declaration: errors are reported exactly if something in it is not understood, contradicts something else, is said twice or is not supported, none of the panics can be reached, every error arrives in what the compiler gets and none without a mistake, and what is made of an accepted declaration is what it says (names, namespaces, modes, order of the tables). Trusted: syn, std's maps, strings and sort; the functions that only print code are outside.",
    "units": ["dmac"], "harness": ["macros"], "level": "proof", "secs": 6, "assumptions": [SYN, MAC, "str::trim, split_once, starts_with, sort_by_key, BTreeMap's entry API behave as documented"],
    "not_covered": ["the functions that print the generated code (assumed: no compile_error! in it; their output for the corpus is under contract in C13-C16)", "what rustc rejects in code generated from an accepted declaration (two fields with one name, empty restriction enums, types without the needed traits)"]}
PROPS["C11"]["note"] = "`from_xml_name` and `find` meet their contracts for every name and sorted table; the tables that the macros make are proved sorted and complete for every declaration (dmac), and the code generated for the corpus looks names up in them as the visitors' contracts say. Trusted: binary_search and the derived order."
PROPS["C11"]["assumptions"] += [CORPUS + " (not the order of the tables, which holds for every declaration)", EXPAND, SYN, MAC]
NOT_APPLICABLE = {}
