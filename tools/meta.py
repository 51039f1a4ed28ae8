#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/parser.rs"
V = "src/value.rs"
S = "src/string.rs"
D = "src/doc.rs"
N = "src/number.rs"
E = "src/error.rs"
A = "src/anystr.rs"

T_AI = "abstract interpretation of MIR in product with a specification automaton"
NOTE_AI = ("Sound fixpoint over all inputs and histories for the MIR it models; anything it cannot decide is reported as undecided in the evidence, not as a violation. "
           "Trusts rustc's MIR, the models of standard-library functions, and the specification automata in jj/specs.")

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=T_AI, note=NOTE_AI):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={k: v for k, v in {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": state, "observe_at": observe}.items() if v},
                      _t=technique, _n=note))


prop("C02", "Unchecked UTF-8 and character conversions are only applied to valid data",
     "Whatever bytes or text are given to the tokenizer, every conversion of bytes to text or of a number to a character that skips validation is applied only to data that is valid. No input can therefore produce an invalid string or character.",
     ["inputs"], "every byte sequence and every text, every position in it",
     "The unsafe conversions are undefined behaviour on the first input that breaks the reasoning; tests contain a handful of multi-byte sequences.",
     [P, S], [("Tokenizer::read_string_from_source", P), ("Tokenizer::read_number_from_source", P), ("JsonSource::read", P), ("ByteIterator", P)])
prop("C03", "Tokens reproduce exactly the JSON text they were read from",
     "Every token the tokenizer returns is the one RFC 8259 puts at that place of the input: same kind, same extent, number text equal to the source, string contents equal to the text between the quotes with the right decoded length and escape information. White space is skipped and nothing else.",
     ["inputs", "histories"], "every input and every sequence of tokenizer calls on it",
     "Tests compare the tokens of a few documents; extents, decoded lengths and escape flags go wrong at particular combinations of escapes, surrogates, exponents and ends of input.",
     [P, S, N], [("Tokenizer::next_or_eof", P), ("Tokenizer::read_string_from_source", P), ("Tokenizer::read_number_from_source", P)])
prop("C10", "Error offsets lie within the input",
     "The offset of every error reported while reading an input is at most the length of that input, so that it always designates a place in the input or its end.",
     ["inputs", "histories"], "every malformed input, every call sequence",
     "Each error site computes its offset in its own way; tests assert a few of them.",
     [P, E], [("Tokenizer::next_or_eof", P), ("JsonSource::read", P), ("Error::offset", E)])
prop("C11", "Looking ahead agrees with reading",
     "In every history of tokenizer calls, peeking consumes nothing but white space and names the kind of the token that reading would then attempt; the end of the input is reported only there, by the iterator as well as by the explicit end-aware reader.",
     ["inputs", "histories"], "every interleaving of peek, next and the end-aware next, on every input",
     "The look-ahead and the reader are separate pieces of code that must agree for every first byte and position.",
     [P], [("Tokenizer::peek", P), ("Tokenizer::next_or_eof", P), ("Tokenizer::next", P)])

prop("C01", "Exactly the RFC 8259 texts are accepted",
     "Parsing or validating succeeds exactly when the whole input is one JSON text of RFC 8259 (surrounded by white space only), with only the deviations the configuration asks for: trailing commas when allowed, scalars at the root refused when the root must be a container, nesting deeper than the recursion limit refused. Text input and byte input are judged alike, except that bytes that are not UTF-8 inside strings are refused.",
     ["inputs"], "every byte sequence and text, every configuration, every nesting",
     "The grammar is infinite; tests hold a few dozen documents and a fixed list of malformed ones.",
     [P], [("Tokenizer::read_tokens/read_array/read_object", P), ("Tokenizer::next_or_eof", P)])
prop("C04", "The delegate sees every event of the document, once, in order",
     "While parsing, the delegate receives exactly the events of the document in document order: one begin and end (or empty/value call) for each container with a key for each member and a value for each element, each scalar with the token's own contents, and the values and container objects handed back to the delegate are the very ones it returned for that place. No event is missing, duplicated, or delivered for a place the grammar does not have; the returned result is the one the delegate produced for the root.",
     ["inputs", "histories"], "every document prefix, every nesting of containers, every delegate",
     "Which of several stored objects reaches which callback depends on nesting and on the kind of the neighbours; tests only see it through one delegate on a few documents.",
     [P, D, V], [("Tokenizer::read_tokens/read_array/read_object", P), ("trait ParseDelegate", P)])
prop("C05", "A delegate's error stops the parse and is reported unchanged",
     "Whichever delegate call fails, at whichever place, no further call is made to the delegate and parsing returns that very error.",
     ["inputs", "fault_sequences"], "each of the delegate's methods failing at any event of any document",
     "Tests have no failing delegate for most of the methods.",
     [P, E], [("Tokenizer::read_tokens/read_array/read_object", P), ("ErrorKind::ErrorFromDelegate", E)])
prop("C06", "The recursion limit is exact",
     "With a recursion limit of n, a document is refused with RecursionLimitReached exactly when a container is opened while n are open already, whatever the containers' mix and whatever was opened and closed before; without a limit it is never refused for depth.",
     ["inputs", "configurations"], "every limit and every shape of nesting, siblings included",
     "The limit is decremented and restored by hand around each container; drift shows only after particular sequences of siblings and nestings.",
     [P], [("Tokenizer::read_tokens", P), ("ParseConfig", P)])
prop("C07", "Trailing commas are accepted exactly when allowed",
     "One comma after the last member of an array or object is accepted when trailing commas are allowed and refused otherwise; a comma in an empty container, a doubled or leading comma, and a comma after the root are refused always; allowing them changes no event.",
     ["inputs", "configurations"], "every document, every container at every depth",
     "The option is consulted in separate places for arrays and objects and must propagate to nested ones.",
     [P], [("Tokenizer::read_array", P), ("Tokenizer::read_object", P)])
prop("C08", "The root type option restricts the root only",
     "When only containers are allowed at the root, a scalar root is refused with PayloadsShouldBeObjectOrArray and everything else is judged as without the option; scalars inside containers are never refused.",
     ["inputs", "configurations"], "every document and configuration",
     "Tests try each scalar kind once at the root.",
     [P], [("Tokenizer::read_tokens", P), ("ParseConfig", P)])
prop("C09", "No input makes parsing panic",
     "Whatever the input and configuration, tokenizing, parsing and validating never panic: no overflow, no index or slice out of bounds, no unwrap of nothing, no unreachable.",
     ["inputs", "configurations"], "every byte sequence and configuration",
     "Panics hide behind truncated escapes, odd lengths and positions at the end of the input; the tests do not enumerate them.",
     [P, S, E], [("Tokenizer", P), ("Parser", P), ("ByteIterator", P)])

prop("C13", "Decoding a string gives the characters its JSON form denotes",
     "decoded(), and displaying a string or its decoded form, produce exactly the characters RFC 8259 assigns to the string's JSON form (or the text itself for a raw string): every escape, every \\u form and surrogate pair, nothing dropped, added or reordered. A failing writer stops the output and is reported.",
     ["inputs", "fault_sequences"], "every valid JSON string and every text, every representation and storage",
     "The space of escapes, code points and surrogate pairs is far larger than the samples; a wrong bit shows only in some planes.",
     [S], [("Decoded::next", S), ("merge_surrogate_pair", S), ("Display for JsonString", S)])
prop("C14", "The JSON form of a string is valid and denotes the same characters",
     "as_json(), and displaying it, produce a valid JSON string body that decodes to exactly the characters of the string, whatever they are; a string already in JSON form is reproduced unchanged. A failing writer stops the output and is reported.",
     ["inputs", "fault_sequences"], "every text and every valid JSON string, every representation and storage",
     "Each class of characters has its own branch and a state machine emits the pieces; tests try a few characters of each.",
     [S], [("AsJson::next", S), ("Display for AsJson", S)])
prop("C18", "A string's lengths and flags describe it exactly",
     "For every string, len() is the byte length of its JSON form, decoded_len() that of its decoded form, is_empty() says whether it is empty, and as_str()/as_json_str() return the text exactly when the text is already the decoded/JSON form. A string made from any text reports these for that text.",
     ["inputs"], "every text, every representation and storage",
     "The lengths are computed by a separate scan from the one that escapes, and are trusted by comparisons and allocations.",
     [S], [("From<&str> for JsonString", S), ("JsonString::len", S), ("JsonString::decoded_len", S), ("JsonStringInfo", S)])
prop("C19", "Size hints of the string iterators are honest",
     "At every point of iterating over decoded() or as_json(), the number of characters still to come lies within size_hint().",
     ["inputs", "histories"], "every text, every representation, after any number of steps",
     "Collecting trusts size_hint(); a bound is wrong only at particular points of particular escapes.",
     [S], [("Decoded::size_hint", S), ("AsJson::size_hint", S)])
prop("C15", "Strings are equal exactly when they denote the same text",
     "Comparing two JSON strings, or a JSON string with a str, for equality or inequality depends only on the decoded texts: they are equal exactly when all characters and the length agree, whichever way each string is represented (JSON with escapes, JSON without, raw; borrowed or owned).",
     ["inputs"], "every pair of texts and every pair of representations of them",
     "Each pair of representations has its own branch with its own shortcut on lengths; a shortcut on the wrong length only fails for particular escapes.",
     [S, A], [("PartialEq for JsonString", S), ("PartialEq<str> for JsonString", S)])
prop("C16", "Strings are ordered by the text they denote",
     "cmp and partial_cmp of JSON strings, with each other or with a str, give the order of the decoded texts by code point, whichever way each string is represented; the order therefore agrees with equality.",
     ["inputs"], "every pair of texts and every pair of representations of them",
     "The order must be a total order consistent across representations; swapped operands or undecoded comparisons show only for particular pairs.",
     [S, A], [("Ord for JsonString", S), ("PartialOrd<str> for JsonString", S)])
prop("C17", "A string's hash depends only on the text it denotes",
     "Hashing a JSON string feeds the hasher the UTF-8 bytes of the decoded text followed by the terminator that hashing a str writes, whichever way the string is represented. Equal strings therefore hash alike in every hasher that looks at the bytes only, not at how they are split over calls.",
     ["inputs"], "every text and every representation of it",
     "Tests hash a few samples; a character class that is fed differently breaks hash maps silently.",
     [S, A], [("Hash for JsonString", S)])
prop("C20", "Conversions on demand give the right text and copy only when needed",
     "decode_if_needed() returns the decoded text and escape_if_needed() the JSON form of every string; when the representation already is the wanted one the text is handed back as it is, borrowed if it was borrowed.",
     ["inputs"], "every text, every representation and storage",
     "The shortcut and the conversion are separate paths chosen by flags computed elsewhere.",
     [S, A], [("JsonString::decode_if_needed", S), ("JsonString::escape_if_needed", S)])

T_UNIT = "abstract interpretation of MIR against contracts of functions"
prop("C21", "A parsed value is the tree of its document",
     "Value::from_json and its variants return, for every accepted text, the value whose scalars, members and elements are those of the text, all of them and in their order, with duplicate keys kept; and for every refused text the parser's own error. The input, whether it is known to be UTF-8, and the configuration are handed to the parser as they were given; without a configuration the default one is used.",
     ["inputs"], "every text, every configuration, every nesting",
     "Assembling a tree depends on which value goes into which container after any nesting; tests compare a handful of trees.",
     [V, P], [("impl ParseDelegate for ValueParser", V), ("Value::from_json*", V)], technique=T_UNIT)
prop("C22", "A document lists the nodes of its text with the right lengths",
     "Document::from_json and its variants record one node per scalar, key and container in document order, every container with the number of its members, whatever the nesting; with a fixed capacity, a text needing more nodes is refused with its own error and nothing is lost silently. Errors keep their kind and offset. The input and configuration are handed to the parser as given.",
     ["inputs", "fault_sequences"], "every text, every configuration, every capacity of the node store",
     "The length of a container is patched in after its members were recorded behind it; running out of capacity can happen at every single node.",
     [D, E], [("impl ParseDelegate for &mut Nodes", D), ("Document::from_json*", D), ("Error::into_infallable/into_fallable", E)], technique=T_UNIT)

prop("C12", "Strings and numbers are only read from texts of their own kind",
     "JsonString::from_json and JsonNumber::from_json succeed exactly for texts whose root is a string, respectively a number, and give that very string or number; every other event of the text is refused with an error of its own.",
     ["inputs"], "every text, every configuration",
     "Each kind of event has its own callback, and a wrong kind can first show up behind a nested container; tests try one or two.",
     [S, N], [("impl ParseDelegate for JsonStringParser/JsonNumberParser", S), ("JsonString::from_json", S), ("JsonNumber::from_json", N)], technique=T_UNIT)
prop("C23", "Looking a key up finds the first entry whose key is equal",
     "Every way of looking a key up in an object, or in a value that is one, gives the entry (or its value) at the first place whose key equals the text asked for, wherever it is and however many entries and duplicates there are; nothing is found only when no key is equal or the value is not an object; indexing panics exactly then.",
     ["inputs"], "every object of any number of entries, every pattern of equal keys, every text asked for",
     "The search runs over any number of entries with duplicates in any place; tests use objects of two or three distinct keys.",
     [V], [("Object::get/get_mut/get_entry_mut", V), ("Value::get/get_mut", V), ("impl Index/IndexMut for Value", V)], technique=T_UNIT)
prop("C24", "Accessors of a value give exactly its contents",
     "Each accessor of a value gives the contents if and only if the value is of the kind asked for: the very object, array, string, boolean or element it holds and never another or a copy; arrays are indexed within their bounds exactly; conversions into values and entries keep what they are given unchanged.",
     ["inputs"], "every value, every index, every argument",
     "An accessor that gives the wrong answer for one kind of value, or at the end of an array, escapes tests that only try the matching kind.",
     [V], [("Value::as_*", V), ("Value::get_index", V), ("impl Index for Value", V), ("impl From for Value", V), ("Object", V)], technique=T_UNIT)
prop("C25", "Numbers convert only when their text is a number of the type asked for",
     "Every numeric accessor of a number and of a value, for each of the fourteen primitive types, gives exactly what parsing the number's source text as that type gives, and nothing when that fails: no truncation, wrapping, sign change or detour over a narrower or less precise type.",
     ["inputs"], "every number text, each of the primitive integer and floating point types",
     "Wrong answers appear only outside the range of an intermediate type or past its precision; tests use small numbers.",
     [N, V], [("JsonNumber::as_*/parse", N), ("Value::as_*", V)], technique=T_UNIT)
prop("C26", "Text behaves the same whether it is borrowed or owned",
     "Text held by a value has the contents it was made from, whichever storage it is in; equality, order and hash depend on the contents alone and are those of str, so that Hash and Borrow agree.",
     ["inputs"], "both storages on either side, every pair of texts",
     "The combinations of storages on both sides are many and tests compare few of them.",
     [A, N], [("AnyStr", A), ("impl PartialEq/PartialOrd/Ord/Hash/Borrow for AnyStr", A)], technique=T_UNIT)
prop("C27", "Configurations and errors report what they were given",
     "Each step of building a configuration changes its own setting to what was asked for and leaves the others alone, whatever they are; the defaults are the documented ones; an error gives back the very offset and kind it was made with.",
     ["configurations"], "every configuration any sequence of builder steps produces",
     "A builder step that resets another setting only shows when the steps are combined in one order.",
     [P, E], [("ParseConfig", P), ("Error::offset/kind", E)], technique=T_UNIT)

prop("C28", "A document is read back value by value",
     "Iterating a parsed document gives its nodes in order; reading the next value builds exactly the value the nodes describe, nested containers included, and passes over exactly its nodes; skipping passes over exactly the same nodes; turning the whole document into a Value gives the value its nodes describe. At the end nothing is read.",
     ["inputs", "histories"], "every document a parse can produce, read from any position where a value begins",
     "A miscount only shows for particular nestings, and only in what is read afterwards.",
     [D], [("DocumentIter::next_value/skip_next_value", D), ("From<GenericDocument> for Value", D), ("hydrate_value_from_node", D)], technique=T_UNIT)

prop("C29", "A value is written as exactly its JSON, compact or indented",
     "Writing a Value (to_json, to_json_pretty, to_json_pretty_custom, write_json_to, pretty_write_json_to, pretty_write_json_to_custom and Display, plain and alternate) produces exactly its members in order with the punctuation of JSON: "
     "numbers by their source, strings as their quoted JSON form, no trailing or missing comma, brackets matched. The compact layout has no white space; the indented layout puts every member and every closing bracket of a non-empty container on a line of its own, "
     "indented by the given unit once per enclosing container, a space after each colon, and nothing between the brackets of an empty container. An error of the writer ends the writing and is returned.",
     ["inputs", "fault_sequences"], "every value (any width and nesting), any indentation and line ending, a write failure at any point",
     "Layout mistakes show only at particular widths, depths or mixes of empty and non-empty containers; failures only at particular writes.",
     [V], [("Value::write_json*", V), ("WriteState", V), ("Display for Value", V)], technique=T_UNIT)

prop("C30", "An object built from an iterator has the iterator's items",
     "Collecting key-value pairs or entries into an Object keeps every item the iterator gives, in the order in which it gives them, whatever their keys and values are (repeated and empty keys, null values, neighbours with the same key) and whatever "
     "size the iterator announces; nothing is added, merged, replaced, reordered or left out.",
     ["inputs", "histories"], "every iterator: any number of items, any keys and values, any size hint",
     "Losing or merging an item only shows for particular combinations of keys; tests collect one or two distinct ones.",
     [V], [("FromIterator<(JsonString, Value)> for Object", V), ("FromIterator<Entry> for Object", V)], technique=T_UNIT)

prop("C31", "Values are equal exactly when they are the same tree",
     "Two values are equal if and only if they are of the same kind and their contents are: booleans and numbers the same, strings equal, arrays of the same length with equal elements at every index, objects with as many entries, equal keys and "
     "equal values at every index (the order of entries counts, repeated keys included).",
     ["inputs"], "every pair of values, of any width and nesting",
     "A member left out of the comparison, a missing comparison of lengths or a difference in order only shows for pairs chosen to differ just there.",
     [V], [("PartialEq for Value", V), ("PartialEq for Object", V), ("PartialEq for Entry", V)], technique=T_UNIT)
prop("C32", "An error names what is wrong with the text",
     "The kind of a parse error names the first thing wrong with the text. From the tokenizer: InvalidEscape, InvalidHexadecimal, ExpectedDigit, ExpectedDecimalDigit, ExpectedExponent and Unexpected are reported for, and with the offset of, the first byte "
     "that cannot stand there (Unexpected carries that byte); Utf8 for invalid UTF-8 and unpaired surrogates; UnclosedString and UnexpectedEof only at the end of the input and with its length as offset. From the parser: an error of the tokenizer is passed on, except that "
     "whatever stands in the place of a colon gives ExpectedColon and that an unexpected end inside a container gives UnclosedObject or UnclosedArray, whichever container is innermost; IllegalTrailingComma is reported for a closing bracket after a comma, "
     "ObjectKeysMustBeStrings for another value in the place of a key and ExpectedObjectKey for any other token there, ExpectedCommaOrEndOfObject and ExpectedCommaOrEndOfArray after a member of such a container, Unexpected with its byte for punctuation in the "
     "place of a value, TrailingNonWhitespace for anything after a complete document.",
     ["inputs", "configurations"], "every malformed or truncated input, every configuration",
     "Tests try one or two inputs per kind; which kind is reported depends on the place in the grammar, on the innermost container and on where the input ends.",
     [P, E], [("Tokenizer::next_or_eof", P), ("Parser::read_tokens", P), ("Parser::read_object", P), ("Parser::read_array", P)])

NA = {}


def main():
    import sys
    sys.path.insert(0, ROOT)
    from jj import props as pr
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in NA:
            continue
        assert p["id"] in pr.PROPS, p["id"]
        checks.append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_t"], "level": "other", "level_note": p["_n"]})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "All checks are one engine: ./check ID dumps the MIR of harness/ (which depends on /repo) with driver/jjdump and analyses it. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), ps)
    print(len(PROPS), "properties,", len(checks), "checks")


main()
