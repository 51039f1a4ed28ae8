"""Which analyses decide which property."""
import json
import os
import re

from . import jobs as J

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "rustc's MIR of the monomorphised harness roots (public API of /repo, features std+alloc+heapless) is the program; code behind other feature sets is not analysed",
    "standard-library functions without a body in the dump behave as modelled in jj/builtins.py",
    "inputs are at most isize::MAX bytes long (a language guarantee) and allocation does not fail",
]


class Prop:
    def __init__(self, jobs, how, thorough=(), floors=None, assumptions=()):
        self.jobmap = dict(jobs)
        self.jobs = list(self.jobmap)
        self.thorough = dict(thorough)
        self.how = how
        self.floors = floors or {}
        self.assumptions = list(assumptions)

    def keys_for(self, names):
        return [self.jobmap.get(n) or self.thorough.get(n) for n in names]


PROPS = {}


def known_findings():
    out = set()
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) ", line)
            if m:
                out.add((m.group(1), m.group(2)))
    return out


AI = ("Whole-program abstract interpretation of the monomorphised MIR in product with a specification automaton, to a fixpoint at every loop head "
      "(byte value sets, anchor-relative affine numbers). ")


def both(keys):
    return {"tok.bytes": keys, "tok.str": keys}


PROPS["C03"] = Prop(both(r"(kind|consumed|bool|number-source|string-|end|accept|reject)"),
                    AI + "Every history of next/next_or_eof/peek on a Tokenizer, over every input, is explored; the RFC 8259 lexer run on the bytes the code looked at predicts each token, its extent, its contents and its decoded length.",
                    floors={"tok.bytes": 500, "tok.str": 500})
PROPS["C02"] = Prop({**both(r"(unchecked-|accept:Str:surrogate)"), "str.decode": r"unchecked-"},
                    AI + "Every unchecked UTF-8 and char conversion reached from the tokenizer is an obligation: the bytes lie between boundaries of the UTF-8 automaton, the scalar value is one; escapes that are accepted are those whose decoding (which does not check again) is one.",
                    floors={"tok.bytes": 4})
PROPS["C11"] = Prop(both(r"(peek|offset|end)"),
                    AI + "In every history of next/next_or_eof/peek: peek names the kind of the token that follows, consumes at most white space, and the end is reported only at the end.",
                    floors={"tok.bytes/peek": 50})
PARSER = ("Abstract interpretation of the parser's monomorphised MIR, one abstract context per recursive call, in product with the RFC 8259 grammar driving an opaque delegate; "
          "tokens are summarised by the contract the tok.* analyses establish (run in this check where the property needs it); every configuration (limit any number or none, trailing commas, root types) and both input kinds. ")


def parser(keys, validate=None, tok=None):
    m = {n: keys for n in J.PARSE}
    if validate is not False:
        m.update({n: validate or keys for n in J.VALIDATE})
    if tok:
        m.update(both(tok))
    return m


PROPS["C01"] = Prop(parser(r"(ok:|reject:|event:.*:(dead|eof)|unverified|bool)", tok=r"(accept|reject|kind|consumed|end|string-)"),
                    PARSER + "Success is returned exactly for the texts the grammar (with the configured extensions) accepts.",
                    floors={"parse.bytes/": 20, "tok.bytes": 100})
PROPS["C04"] = Prop(parser(r"(event:|object:|key|value|payload:|bool|result|kind:|unverified)", tok=r"(kind|bool|number-source|string-)"),
                    PARSER + "Each delegate call is the one that is due, with the token's contents and the values the delegate itself returned.",
                    floors={"parse.bytes/event": 20})
PROPS["C05"] = Prop(parser(r"(delegate-error|fail-kept|event:.*:fail|ok:fail)", validate=False),
                    PARSER + "Every delegate call may fail; after that no delegate call follows and its very error value is what the parser returns.",
                    floors={"parse.bytes/": 4})
PROPS["C06"] = Prop(parser(r"(limit-|event:.*:limit|ok:limit|reject:RecursionLimitReached|event:begin)"),
                    PARSER + "The remaining depth is a symbolic number in the program and in the specification; the error is raised exactly when an opening bracket is read and none remains.",
                    floors={"parse.bytes.cfg.limit": 4})
PROPS["C07"] = Prop(parser(r"(ok:|reject:|event:end_)"),
                    PARSER + "A comma before the closing bracket is accepted exactly when the option is on, a lone comma never.",
                    floors={"parse.bytes.cfg": 10})
PROPS["C08"] = Prop(parser(r"(root-type|ok:|reject:)"),
                    PARSER + "Scalars at the root are refused with their own error kind exactly when the configuration says so.",
                    floors={"parse.bytes.cfg": 10})
PROPS["C09"] = Prop(parser(r"panic:", tok=r"panic:"),
                    PARSER + "Every reachable panic (overflow, index, slice boundary, unreachable, unwrap) is an obligation.",
                    floors={"tok.bytes/panic": 100, "parse.bytes/panic": 20})
PROPS["C10"] = Prop(parser(r"error-offset", tok=r"(offset|error-offset)"),
                    AI + "Every error offset and every offset() is compared with the length of the input by affine bounds.",
                    floors={"tok.bytes/error-offset": 20, "parse.bytes/error-offset": 10})

STRINGS = ("Abstract interpretation of the MIR over a symbolic text, read character by character in product with a transducer for JSON string bodies, to a fixpoint in any position of the text; "
           "each representation of a JsonString (JSON with escapes, JSON without, raw) and both storages. ")
PROPS["C13"] = Prop({"str.decode": r"(decode|whole|panic|write|unchecked)"},
                    STRINGS + "Every character decoded() and Display produce is compared with the value the transducer assigns to the source (numbers symbolic, so all code points and surrogate pairs at once); none is missing or extra; failing writers are reported.",
                    floors={"str.decode/decode-char": 50, "str.decode/decode-short": 4})
PROPS["C14"] = Prop({"str.escape": r"(escape|whole|panic|write)"},
                    STRINGS + "Every character as_json() and its Display produce is fed to the transducer: the output is a valid string body and decodes to the source's characters, one for one.",
                    floors={"str.escape/escape-char": 50, "str.escape/escape-short": 4})
PROPS["C18"] = Prop({"str.from": r"(from|panic)", "str.acc": r"."},
                    STRINGS + "A string made from a text is examined to its end; what it then says about itself (length of its JSON form, decoded length, emptiness, whether the text is its own JSON form) is compared with the per-character lengths established by the escape analysis; the accessors of every representation likewise.",
                    floors={"str.from/from-len": 2, "str.acc/len": 3})
PROPS["C19"] = Prop({"str.hint": r"size-hint"},
                    STRINGS + "After any number of steps from any position the bounds of size_hint() are compared, as affine inequalities over what is left of the text, with the fewest and most characters that can still come.",
                    floors={"str.hint/size-hint-lower": 5, "str.hint/size-hint-upper": 5})

PAIRS = ("Abstract interpretation of the MIR over two operands given by their common decoded prefix (one symbolic text of any length) and by how they go on after it "
         "(both end, one ends, next characters differ either way); every pair of representations and storages; Decoded::next is summarised by what C13 establishes. ")
PROPS["C15"] = Prop({"str.eq": r"(eq|undecoded|panic)"}, PAIRS + "The result of == and != is compared with the equality of the decoded texts.",
                    floors={"str.eq/eq:esc/esc": 5, "str.eq/eq:raw/plain": 5, "str.eq/eq:esc/str": 5})
PROPS["C16"] = Prop({"str.cmp": r"(cmp|undecoded|panic)"}, PAIRS + "The result of cmp and partial_cmp is compared with the order of the decoded texts.",
                    floors={"str.cmp/cmp:esc/esc": 5, "str.cmp/cmp:raw/plain": 5, "str.cmp/cmp:esc/str": 5})
PROPS["C17"] = Prop({"str.hash": r"(hash|undecoded|panic)"},
                    STRINGS + "Every byte sequence handed to the hasher is compared with the UTF-8 form of the decoded text followed by the terminator str's own hash writes; Decoded::next is summarised by what C13 establishes.",
                    floors={"str.hash/hash-order": 4, "str.hash/hash-end": 4})
PROPS["C20"] = Prop({"str.need": r"(decode|escape|whole|copied|panic|unchecked)"},
                    STRINGS + "The string built (or the text handed back) is compared character by character with the decoded or JSON form; a text that needs neither is handed back without a copy.",
                    floors={"str.need/decode-char": 10, "str.need/escape-char": 5, "str.need/whole-text": 8})

UNITS = ("Abstract interpretation of the MIR of the single function called with arbitrary arguments of its types (containers hold any number of unknown elements); every outcome is compared, "
         "constituent by constituent, with its contract. ")
PROPS["C21"] = Prop({"val.delegate": r".", "val.entry": r"."},
                    UNITS + "The delegate methods found by reachability from Value::from_json*: each gives exactly the value of its event, members and elements are appended at the end and nothing else changes; the entry points hand their input, configuration and outcome through unchanged.",
                    floors={"val.delegate/value": 20, "val.entry/entry": 20})
PROPS["C22"] = Prop({"doc.delegate": r".", "doc.entry": r"."},
                    UNITS + "The delegate methods found by reachability from Document::from_json* and heapless::Document: each records exactly the node of its event at the end, container nodes end up with their member count, emptiness and kinds are those of the node, and a full store is refused with its own error.",
                    floors={"doc.delegate/node": 60, "doc.entry/entry": 100})
PROPS["C12"] = Prop({"only.delegate": r".", "only.entry": r"."},
                    UNITS + "Every delegate method of the string and the number reader, for every kind of event: only the reader's own kind is kept, as it is; the others give that kind's error.",
                    floors={"only.delegate/only": 12, "only.entry/entry": 100})
PROPS["C23"] = Prop({"obj.lookup": r"."},
                    UNITS + "The entries are an abstract sequence of unknown length read to a fixpoint; each comparison of an entry's key with the text asked for goes either way; what is returned is compared with the first entry that was found equal.",
                    floors={"obj.lookup/lookup": 20})
PROPS["C24"] = Prop({"access.values": r"."}, UNITS + "The result is compared, by identity of the place it refers to, with the contents of the value, for each variant of the value.",
                    floors={"access.values/access": 60})
PROPS["C25"] = Prop({"access.numbers": r"."}, UNITS + "FromStr of the primitive types is symbolic: which text is parsed as which type, and what becomes of its result, is compared with the accessor's type.",
                    floors={"access.numbers/access": 50})
PROPS["C26"] = Prop({"access.texts": r"."}, UNITS + "str's own comparison and hashing are symbolic: the texts they are given, on either side and in either storage, and what becomes of their result are compared with the operands.",
                    floors={"access.texts/access": 15})
PROPS["C27"] = Prop({"access.config": r"."}, UNITS + "Every field of the result is compared with what the step asks for or with the argument's own field.",
                    floors={"access.config/access": 9})
PROPS["C28"] = Prop({"doc.read": r"."},
                    UNITS + "The nodes are an abstract sequence of unknown length, read in product with the grammar of documents (a container node announces its number of members), recursion by one abstract context per call; "
                    "members left to come are counted symbolically in the code and in the grammar.",
                    floors={"doc.read/doc": 15})
PROPS["C29"] = Prop({"val.write": r"."},
                    UNITS + "Every piece given to the writer (a constant text, a number's source, the JSON form of a string, an indentation unit or line ending) is the one the grammar of the layout has due for the value being written; "
                    "the value is an abstract tree, its sequences of unknown length, recursion one abstract context per depth class; indentation is counted symbolically against the number of enclosing containers. "
                    "Every write may fail, and then nothing more may be written and the error must be returned.",
                    floors={"val.write/write": 3000})
PROPS["C30"] = Prop({"obj.collect": r"."},
                    UNITS + "The iterator is opaque: at every request it gives an arbitrary item or ends, and its size hint is arbitrary. Every entry added to the object's vector is compared with the oldest item given and not yet added; "
                    "at the return the iterator must have ended and nothing may be left over. Looking through what was added so far yields arbitrary entries.",
                    floors={"obj.collect/collect": 6})
PROPS["C31"] = Prop({"val.equal": r"."},
                    UNITS + "Two arbitrary values (or objects) are compared; the outcome of comparing the k-th members (a key, a value, a string, a number) is arbitrary but the same each time, and equal members are counted from the first on, "
                    "however many there are; lengths may differ either way. The answer must be what lengths, kinds and members make it. "
                    "Containers of up to three members are also analysed with every pattern of equal members (an equivalence decided lazily, pair by pair), whatever the order they are compared in.",
                    floors={"val.equal/equal": 40, "val.equal/small": 20})

PROPS["C32"] = Prop(parser(r"error-kind", tok=r"error-(kind|place|byte)"),
                    PARSER + "When the input dies the lexer or grammar automaton knows why: the first byte that fits nowhere, the token that is not due there, the innermost open container. The kind of the error returned, its byte and (for the tokenizer) its offset must be those.",
                    floors={"tok.bytes/error-kind": 100, "tok.bytes/error-place": 100, "parse.bytes/error-kind": 20})
