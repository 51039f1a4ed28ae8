"""Specification of tokenisation, run in product with the code."""
from ..spec import Spec
from ..engine import Fork, Stop, Unknown, Text, UNIT
from ..lin import add
from ..builtins import deref
from .. import lexmon as X
from ..anchor import Group

IN = ("in",)


class Lexing(Spec):
    """Keeps the RFC 8259 lexer in step with the bytes the code has looked at."""

    def __init__(self, strmode, lite=False):
        self.strmode = strmode
        self.lite = lite

    # ------------------------------------------------------------ set-up
    def input(self, eng, st):
        ln = eng.param(st, name="len")
        u = not self.tokens
        t = Text("b", ln, 0, X.Utf8Gen() if self.strmode and u else None, X.Utf8Mon() if not self.strmode and u else None)
        st.texts[IN] = t
        # first byte of the latest run of non-ASCII bytes inside a string
        st.gh["run"] = ("N", 0)
        self.reset(st)
        st.gh["q"] = ("L", ())
        return ("S", IN, 0, ln)

    def reset(self, st):
        st.gh["lex"] = ("T", X.WSS)
        st.gh["start"] = ("N", 0)
        st.gh["n"] = ("N", 0)
        if st.gh.get("inrun", ("T", 0))[1] != 3:
            st.gh["inrun"] = ("T", 0)
            st.gh["run"] = ("N", 0)
            st.gh["nr"] = ("N", 0)

    def marks(self, eng, st, tid):
        if tid != IN:
            return ()
        s = st.gh["start"][1]
        out = [(s, (0, 0)), (add(s, 1), (0, 0)), (st.gh["run"][1], (0, 0))]
        for tk in st.gh["q"][1]:
            s, e = tk[2][1][1], tk[2][2][1]
            out += [(s, (0, 0)), (add(s, 1), (0, 0)), (e, (0, 0))]
        return out

    anchored = True
    tokens = False

    def anchors(self, eng, st):
        lex = st.gh["lex"][1]
        if lex[0] in ("e", "h"):
            return None
        if st.gh["inrun"][1] == 3:
            st.gh["inrun"] = ("T", 0)
            st.gh["run"] = ("N", 0)
            st.gh["nr"] = ("N", 0)
        segs = []
        derived = []
        for tk in st.gh["q"][1]:
            s, e = tk[2][1][1], tk[2][2][1]
            segs += [(s, (tk[2][3][1], 2) if tk[2][0] == "Str" else None), (e, None)]
        if lex[0] == "bad" and st.gh["inrun"][1] != 2:
            st.gh["n"] = ("N", 0)
            segs += self.died(eng, st)
        elif lex != X.WSS:
            n = st.gh["n"][1]
            if st.gh["inrun"][1]:
                segs.append((st.gh["start"][1], (st.gh["nr"][1], 1)))
                segs.append((st.gh["run"][1], None))
                if lex[0] == "s":
                    derived.append((n, -1, len(segs) - 1))
            else:
                segs.append((st.gh["start"][1], (n, 1) if lex[0] == "s" else None))
        return [Group(IN, segs, derived, 5 if lex[0] == 'l' else 1)]

    # ------------------------------------------------------------ transducer
    def on_cell(self, eng, st, tid, pos, v, width):
        if tid != IN:
            return
        lex = st.gh["lex"][1]
        steps = []
        while True:
            cl = X.lex_cached(lex, self.strmode, self.lite)
            i = X.choose(eng, st, v, cl)
            d, nx, act = cl[i]
            steps.append((lex, nx, act))
            lex = nx
            if act != ("over",):
                break
        # decided: commit
        if not self.strmode and st.gh["inrun"][1] != 2:
            first = steps[0]
            if first[0][0] == "s" and first[1][0] != "bad":
                lo, hi = st.rng(v)
                if lo >= 0x80:
                    if first[0][2] == 0 and st.gh["inrun"][1] in (0, 3):
                        st.gh["run"] = ("P", pos)
                        st.gh["nr"] = st.gh["n"]
                        st.gh["inrun"] = ("T", 1)
                elif st.gh["inrun"][1] == 1:
                    st.gh["inrun"] = ("T", 3)
                else:
                    st.gh["inrun"] = ("T", 0)
                    st.gh["run"] = ("N", 0)
                    st.gh["nr"] = ("N", 0)
            elif first[0][0] == "s":
                if st.gh["inrun"][1] in (0, 3):
                    st.gh["run"] = ("P", pos)
                    st.gh["nr"] = st.gh["n"]
                st.gh["inrun"] = ("T", 2)
                st.gh["n"] = ("N", 0)
        for lex, nx, act in steps:
            if act is None:
                pass
            elif act[0] == "over":
                self.emit(eng, st, "Num", st.gh["start"][1], pos, 0, 0)
                self.reset(st)
            elif act[0] == "count":
                st.gh["n"] = ("N", st.norm(add(st.gh["n"][1], act[1])))
            elif act[0] == "start":
                st.gh["start"] = ("P", pos)
                st.gh["n"] = ("N", 0)
                self.begin(eng, st, act[1], pos)
            elif act[0] == "tok":
                if act[1] in X.PUNCT.values():
                    self.emit(eng, st, act[1], pos, add(pos, 1), 0, 0)
                else:
                    E = lex[1] if lex[0] == "s" else 0
                    self.emit(eng, st, act[1], st.gh["start"][1], add(pos, 1), st.gh["n"][1], E)
                self.reset(st)
            if nx[0] == "bad" and lex[0] != "bad":
                self.bad(eng, st, pos)
                self.fault(eng, st, lex, nx, pos, v)
            st.gh["lex"] = ("T", nx)

    def begin(self, eng, st, kind, pos):
        pass

    def bad(self, eng, st, pos):
        if st.gh["start"][1] == 0:
            st.gh["start"] = ("P", pos)

    def fault(self, eng, st, lex, nx, pos, v):
        """The first byte that no valid text has at this place."""

    def died(self, eng, st):
        st.gh["start"] = ("N", 0)
        return []

    def emit(self, eng, st, kind, start, end, n, E):
        """A token is complete."""
        st.gh["q"] = ("L", st.gh["q"][1] + (("A", 0, (kind, ("P", start), ("P", end), ("N", n), E)),))

    def eof(self, eng, st):
        t = st.texts[IN]
        return st.need_is0(add(t.len, eng.text_end(t), -1))

    def settle(self, eng, st):
        """At an observation: a number that reaches the end of the input is complete."""
        lex = st.gh["lex"][1]
        if lex[0] == "n" and lex[1] in X.NUM_ACC and self.eof(eng, st):
            t = st.texts[IN]
            self.emit(eng, st, "Num", st.gh["start"][1], t.len, 0, 0)
            self.reset(st)

    # ------------------------------------------------------------ language facts
    def from_utf8(self, eng, st, s):
        if s[1] != IN:
            return None
        if self.strmode:
            return self.bound(eng, st, s)
        a = eng.mark_at(st, IN, s[2])
        b = eng.mark_at(st, IN, s[3])
        if a is None or b is None or a[1] != 0:
            if eng.tracing: print("FU8", a, b, s, st.gh, st.texts[IN].fpos, st.texts[IN].cells, st.facts)
            return None
        return b[1] == 0

    def bound(self, eng, st, s):
        i = 0 if self.strmode else 1
        a = eng.mark_at(st, IN, s[2])
        b = eng.mark_at(st, IN, s[3])
        if a is None or b is None:
            if eng.tracing: print("FU8", a, b, s, st.gh, st.texts[IN].fpos, st.texts[IN].cells, st.facts)
            return None
        return a[i] == 0 and b[i] == 0

    def on_unchecked(self, eng, st, what, v):
        w = eng.where(st)
        if what == "utf8":
            if v[1] == IN:
                eng.require(st, self.bound(eng, st, v), "unchecked-utf8:" + w[0],
                            "a &str is made without a check from bytes that are not UTF-8, in %s (%s)" % w)
            elif v[1][0] == "k":
                pass
            else:
                eng.undecide("from_utf8_unchecked of another text in %s (%s)" % w)
        else:
            eng.violation(st, "unchecked-%s:%s" % (what, w[0]), "unchecked %s conversion of an invalid value in %s (%s)" % (what, w[0], w[1]))


def variant(eng, ty, v):
    return eng.tys[ty].d["variants"][v[1]]["name"]


def cause(lex, nx, lo):
    """The kinds of error that name a byte which is wrong in this state of the lexer."""
    k = lex[0]
    if k == "n":
        return ({"-": "ExpectedDigit", ".": "ExpectedDecimalDigit", "e": "ExpectedExponent", "E": "ExpectedExponent"}[lex[1]],)
    if k == "e":
        return ("InvalidEscape",)
    if k == "h":
        if nx[1]:
            return ("InvalidHexadecimal", "UnexpectedEof", "Utf8")     # half of a surrogate pair: noticed once it has been read
        return ("Utf8",) if lex[1] in ("hi\\", "hiu") else ("InvalidHexadecimal",)
    if k == "s" and (lo >= 0x80 or lex[2]):
        return ("Utf8",)
    return ("Unexpected",)


class TokSpec(Lexing):
    max_steps = 40_000_000
    time_limit = 480
    """Histories of next / next_or_eof / peek on one tokenizer."""

    def intercept(self, eng, st, inst, a):
        d = inst.dfn
        if not d.startswith("jj_roots::obs::ev_"):
            return None
        n = d.rsplit("::", 1)[1]
        if n == "ev_choose":
            return eng.newsym(st, ((0, 2),), "c")
        if n == "ev_tok":
            return self.ev_tok(eng, st, inst, a)
        if n == "ev_peek":
            return self.ev_peek(eng, st, inst, a)

    def ev_peek(self, eng, st, inst, a):
        eng.monitor(st, IN)
        v = eng.force(st, a[1])
        lex = st.gh["lex"][1]
        q = st.gh["q"][1]
        t = st.texts[IN]
        eng.require_ge(st, t.len, eng.num(st, a[0]), "offset", "offset() is beyond the input after peek()")
        if v[1] == 0:
            got = None
        else:
            got = variant(eng, eng.field_ty(inst.params[1], 1, 0), eng.force(st, v[2][0]))
        if q:
            k = q[0][2][0]
            exp = {"Obj": "Object", "ObjEnd": "ObjectEnd", "Arr": "Array", "ArrEnd": "ArrayEnd", "Str": "String", "Num": "Number",
                   "true": "True", "false": "False", "null": "Null"}.get(k, k)
        elif lex[0] in ("s", "e", "h"):
            exp = "String"
        elif lex[0] == "n":
            exp = "Number"
        elif lex[0] == "l":
            exp = {"true": "True", "false": "False", "null": "Null"}[lex[1]]
        elif lex[0] == "bad":
            exp = "Unrecognized"
        else:
            eng.require(st, got is None, "peek-none", "peek() returned %s before any non-whitespace byte" % got)
            if got is None:
                eng.require(st, self.eof(eng, st), "peek-none", "peek() returned None before the end of the input")
            return UNIT
        eng.require(st, got == exp, "peek:%s" % exp, "peek() returned %s before a %s token" % (got, exp))
        return UNIT

    def ev_tok(self, eng, st, inst, a):
        eng.monitor(st, IN)
        self.settle(eng, st)
        how = {0: "next", 1: "next_or_eof"}[eng.num(st, a[0])]
        off = eng.num(st, a[1])
        o = eng.force(st, a[2])
        oty = inst.params[2]
        kind = variant(eng, oty, o)
        q = st.gh["q"][1]
        lex = st.gh["lex"][1]
        t = st.texts[IN]
        eof = self.eof(eng, st)
        eng.require_ge(st, t.len, off, "offset", "offset() is beyond the input after %s" % how)
        if kind == "End":
            return int(eng.require(st, eof and not q and lex == X.WSS and how == "next", "end", "%s returned the end of input early" % how))
        if kind == "Err":
            if q:
                eng.violation(st, "reject:%s" % q[0][2][0], "%s rejected a valid %s token" % (how, q[0][2][0]))
                return 0
            okay = lex[0] == "bad" or (eof and (lex != X.WSS or how == "next_or_eof"))
            eng.require(st, okay, "reject", "%s failed although the input so far is the prefix of a token (lexer state %s)" % (how, lex))
            eng.require_ge(st, t.len, eng.num(st, o[2][0]), "error-offset", "error offset beyond the input")
            if okay:
                self.named(eng, st, eng.num(st, o[2][0]), eng.rv(st, o[2][1]), eng.field_ty(oty, o[1], 1), lex, eof)
                return self.resume(eng, st, off)
            return 0
        if not q:
            why = st.gh["why"][1]
            # contents whose decoding converts to a character without a check
            later = "surrogate" if kind == "Str" and lex[0] == "bad" and why and why[0][0] == "h" else lex[0]
            eng.violation(st, "accept:%s:%s" % (kind, later), "%s returned a %s token for bytes that are not one (lexer state %s, %s)" % (how, kind, lex, "end of input" if eof else "more input"))
            return 0
        tk = q[0][2]
        exp = {"true": "Bool", "false": "Bool", "null": "Null"}.get(tk[0], tk[0])
        if not eng.require(st, kind == exp, "kind:%s" % exp, "%s returned a %s token for a %s" % (how, kind, tk[0])):
            st.gh["q"] = ("L", q[1:])
            return 0
        start, end, n, E = tk[1][1], tk[2][1], tk[3][1], tk[4]
        eng.require_eq(st, off, end, "consumed:%s" % exp, "offset() after a %s token is not its end" % exp)
        if exp == "Bool":
            b = eng.num(st, o[2][0])
            eng.require_eq(st, b, 1 if tk[0] == "true" else 0, "bool", "literal %s has the wrong value" % tk[0])
        elif exp == "Num":
            self.same_slice(eng, st, o[2][0], start, end, "number-source", "the source of a number token is not its bytes")
        elif exp == "Str":
            check_string(self, eng, st, o[2][0], eng.field_ty(oty, o[1], 0), start, end, n, E)
        # every decision has been taken: consume the token
        st.gh["q"] = ("L", q[1:])
        return 1

    def resume(self, eng, st, off):
        """After an error the tokens are those of the input from offset() on."""
        t = st.texts[IN]
        d = st.const_diff(off, t.fpos)
        if d is None or d < 0 or d > len(t.cells):
            eng.undecide("tokens after an error: offset() is not where the last byte was read")
            return 0
        eng.drop_cells(st, IN, d, ())
        t = st.texts[IN].clone()
        t.nmon = 0
        if t.mon:
            t.mst = t.mon.start
        st.texts[IN] = t
        st.gh["q"] = ("L", ())
        st.gh["inrun"] = ("T", 0)
        st.gh["why"], st.gh["bp"], st.gh["bb"] = ("T", ()), ("P", 0), ("N", 0)
        self.reset(st)
        return 1

    look = False

    def keep(self, eng, st, tid):
        """When the code looks back: the bytes of a short run of non-ASCII ones."""
        if not self.look or tid != IN:
            return None
        t = st.texts[IN]
        r = st.gh["run"][1]
        if st.gh["inrun"][1]:
            d = st.const_diff(eng.text_end(t), r)
            if d is not None and d <= 5:
                return r
        return None

    # ------------------------------------------------------------ what an error says
    def fault(self, eng, st, lex, nx, pos, v):
        st.gh["why"] = ("T", (lex, nx))
        st.gh["bp"] = ("P", pos)
        st.gh["bb"] = ("N", v)

    def died(self, eng, st):
        st.gh["start"] = ("N", 0)
        return [(st.gh["bp"][1], None)]

    def named(self, eng, st, off, ref, rty, lex, eof):
        kind = deref(eng, st, ref)
        kty = eng.tys[rty].d["elem"]
        kn = variant(eng, kty, eng.force(st, kind))
        if lex[0] == "bad":
            exp = cause(*st.gh["why"][1], st.rng(st.gh["bb"][1])[0])
            if not eng.require(st, kn in exp, "error-kind:%s" % kn, "the error is %s although the first wrong byte is one for %s" % (kn, " or ".join(exp))):
                return
            if len(exp) == 1 and kn != "Utf8":
                eng.require_eq(st, off, st.gh["bp"][1], "error-place:%s" % kn, "the offset of %s is not the first wrong byte" % kn)
            if kn == "Unexpected":
                eng.require_eq(st, eng.num(st, eng.force(st, kind)[2][0]), st.gh["bb"][1], "error-byte", "Unexpected does not carry the byte at its offset")
            elif kn == "UnexpectedEof":
                eng.require(st, eof, "error-kind:eof", "UnexpectedEof before the end of the input")
                eng.require_eq(st, off, st.texts[IN].len, "error-place:%s" % kn, "the offset of %s is not the end of the input" % kn)
            return
        exp = {"-": "ExpectedDigit", ".": "ExpectedDecimalDigit", "e": "ExpectedExponent", "E": "ExpectedExponent"}[lex[1]] if lex[0] == "n" else \
            "UnexpectedEof" if lex[0] != "s" else "UnclosedString" if lex[2] == 0 else "Utf8"
        if eng.require(st, kn == exp, "error-kind:%s" % kn, "the error is %s although the input ends where %s is due" % (kn, exp)) and kn != "Utf8":
            eng.require_eq(st, off, st.texts[IN].len, "error-place:%s" % kn, "the offset of %s is not the end of the input" % kn)

    def same_slice(self, eng, st, v, a, b, key, msg):
        v = eng.force(st, v)
        if v[0] != "S" or v[1] != IN:
            eng.violation(st, key, msg + " (not a slice of the input)")
            return
        eng.require_eq(st, v[2], a, key, msg)
        eng.require_eq(st, v[3], b, key, msg)


def check_string(spec, eng, st, v, ty, start, end, n, E):
    """SObs {enc, plain, len, dlen} against the token start..end."""
    v = eng.force(st, v)
    names = [f[0] for f in eng.tys[ty].d["variants"][0]["fields"]]
    g = {k: eng.force(st, x) for k, x in zip(names, v[2])}
    a, b = add(start, 1), add(end, -1)
    if eng.require(st, g["enc"][1] == 1, "string-source", "a parsed string does not carry its JSON source"):
        spec.same_slice(eng, st, g["enc"][2][0], a, b, "string-source", "the contents of a string token are not the bytes between its quotes")
    eng.require_eq(st, eng.num(st, g["dlen"]), n, "string-decoded-len", "decoded_len() of a parsed string is not its decoded length")
    eng.require_eq(st, eng.num(st, g["len"]), add(b, a, -1), "string-len", "len() of a parsed string is not its source length")
    if eng.require(st, g["plain"][1] == (0 if E else 1), "string-escapes", "as_str() of a parsed string %s escapes" % ("ignores its" if E else "assumes") ):
        if not E:
            spec.same_slice(eng, st, g["plain"][2][0], a, b, "string-plain", "as_str() of a parsed string is not its contents")


def run_tok(prog, strmode, look=False):
    from ..exec import Engine
    from ..engine import State
    spec = TokSpec(strmode)
    spec.look = look
    eng = Engine(prog, spec)
    st = State()
    s = spec.input(eng, st)
    st.gh["why"] = ("T", ())
    st.gh["bp"], st.gh["bb"] = ("P", 0), ("N", 0)
    eng.start(prog.roots["tok_run_str" if strmode else "tok_run_bytes"], st, [s])
    eng.run_root(st)
    if not look and not eng.violations and any("behind the retained window" in str(u) for u in eng.undecided.items()):
        return run_tok(prog, strmode, True)
    return eng
