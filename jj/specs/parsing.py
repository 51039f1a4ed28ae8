"""Specification of Parser: the JSON grammar driving a delegate, run in product with the code."""
from ..spec import Spec
from ..engine import Fork, Stop, Unknown, UNIT, ISIZE_MAX
from ..lin import add, Lin
from ..walk import Walk
from .. import lin as L
from .. import lexmon as X
from ..anchor import Group
from .lexing import Lexing, IN, check_string, variant
from ..builtins import deref, ref_write
from ..context import fact

SCALAR = {"null": "Null", "true": "Boolean", "false": "Boolean", "Num": "Number", "Str": "String"}
NONE = ("T", None)


def frame(kind, state, cnt=0, obj=NONE, key=NONE, val=NONE, vkind=None):
    return ("A", 0, (kind, state, ("N", cnt), obj, key, val, vkind))


class F:
    def __init__(self, v):
        self.kind, self.state, n, self.obj, self.key, self.val, self.vkind = v[2]
        self.cnt = n[1]

    def pack(self):
        return frame(self.kind, self.state, self.cnt, self.obj, self.key, self.val, self.vkind)


class ParseSpec(Lexing):
    """One run of a parser entry point with an opaque delegate (or the validating one)."""
    max_steps = 40_000_000
    time_limit = 700

    def __init__(self, strmode, delegate, lite=True):
        Lexing.__init__(self, strmode, lite)
        self.delegate = delegate

    def begin_run(self, eng, st, tc, limit, alltypes):
        gh = st.gh
        gh["stk"] = ("L", (frame("root", "v"),))
        gh["tc"] = tc
        gh["at"] = alltypes
        gh["rem"] = ("N", limit) if limit is not None else NONE
        gh["crem"] = gh["rem"]
        gh["cpos"] = ("P", 0)
        gh["dead"] = NONE
        gh["fail"] = NONE
        gh["bt"] = ("T", 0)

    # ------------------------------------------------------------ abstraction
    def anchors(self, eng, st):
        self.collapse(eng, st)
        g = Lexing.anchors(self, eng, st)
        if g is None:
            return None
        if st.gh["dead"] != NONE:
            g[0].segs, g[0].derived = self.died(eng, st), []
        g[0].segs = [(st.gh["cpos"][1], None)] + g[0].segs
        g[0].coarse = self.tokens
        g[0].derived = [(v, c if c < 0 else c + 1, p + 1) for v, c, p in g[0].derived]
        return g

    def died(self, eng, st):
        """Where the input became invalid, while the code still holds on to that place."""
        p = st.norm(st.gh["start"][1])
        if p != 0:
            w = Walk(eng, st)
            w.run()
            if any(st.const_diff(v, p) == 0 for v, _ in w.slots[w.nghost:w.ntext]):
                return [(p, None)]
        st.gh["start"] = ("N", 0)
        return []

    def counters(self, eng, st):
        out = []
        if st.gh["crem"] != NONE:
            out.append(st.gh["crem"][1])
            out.append(st.gh["rem"][1])
        for f in st.gh["stk"][1]:
            out.append(F(f).cnt)
        return out

    def vague(self, st):
        return st.texts[IN].len if st.gh["dead"] != NONE else None

    def entry_anchors(self, st):
        return ("cpos",) if st.gh["crem"] == NONE else ("cpos", "crem")

    def verdict(self, st):
        return st.gh["dead"][1]

    def collapse(self, eng, st):
        """Once the input is known to be refused, how it got there no longer matters."""
        if st.gh["dead"] == NONE:
            self.settle_syntax(eng, st)
            e = self.expected(eng, st, quiet=True)
            if e is None or e[0] not in ("dead", "limit", "eof"):
                return
            st.gh["dead"] = ("T", (e[0], self.blame(st, e[0])))
        if st.gh["stk"][1]:
            st.gh["stk"] = ("L", ())
            q = st.gh["q"][1]
            st.gh["q"] = ("L", ())
            if q:
                st.gh["start"] = q[0][2][1]
            st.gh["n"] = ("N", 0)
            st.gh["run"] = ("N", 0)
            st.gh["nr"] = ("N", 0)
            st.gh["inrun"] = ("T", 2)
            st.gh["lex"] = ("T", X.BAD)
            st.gh["bt"] = ("T", 0)

    def enter(self, eng, st):
        self.settle_syntax(eng, st)
        stk = st.gh["stk"][1]
        saved = {"cpos": st.gh["cpos"], "crem": st.gh["crem"], "stk": stk[:-1], "top": None}
        if stk:
            f = F(stk[-1])
            if f.state == "v" or (f.state in ("v0", "v1") and (st.gh["q"][1] or st.gh["lex"][1] != X.WSS) and self.first(st) in ("Obj", "Arr", "Str", "Num", "true", "false", "null")):
                saved["top"] = stk[-1]
                st.gh["stk"] = ("L", (frame("bot", "v"),))
            else:
                st.gh["stk"] = ("L", stk[-1:])
        st.gh["cpos"] = ("P", st.texts[IN].fpos)
        st.gh["crem"] = st.gh["rem"]
        return saved

    def leave(self, eng, saved, st):
        gh = st.gh
        gh["cpos"] = saved["cpos"]
        gh["crem"] = saved["crem"]
        stk = gh["stk"][1]
        if gh["dead"] != NONE:
            if saved["top"] is not None and "EOF" in gh["dead"][1][1]:
                what, kinds = gh["dead"][1]
                gh["dead"] = ("T", (what, self.closed(kinds, F(saved["top"]))))
            return
        if saved["top"] is not None:
            b = F(stk[0])
            f = F(saved["top"])
            if b.state == "got":
                if f.kind != "root":
                    f.cnt = add(f.cnt, 1)
                f.state = "put" if f.kind != "root" else "done"
                f.val, f.vkind = b.val, b.vkind
            stk = (f.pack(),) + stk[1:]
        gh["stk"] = ("L", saved["stk"] + stk)

    # ------------------------------------------------------------ grammar
    def first(self, st):
        """Kind of the next token, from its first byte."""
        q = st.gh["q"][1]
        if q:
            return q[0][2][0]
        lex = st.gh["lex"][1]
        if lex[0] in ("s", "e", "h"):
            return "Str"
        if lex[0] == "n":
            return "Num"
        if lex[0] == "l":
            return lex[1]
        return None

    def settle_syntax(self, eng, st):
        """Consume tokens that cause no event."""
        while True:
            if st.gh["dead"] != NONE or not st.gh["q"][1] or not st.gh["stk"][1]:
                return
            f = F(st.gh["stk"][1][-1])
            tk = st.gh["q"][1][0][2][0]
            if tk == "Colon" and f.state == "c":
                f.state = "v"
            elif tk == "Comma" and f.state == "e":
                f.state = "k" if f.kind == "obj" else "v1"
            else:
                return
            st.gh["stk"] = ("L", st.gh["stk"][1][:-1] + (f.pack(),))
            st.gh["q"] = ("L", st.gh["q"][1][1:])

    def expected(self, eng, st, quiet=False):
        """What the bytes looked at so far require next: (what, ...).

        what: an event name | dead | limit | eof | more | done | fail
        quiet: do not decide anything (returns None when a decision is needed)."""
        if st.gh["fail"] != NONE:
            return ("fail",)
        if st.gh["dead"] != NONE:
            return (st.gh["dead"][1][0],)
        if not quiet:
            self.settle_syntax(eng, st)
        f = F(st.gh["stk"][1][-1])
        k, s = f.kind, f.state
        if s == "put":
            return ("object_value" if k == "obj" else "array_value", f)
        if s == "got":
            return ("got",)
        q = st.gh["q"][1]
        tk = self.first(st)
        if tk is None:
            if st.gh["lex"][1][0] == "bad":
                return ("dead",)
            t = st.texts[IN]
            e = st.is0(st.norm(add(t.len, eng.text_end(t), -1)))
            if e is None:
                if quiet:
                    return None
                e = self.eof(eng, st)
            if s == "done":
                return ("done",) if e else ("more",)
            return ("eof",) if e else ("more",)
        full = bool(q)
        ok = None
        if s in ("v", "v0", "v1"):
            if tk in SCALAR:
                ok = ({"null": "null", "true": "boolean", "false": "boolean", "Num": "number", "Str": "string"}[tk], tk)
            elif tk in ("Obj", "Arr"):
                if st.gh["rem"] != NONE:
                    r = st.norm(st.gh["rem"][1])
                    z = st.is0(r)
                    if z is None:
                        if quiet:
                            return None
                        z = st.need_is0(r)
                    if z:
                        return ("limit",)
                ok = ("begin_object" if tk == "Obj" else "begin_array", tk)
            elif tk == "ArrEnd" and s in ("v0", "v1"):
                ok = ("end_array", f)
                if s == "v1":
                    z = self.flag(st, st.gh["tc"], quiet)
                    if z is None:
                        return None
                    if not z:
                        ok = None
        elif s in ("k0", "k"):
            if tk == "Str":
                ok = ("object_key", f)
            elif tk == "ObjEnd":
                ok = ("end_object", f)
                if s == "k":
                    z = self.flag(st, st.gh["tc"], quiet)
                    if z is None:
                        return None
                    if not z:
                        ok = None
        elif s == "e":
            if tk == ("ObjEnd" if k == "obj" else "ArrEnd"):
                ok = ("end_object" if k == "obj" else "end_array", f)
            elif tk == "Comma" and quiet:
                return ("more",)
        elif s == "c" and tk == "Colon" and quiet:
            return ("more",)
        if ok is None:
            return ("dead",)
        if full:
            return ok
        # the token is of the right kind, but incomplete
        t = st.texts[IN]
        e = st.is0(st.norm(add(t.len, eng.text_end(t), -1)))
        if e is None:
            if quiet:
                return None
            e = self.eof(eng, st)
        return ("eof",) if e else ("more",)

    def flag(self, st, v, quiet):
        v = st.norm(v)
        r = st.is0(v)
        if r is None:
            if quiet:
                return None
            r = st.need_is0(v)
        return not r

    # ------------------------------------------------------------ events
    def intercept(self, eng, st, inst, a):
        d = inst.dfn
        if d.startswith("jj_roots::obs::ev_"):
            n = d.rsplit("::", 1)[1]
            n = {"ev_number": "number", "ev_string": "string", "ev_key": "object_key"}.get(n)
        elif d.startswith("<jj_roots::del::Del as justjson::parser::ParseDelegate"):
            n = d.rsplit("::", 1)[1]
            if n in ("number", "string", "object_key"):
                return None
        else:
            return None
        return self.event(eng, st, inst, n, a)

    def payload(self, eng, st, inst, n, a, tk):
        if n == "boolean":
            eng.require_eq(st, eng.num(st, a[1]), 1 if tk[0] == "true" else 0, "bool", "boolean() gets the wrong value")
        elif n == "number":
            self.same_slice(eng, st, a[0], tk[1][1], tk[2][1], "number-source", "number() does not get the bytes of the number")
        elif n in ("string", "object_key"):
            check_string(self, eng, st, a[-1], inst.params[-1], tk[1][1], tk[2][1], tk[3][1], tk[4])

    def objid(self, eng, st, v):
        v = eng.rv(st, v)
        if type(v) is tuple and v[0] == "R":
            v = eng.rv(st, eng.mem_get(st, v[1], v[2]))
        if type(v) is tuple and v[0] == "O":
            return ("ID", v[1])
        raise Unknown("delegate object %s" % (v,))

    def event(self, eng, st, inst, n, a):
        ret = inst.ret
        if n == "kind_of":
            return self.kind_of(eng, st, inst, a)
        if n in ("object_is_empty", "array_is_empty"):
            o = self.objid(eng, st, a[1])
            for f in st.gh["stk"][1]:
                f = F(f)
                if f.obj == o:
                    return 0 if st.norm(f.cnt) != 0 else 1
            if st.gh["dead"] != NONE:
                return eng.boolsym(st)
            raise Unknown("emptiness of an unknown object")
        self.settle(eng, st)
        exp = self.expected(eng, st)
        if not eng.require(st, exp[0] == n, "event:%s:%s" % (n, exp[0]),
                           "the delegate's %s is called where %s" % (n, self.describe(exp))):
            raise Stop()
        stk = list(st.gh["stk"][1])
        top = F(stk[-1])
        q = st.gh["q"][1]
        tk = q[0][2] if q else None
        oty = self.ok_ty(eng, inst)
        self.payload(eng, st, inst, n, a, tk)
        if n == "object_key":
            eng.require(st, self.objid(eng, st, a[-2]) == top.obj, "object:%s" % n, "%s is called with another object" % n)
        elif n in ("object_value", "array_value", "end_object", "end_array"):
            eng.require(st, self.objid(eng, st, a[1]) == top.obj, "object:%s" % n, "%s is called with another object" % n)
        if n == "object_value":
            eng.require(st, self.objid(eng, st, a[2]) == top.key, "key", "object_value gets another key than the one object_key returned")
        if n in ("object_value", "array_value"):
            eng.require(st, self.objid(eng, st, a[-1]) == top.val, "value", "%s gets another value" % n)
        # ---- outcome: the delegate succeeds or fails
        c = eng.rv(st, ("O", ("dly", 0), None))
        if c[0] == "O":
            key = c[1]
            okv = UNIT if n in ("object_value", "array_value") else ("O", ("d", eng.newid()), oty[0])
            erv = ("O", ("e", eng.newid()), oty[1])

            def good(s):
                s.exp[key] = ("A", 0, (okv,))
                return True

            def bad(s):
                s.exp[key] = ("A", 1, (erv,))
                return True
            raise Fork([good, bad])
        res = c
        st.exp.pop(("dly", 0), None)
        # ---- commit
        if res[1] == 1:
            st.gh["fail"] = ("ID", res[2][0][1])
            st.gh["dead"] = ("T", "fail")
            st.gh["stk"] = ("L", ())
            st.gh["q"] = ("L", ())
            self.collapse(eng, st)
            return res
        rid = ("ID", res[2][0][1]) if res[2][0] != UNIT else NONE
        if tk is not None and n not in ("object_value", "array_value"):
            st.gh["q"] = ("L", q[1:])
        if n in ("null", "boolean", "number", "string"):
            self.value(top, rid, SCALAR[tk[0]])
            stk[-1] = top.pack()
        elif n in ("begin_object", "begin_array"):
            stk.append(frame("obj" if n == "begin_object" else "arr", "k0" if n == "begin_object" else "v0", 0, rid))
            self.depth(st, -1)
        elif n == "object_key":
            top.key = rid
            top.state = "c"
            stk[-1] = top.pack()
        elif n in ("object_value", "array_value"):
            top.state, top.key, top.val, top.vkind = "e", NONE, NONE, None
            stk[-1] = top.pack()
        else:
            stk.pop()
            if not stk:
                raise Unknown("a value ends below the call that reads it")
            up = F(stk[-1])
            self.value(up, rid, "Object" if n == "end_object" else "Array")
            stk[-1] = up.pack()
            self.depth(st, 1)
        st.gh["stk"] = ("L", tuple(stk))
        return res

    def depth(self, st, d):
        if st.gh["rem"] != NONE:
            st.gh["rem"] = ("N", st.norm(add(st.gh["rem"][1], d)))

    def value(self, f, rid, kind):
        if f.kind == "bot":
            f.state = "got"
        elif f.kind == "root":
            f.state = "done"
        else:
            f.state = "put"
            f.cnt = add(f.cnt, 1)
        f.val, f.vkind = rid, kind

    def ok_ty(self, eng, inst):
        t = eng.tys[inst.ret]
        vs = t.d["variants"]
        return [v["fields"][0][1] for v in vs]

    def kind_of(self, eng, st, inst, a):
        o = self.objid(eng, st, a[1])
        for f in st.gh["stk"][1]:
            f = F(f)
            if f.val == o:
                return ("A", eng.variant_named(inst.ret, f.vkind), ())
        raise Unknown("kind of an unknown value")

    def describe(self, exp):
        return {"dead": "the input has already become invalid", "limit": "the recursion limit is reached", "eof": "the input has ended",
                "more": "no complete token has been read", "done": "the document is complete", "fail": "the delegate has already failed",
                "got": "the value is already complete"}.get(exp[0], "%s is due" % exp[0])

    # ------------------------------------------------------------ what an error says
    def blame(self, st, what):
        """The kinds of error that name what is wrong where the input died."""
        stk = st.gh["stk"][1]
        if what == "limit" or not stk:
            return ()
        f = F(stk[-1])
        tk = self.first(st)
        if f.state == "done":
            return ("TrailingNonWhitespace",)
        if f.state == "c":
            return ("ExpectedColon",)
        out = ()
        if what == "eof":
            out = ("EOF",)
        elif not st.gh["q"][1]:
            out = self.bad_token(st)
        if tk is not None and what != "eof":
            if f.state in ("k0", "k"):
                out += (("IllegalTrailingComma",) if tk == "ObjEnd" else
                        ("ExpectedObjectKey",) if tk in ("ArrEnd", "Colon", "Comma") else () if tk == "Str" else ("ObjectKeysMustBeStrings",))
            elif f.state == "e":
                out += ("ExpectedCommaOrEndOfObject" if f.kind == "obj" else "ExpectedCommaOrEndOfArray",)
            elif f.state in ("v", "v0", "v1"):
                out += ("IllegalTrailingComma",) if tk == "ArrEnd" and f.state == "v1" else ("Unexpected@%d" % min(FIRST[tk]),) if tk in PUNCT else ()
        return self.closed(out, f)

    def bad_token(self, st):
        """What reading the next token can have failed with."""
        w = st.gh["bt"][1]
        return LEXICAL + ("EOF",) if w == 0 else LEXICAL if w == "bad" else ("EOF",)

    def closed(self, kinds, f):
        """The end of the input is reported by the innermost container."""
        to = {"obj": "UnclosedObject", "arr": "UnclosedArray", "root": "UnexpectedEof"}.get(f.kind, "EOF")
        return tuple(to if k == "EOF" else k for k in kinds)

    # ------------------------------------------------------------ the result
    def on_return(self, eng, st, val):
        self.settle(eng, st)
        v = eng.force(st, val)
        rty = st.frames[-1].inst.locals[0]
        exp = self.expected(eng, st)
        if v[1] == 0:
            if not eng.require(st, exp[0] == "done", "ok:%s" % exp[0], "parsing succeeds although %s" % self.describe(exp)):
                return
            f = F(st.gh["stk"][1][-1])
            if f.vkind not in ("Object", "Array"):
                at = self.flag(st, st.gh["at"], False)
                eng.require(st, at, "root-type", "a %s is accepted at the root although only objects and arrays are allowed" % f.vkind)
            self.check_ok(eng, st, f, v[2][0], eng.field_ty(rty, 0, 0))
            return
        ety = eng.field_ty(rty, 1, 0)
        off, kind, kty = self.error(eng, st, ety, v[2][0])
        eng.require_ge(st, st.texts[IN].len, off, "error-offset", "the offset of an error lies beyond the input")
        kn = variant(eng, kty, kind)
        roottype = False
        if exp[0] in ("done", "more") and st.gh["stk"][1] and F(st.gh["stk"][1][-1]).state == "done" and F(st.gh["stk"][1][-1]).vkind not in ("Object", "Array"):
            roottype = not self.flag(st, st.gh["at"], False)
        if kn == "ErrorFromDelegate":
            eng.require(st, exp[0] == "fail" and self.objid(eng, st, kind[2][0]) == st.gh["fail"], "delegate-error", "an error of the delegate is reported that it did not return")
            return
        if not eng.require(st, exp[0] != "fail", "fail-kept", "the error of the delegate is replaced by %s" % kn):
            return
        if kn == "RecursionLimitReached":
            eng.require(st, exp[0] == "limit", "limit-early", "RecursionLimitReached although %s" % self.describe(exp))
            return
        if not eng.require(st, exp[0] != "limit", "limit-kind", "exceeding the recursion limit is reported as %s" % kn):
            return
        if kn == "PayloadsShouldBeObjectOrArray":
            eng.require(st, roottype, "root-type-early", "PayloadsShouldBeObjectOrArray although the root may be anything or is an object or array")
            return
        if eng.require(st, exp[0] in ("dead", "eof") or roottype, "reject:%s" % kn, "parsing fails with %s although %s" % (kn, self.describe(exp))) and not roottype:
            if st.gh["dead"] == NONE:
                kinds = self.blame(st, exp[0])
            else:
                kinds = st.gh["dead"][1][1]
            if kn == "Unexpected" and kn not in kinds:
                b = eng.num(st, kind[2][0])
                kn = next(("Unexpected@%d" % c for c in b"{}[]:," if st.const_diff(b, c) == 0), "Unexpected@?")
            eng.require(st, kn in kinds, "error-kind:%s" % kn.split("@")[0], "the error is %s although the first thing wrong is one for %s" % (kn, " or ".join(kinds)))

    def error(self, eng, st, ety, v):
        """(offset, kind, type of kind) of a justjson Error, through its two fields."""
        e = eng.force(st, v)
        off = kind = kty = None
        for i, f in enumerate(e[2]):
            ft = eng.field_ty(ety, 0, i)
            t = eng.tys[ft]
            if t.k == "uint":
                off = eng.num(st, f)
            elif t.k == "adt" and t.d["adtkind"] == "enum":
                kind, kty = eng.force(st, f), ft
        if off is None or kind is None:
            raise Unknown("shape of Error")
        return off, kind, kty

    def same_slice(self, eng, st, v, a, b, key, msg):
        from .lexing import TokSpec
        TokSpec.same_slice(self, eng, st, v, a, b, key, msg)

    def check_ok(self, eng, st, f, v, ty):
        if self.delegate == "del":
            eng.require(st, self.objid(eng, st, v) == f.val, "result", "the result is not the value of the root")
        elif self.delegate == "unit":
            got = variant(eng, ty, eng.force(st, v))
            eng.require(st, got == f.vkind, "kind:%s" % f.vkind, "validation reports %s for a %s" % (got, f.vkind))


class ValidateSpec(ParseSpec):
    """The validating delegate: no events; the grammar advances with the tokens."""

    def settle_syntax(self, eng, st):
        if self.inner:
            return ParseSpec.settle_syntax(self, eng, st)
        while True:
            if st.gh["dead"] != NONE or not st.gh["stk"][1]:
                return
            stk = list(st.gh["stk"][1])
            f = F(stk[-1])
            if f.state == "put":
                f.state, f.val, f.vkind = "e", NONE, None
                st.gh["stk"] = ("L", tuple(stk[:-1]) + (f.pack(),))
                continue
            q = st.gh["q"][1]
            if not q or (len(q) == 1 and q[0][2][1] != ("T", -1) and not self.all):
                return                  # nothing, or a token only looked at so far
            n0 = len(q)
            ParseSpec.settle_syntax(self, eng, st)
            if len(st.gh["q"][1]) != n0:
                continue
            e = self.exp0(eng, st)
            if e[0] in ("dead", "limit", "eof", "more", "done", "got"):
                return
            n = e[0]
            if n in ("null", "boolean", "number", "string"):
                self.value(f, NONE, SCALAR[e[1]])
                stk[-1] = f.pack()
            elif n in ("begin_object", "begin_array"):
                stk.append(frame("obj" if n == "begin_object" else "arr", "k0" if n == "begin_object" else "v0"))
                self.depth(st, -1)
            elif n == "object_key":
                f.state = "c"
                stk[-1] = f.pack()
            else:
                if len(stk) == 1:
                    raise Unknown("a value ends below the call that reads it")
                stk.pop()
                up = F(stk[-1])
                self.value(up, NONE, "Object" if n == "end_object" else "Array")
                stk[-1] = up.pack()
                self.depth(st, 1)
            st.gh["stk"] = ("L", tuple(stk))
            st.gh["q"] = ("L", q[1:])

    def exp0(self, eng, st):
        self.inner = True
        try:
            return ParseSpec.expected(self, eng, st)
        finally:
            self.inner = False

    inner = False
    all = False

    def finish(self, eng, st):
        self.all = True
        try:
            self.settle_syntax(eng, st)
        finally:
            self.all = False

    def at_exit(self, eng, st):
        self.finish(eng, st)

    def on_return(self, eng, st, val):
        self.settle(eng, st)
        self.finish(eng, st)
        ParseSpec.on_return(self, eng, st, val)


class Tokens:
    """Parsing over tokens: next() and next_or_eof() are summarised by what the
    tokenizer's own analysis (jobs tok.*) establishes about them."""

    def intercept(self, eng, st, inst, a):
        d = inst.dfn
        if d.startswith("<jj_roots::del::Del as"):
            return self.event(eng, st, inst, d.rsplit("::", 1)[1], a)
        if "justjson::parser::Tokenizer" in inst.name:
            n = d.rsplit("::", 1)[1]
            if n == "next_or_eof" or (n == "next" and "Iterator" in d):
                return self.next_token(eng, st, inst, a, n)
        return None

    def payload(self, eng, st, inst, n, a, tk):
        if n == "boolean":
            eng.require_eq(st, eng.num(st, a[1]), 1 if tk[0] == "true" else 0, "bool", "boolean() gets the wrong value")
        elif n in ("number", "string", "object_key"):
            v = eng.rv(st, a[-1])
            eng.require(st, type(v) is tuple and v[0] == "O" and ("ID", v[1]) == tk[4], "payload:%s" % n,
                        "%s() does not get the contents of the token" % n)

    def tokenizer_type(self, eng):
        """The type of the tokenizer that the caller of for_json_bytes gets."""
        r = eng.prog.roots["tok_run_bytes"]
        for b in r.blocks:
            t = b["t"]
            if t[0] == "call" and type(t[1]) is int:
                i = eng.prog.insts[t[1]]
                if i.dfn.endswith("tok_run"):
                    return i.locals[1]
        raise Unknown("tok_run")

    def next_token(self, eng, st, inst, a, how):
        tv = deref(eng, st, a[0])
        tty = eng.tys[inst.params[0]].d["elem"]
        path = slot(eng, st, tty, tv)
        if path is None:
            return None
        if not self.strmode:
            eng.require(st, tty == self.tokenizer_type(eng), "unverified", "bytes are read by a tokenizer that assumes UTF-8")
        p = st.norm(getp(tv, path))
        if type(p) is tuple:
            return None
        t = st.texts[IN]
        q = st.gh["q"][1]
        lex = st.gh["lex"][1]
        rest = st.norm(add(t.len, p, -1))
        known = None
        if q and st.const_diff(q[-1][2][1][1], p) == 0:
            known = [("tok", q[-1][2][0])]
        elif lex[0] == "s":
            known = [("tok", "Str"), ("bad", 0), ("badeof", 0)]
        elif lex[0] == "n":
            known = [("tok", "Num"), ("bad", 0), ("badeof", 0)]
        elif lex[0] == "l":
            known = [("tok", lex[1]), ("bad", 0), ("badeof", 0)]
        elif lex[0] == "bad":
            known = [("bad", 0), ("badeof", 0)] if st.gh["dead"] == NONE else None
        elif st.const_diff(p, eng.text_end(t)) != 0:
            return None
        fresh = known is None
        if fresh and st.gh["dead"] != NONE:
            known = self.by_byte(st, t, p)
        if known is not None and fresh:
            pass
        elif fresh:
            known = [("eof", 0), ("bad", 0), ("badeof", 0)] + [("tok", k) for k in KINDS]
            if st.is0(rest) == 1:
                known = [("eof", 0)]
        c = eng.rv(st, ("O", ("nx", 0), None))
        if c[0] == "O":
            def alt(k):
                def f(s):
                    s.exp[("nx", 0)] = ("T", k)
                    return True
                return f
            raise Fork([alt(k) for k in known])
        st.exp.pop(("nx", 0), None)
        what, kind = c[1]
        rty = inst.locals[0]
        opt = how == "next"
        res = eng.field_ty(rty, 1, 0) if opt else rty
        ln = t.len
        if what == "eof":
            np, v = ln, None
        elif what == "tok":
            np = add(p, 1) if not fresh and kind in PUNCT else self.upto(eng, st, p, 1, ln)
        elif what == "bad":
            np = self.upto(eng, st, p, 1, ln)
        else:
            if not fact(st, add(rest, -1)):
                raise Stop()
            np = ln
        # ---- the text moves on
        n = t.clone()
        if what == "tok" and not fresh and kind in PUNCT:
            pass                       # one byte, already in the window
        else:
            n.cells, n.fpos, n.nmon, n.marks, n.last = (), np, 0, (), None
            n.eof = False
        st.texts[IN] = n
        ref_write(eng, st, a[0], setp(tv, path, np))
        # ---- the grammar sees the token
        if what == "tok":
            tty2 = eng.field_ty(res, 0, 0)
            names = {v["name"]: i for i, v in enumerate(eng.tys[tty2].d["variants"])}
            vn = TOKEN.get(kind, kind)
            fs = ()
            oid = 0
            if kind in ("true", "false"):
                fs = (1 if kind == "true" else 0,)
            elif kind in ("Num", "Str"):
                i = ("tk", eng.newid())
                fs = (("O", i, eng.field_ty(tty2, names[vn], 0)),)
                oid = ("ID", i)
            if q and not fresh and st.const_diff(q[-1][2][1][1], p) == 0:
                q = q[:-1]
            self.reset(st)
            st.gh["lex"] = ("T", X.WSS)
            if st.gh["dead"] == NONE:
                st.gh["q"] = ("L", q + (("A", 0, (kind, ("T", -1), ("P", np), ("N", 0), oid)),))
            r = ("A", 0, (("A", names[vn], fs),))
        else:
            self.reset(st)
            if st.gh["dead"] == NONE:
                if what != "eof":
                    st.gh["bt"] = ("T", what)
                st.gh["lex"] = ("T", X.WSS if what == "eof" else X.BAD)
                if what == "badeof":
                    # whether the bytes were already wrong cannot be told from the kind of token alone
                    st.gh["lex"] = ("T", X.BAD)
            if what == "eof" and opt:
                return ("A", 0, ())
            ety = eng.field_ty(res, 1, 0)
            off = p if what == "eof" and st.is0(rest) == 1 else self.upto(eng, st, p, 0, ln)
            r = ("A", 1, (self.mkerror(eng, st, ety, off, "Unexpected" if what == "bad" else "UnexpectedEof"),))
        return ("A", 1, (r,)) if opt else r

    def by_byte(self, st, t, p):
        """What a token can be whose first byte has already been looked at."""
        pos = t.fpos
        for w, v in t.cells:
            if st.const_diff(p, pos) == 0:
                v = st.norm(v)
                vals = set((v,)) if type(v) is int else None
                if vals is None:
                    if len(v.t) != 1 or v.c or v.t[0][0][1] != 0 or v.t[0][1] != 1:
                        return None
                    vals = set(L.d_vals(st.dom[v.t[0][0][0]]))
                if vals & set(b" \t\n\r"):
                    return None
                out = [("tok", k) for k, b in FIRST.items() if vals & b]
                if vals - PUNCT_BYTES:
                    out += [("bad", 0), ("badeof", 0)]
                return out
            pos = add(pos, w)
        return None

    def upto(self, eng, st, p, least, ln):
        """A position in p+least ..= ln."""
        d = eng.newsym(st, ((least, ISIZE_MAX),), "d")
        st.relaxed.update(L.syms_of(d))
        st.free.update(L.syms_of(d))
        v = add(p, d)
        if not fact(st, add(ln, v, -1)):
            raise Stop()
        return v

    def mkerror(self, eng, st, ety, off, kind):
        fs = []
        for i, (n, ft) in enumerate(eng.tys[ety].d["variants"][0]["fields"]):
            t = eng.tys[ft]
            if t.k == "uint":
                fs.append(off)
            elif t.k == "adt" and t.d["adtkind"] == "enum":
                k = eng.variant_named(ft, kind)
                fs.append(("A", k, tuple(eng.newsym(st, ((0, 255),), "c") for f in t.d["variants"][k]["fields"])))
            else:
                raise Unknown("shape of Error")
        return ("A", 0, tuple(fs))


LEXICAL = ("Unexpected", "Utf8", "InvalidEscape", "InvalidHexadecimal", "ExpectedDigit", "ExpectedDecimalDigit", "ExpectedExponent", "UnclosedString")
PUNCT = ("Obj", "ObjEnd", "Arr", "ArrEnd", "Colon", "Comma")
FIRST = {"Obj": set(b"{"), "ObjEnd": set(b"}"), "Arr": set(b"["), "ArrEnd": set(b"]"), "Colon": set(b":"), "Comma": set(b","),
         "Str": set(b'"'), "Num": set(b"-0123456789"), "true": set(b"t"), "false": set(b"f"), "null": set(b"n")}
PUNCT_BYTES = set(b"{}[]:,")
KINDS = PUNCT + ("Str", "Num", "true", "false", "null")
TOKEN = {"Obj": "Object", "ObjEnd": "ObjectEnd", "Arr": "Array", "ArrEnd": "ArrayEnd", "Str": "String", "Num": "Number",
         "true": "Bool", "false": "Bool", "null": "Null"}


def slot(eng, st, ty, v):
    """The path of the only integer of a tokenizer that otherwise only holds the input."""
    out = []

    def go(ty, v, path):
        v = eng.rv(st, v)
        t = eng.tys[ty]
        if type(v) is int or type(v) is Lin:
            out.append(path if t.k == "uint" and t.d["bits"] == 64 else None)
        elif type(v) is tuple and v[0] == "A":
            for i, x in enumerate(v[2]):
                go(eng.field_ty(ty, v[1], i), x, path + (i,))
        elif type(v) is tuple and v[0] == "S" and v[1] == IN and v[2] == 0:
            pass
        else:
            out.append(None)
    go(ty, v, ())
    return out[0] if len(out) == 1 else None


def getp(v, path):
    for i in path:
        v = v[2][i]
    return v


def setp(v, path, n):
    if not path:
        return n
    i = path[0]
    return ("A", v[1], v[2][:i] + (setp(v[2][i], path[1:], n),) + v[2][i + 1:])


class TokenParse(Tokens, ParseSpec):
    pass


class TokenValidate(Tokens, ValidateSpec):
    pass


def run_parse(prog, root, strmode, cfg, lite=True, delegate="del", max_steps=None, tokens=True, limited=(True, False), commas=None):
    from ..exec import Engine
    from ..engine import State
    if tokens:
        cls = TokenParse if delegate == "del" else TokenValidate
    else:
        cls = ParseSpec if delegate == "del" else ValidateSpec
    spec = cls(strmode, delegate, lite)
    spec.tokens = tokens
    if max_steps:
        spec.max_steps = max_steps
    eng = Engine(prog, spec)
    inst = prog.roots[root]
    for limited in (limited if cfg else (True,)):
        st = State()
        s = spec.input(eng, st)
        args = [s]
        if cfg:
            tc = eng.boolsym(st, "allow_trailing_commas") if commas is None else commas
            at = eng.boolsym(st, "allow_all_types_at_root")
            limit = eng.param(st, 0, (1 << 64) - 1, "recursion_limit") if limited else None
            args.append(config(eng, inst.params[1], tc, limit, at))
        else:
            tc, at, limit = 0, 1, 128
        spec.begin_run(eng, st, tc, limit, at)
        eng.start(inst, st, args)
        eng.push(st)
    eng.loop()
    return eng


def config(eng, ty, tc, limit, at):
    """A ParseConfig with these public fields."""
    vals = {"allow_trailing_commas": tc, "allow_all_types_at_root": at,
            "recursion_limit": ("A", 0, ()) if limit is None else ("A", 1, (limit,))}
    t = eng.tys[ty]
    return ("A", 0, tuple(vals[f[0]] for f in t.d["variants"][0]["fields"]))
