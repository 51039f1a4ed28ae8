"""Comparing and hashing JSON strings: by the decoded text, whatever the representation.

Two operands are described by their common decoded prefix Z (one text both read) and by how they go on after it:
EQ both end, LP/RP the left/right one ends first, LT/GT the next characters differ.  Each operand is
the text ("l",) / ("r",): Z followed by its own rest.  A JSON form with escapes is a text
of its own, ("el",) / ("er",), whose decoding (established by the decode analysis) is ("l",) / ("r",)."""
import re

from ..spec import Spec
from ..engine import Fork, Stop, Unknown, Text, UNIT, CHAR_DOM
from ..lin import add
from .. import lin as L
from .strings import PLAIN, LEN_MAX, TOP, KINDS, OBJ, jstring, strip, origin, anystr

Z = ("z",)
SIDES = ("l", "r")
OTHER = ("o", ("other",))
HASHER = ("o", ("hasher",))
SCEN = ("EQ", "LP", "RP", "LT", "GT")
ORD = {"EQ": 1, "LP": 0, "RP": 2, "LT": 0, "GT": 2}
DECODED = re.compile(r"^<(\w+::)*Decoded<.*> as std::iter::Iterator>::next$")
EQS = re.compile(r"<impl std::cmp::PartialEq(<[^>]*>+)? for (str|\[T\]|std::string::String|&'a str)>::(eq|ne)$|^<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$")
CMPS = re.compile(r"<impl std::cmp::(Partial)?Ord for (str|\[T\])>::(partial_)?cmp$|^<std::string::String as std::cmp::(Partial)?Ord>::(partial_)?cmp$")
CLONE = re.compile(r"^<std::string::String as std::clone::Clone>::clone$")


class Gen:
    dead = None
    start = 0

    def __init__(self, dom):
        self.dom = dom

    def classes(self, g):
        return [(self.dom, g, ())]

    def ghosts(self):
        return ()


def enum(i):
    return ("A", i, ())


class TextsSpec(Spec):
    anchored = True
    tails = True
    max_steps = 3_000_000
    time_limit = 300
    text_max = LEN_MAX
    count_max = 6 * LEN_MAX

    def __init__(self, kinds):
        self.kinds = dict(zip(SIDES, kinds))      # esc | plain | raw | str

    def dom(self, side):
        return PLAIN if self.kinds.get(side) == "plain" else CHAR_DOM

    def common(self):
        d = CHAR_DOM
        for s in self.kinds:
            d = L.d_and(d, self.dom(s))
        return d

    def operand(self, eng, st, side, n, key, ty, owned):
        """The value of one operand whose decoded text has length n."""
        kind = self.kinds[side]
        tid = (side,)
        st.texts[tid] = Text("c", n, 0)
        s = ("S", tid, 0, n)
        st.gh["text" + side] = s
        st.gh["pos" + side] = ("P", 0)
        if kind == "str":
            return s
        if kind == "esc":
            e = eng.param(st, 2, 12 * LEN_MAX, "e" + side)
            if not st.add_fact(add(add(e, n, -1), -1)):
                raise Stop()
            etid = ("e" + side,)
            st.texts[etid] = Text("c", e, 0)
            src, info = ("S", etid, 0, e), add(n, TOP)
            st.gh["src" + side] = src
        elif kind == "plain":
            src, info = s, n
        else:
            m = eng.param(st, 2, 6 * LEN_MAX, "m" + side)
            if not st.add_fact(add(add(m, n, -1), -1)):
                raise Stop()
            src, info = s, add(m, TOP)
        st.mem[key] = jstring(eng, ty, kind, owned, src, info)
        eng.objty[key] = strip(eng, ty)
        return ("R", key, ())

    # ------------------------------------------------------------ reading
    def alias_char(self, eng, st, s):
        """The next character of a slice: (character, rest) | None, or False if this is no operand."""
        from ..builtins import next_char, char_width
        side = s[1][0]
        if side in ("el", "er"):
            raise Unknown("reads the escaped text itself")
        if s[1] not in (("l",), ("r",)):
            return False
        z = st.texts[Z]
        r = next_char(eng, st, ("S", Z, s[2], z.len))
        if r is not None:
            st.gh["pos" + side] = ("P", r[1][2])
            return r[0], ("S", s[1], r[1][2], s[3])
        c = self.tail(eng, st, side, s)
        if c is None:
            return None
        w = char_width(st, c)
        p = st.norm(add(s[2], w))
        if not st.add_fact(add(s[3], p, -1)):
            raise Stop()
        st.gh["pos" + side] = ("P", p)
        return c, ("S", s[1], p, s[3])

    def tail(self, eng, st, side, s):
        if st.const_diff(s[2], st.texts[Z].len) != 0:
            raise Unknown("reads on after the first difference")
        sc = st.gh["scen"][1]
        if sc == "EQ" or sc == side.upper() + "P":
            return None
        return st.gh["c" + side]

    def keep(self, eng, st, tid):
        if tid != Z:
            return None
        a = st.gh["posl"][1]
        b = st.gh["posr"][1] if "posr" in st.gh else a
        if st.const_diff(a, b) == 0:
            return None
        return a if (st.const_diff(b, a) or 0) > 0 else b

    def anchors(self, eng, st):
        a = st.gh["posl"][1]
        if "posr" in st.gh and st.const_diff(a, st.gh["posr"][1]) != 0:
            return None
        if st.norm(st.texts[Z].fpos) == 0:
            return None
        return [origin(Z, [(0, None)])]

    def intercept(self, eng, st, inst, a):
        d = inst.dfn
        if DECODED.match(d):
            return self.decoded_next(eng, st, a[0])
        if EQS.search(d):
            from ..builtins import as_slice2
            r = self.same(eng, st, as_slice2(eng, st, a[0]), as_slice2(eng, st, a[1]))
            if r is not None:
                return int(r == d.endswith("::eq"))
        if CMPS.search(d):
            from ..builtins import as_slice2
            r = self.order(eng, st, as_slice2(eng, st, a[0]), as_slice2(eng, st, a[1]))
            if r is not None:
                r = enum(r)
                return ("A", 1, (r,)) if d.endswith("partial_cmp") else r
        if CLONE.match(d):
            v = eng.force(st, eng.load(st, eng.deref(st, a[0], None)))
            if type(v) is tuple and v[0] == "B" and v[1] == "string":
                return v
        return None

    def decoded_next(self, eng, st, r):
        """Decoded::next() on a text with escapes, as the decode analysis establishes it; None: run the body."""
        from ..builtins import next_char, deref, ref_write
        v = eng.force(st, deref(eng, st, r))
        fs = [eng.force(st, x) for x in v[2]]
        it = [i for i, x in enumerate(fs) if type(x) is tuple and x[0] == "B" and x[1] in ("chars", "cindices")]
        if len(it) != 1:
            raise Unknown("the fields of Decoded")
        i = it[0]
        s = fs[i][2]
        side = s[1][0][-1]
        if self.kinds.get(side) != "esc":
            return None
        if s[1][0] in ("el", "er"):
            if not st.is0(s[2]):
                raise Unknown("decoding from the middle")
            flags = [x for x in fs if type(x) is int]
            if len(flags) == 1 and flags[0] == 0:
                eng.violation(st, "undecoded", "a text with escapes is iterated without decoding them")
                raise Stop()
            s = ("S", (side,), 0, st.texts[(side,)].len)
        x = next_char(eng, st, s)
        if x is None:
            return ("A", 0, ())
        new = ("B", fs[i][1], x[1]) + (("N", 0),) * (len(fs[i]) - 3)
        fs[i] = new
        ref_write(eng, st, r, ("A", v[1], tuple(fs)))
        return ("A", 1, (x[0],))

    def whole(self, st, s):
        """('l', encoded?) if s is the whole of an operand's text."""
        if s[0] != "S" or s[1] not in (("l",), ("r",), ("el",), ("er",)):
            return None
        if st.is0(s[2]) and st.is0(add(s[3], st.texts[s[1]].len, -1)):
            return s[1][0][-1], len(s[1][0]) == 2
        raise Unknown("part of a text is compared")

    def same(self, eng, st, x, y):
        a, b = self.whole(st, x), self.whole(st, y)
        if a is None and b is None:
            return None
        if a is None or b is None:
            raise Unknown("comparison with something else")
        if a == b:
            return True
        eq = a[0] == b[0] or st.gh["scen"][1] == "EQ"
        if not a[1] and not b[1]:
            return eq
        if a[1] and b[1]:
            if not eq:
                return False
            return self.choose(eng, st, 2) == 1
        if eq:
            return False           # a text with escapes is longer than what it denotes
        t, e = (a, b) if b[1] else (b, a)
        if self.kinds[t[0]] == "plain":
            return False           # the source with escapes has a backslash
        # Such texts may be equal, as `\u0041` in JSON and as plain characters.
        diff = add(st.texts[(t[0],)].len, st.texts[("e" + e[0],)].len, -1)
        lossy = st.gh["scen"][1] not in ("LT", "GT") or not st.is0(st.texts[Z].fpos)
        return self.choose(eng, st, 2, lossy, diff) == 1

    def choose(self, eng, st, n, lossy=False, zero=None):
        raise_on = st.gh.get("chosen")
        if raise_on is not None:
            del st.gh["chosen"]
            return raise_on[1]

        def alt(i):
            def f(s):
                s.gh["chosen"] = ("T", i)
                if i and zero is not None:
                    if lossy:
                        s.lossy = True
                    return s.add_fact(zero) and s.add_fact(L.add(0, zero, -1))
                return True
            return f
        raise Fork([alt(i) for i in range(n)])

    def order(self, eng, st, x, y):
        a, b = self.whole(st, x), self.whole(st, y)
        if a is None and b is None:
            return None
        if a is None or b is None:
            raise Unknown("comparison with something else")
        if a == b or a[0] == b[0] and not a[1]:
            return 1
        if not a[1] and not b[1]:
            o = ORD[st.gh["scen"][1]]
            return o if a[0] == "l" else 2 - o
        return self.choose(eng, st, 3)


class PairSpec(TextsSpec):
    def __init__(self, kinds, what):
        TextsSpec.__init__(self, kinds)
        self.what = what      # eq | ne | cmp | pcmp

    def start(self, eng, st, inst, scen, owned):
        lo = 0
        if scen in ("EQ", "LP") and self.kinds["l"] in ("esc", "raw") or scen in ("EQ", "RP") and self.kinds["r"] in ("esc", "raw"):
            lo = 1
        p = eng.param(st, lo, LEN_MAX, "p")
        st.gh["scen"] = ("T", scen)
        st.texts[Z] = Text("c", p, 0, Gen(self.common()))
        st.gh["common"] = ("S", Z, 0, p)
        n = {}
        for side in SIDES:
            if scen == "EQ" or scen == side.upper() + "P":
                n[side] = p
            else:
                n[side] = add(p, eng.param(st, 1, LEN_MAX, "d" + side))
                st.gh["c" + side] = eng.newsym(st, self.dom(side), "c")
        if scen in ("LT", "GT"):
            a, b = (st.gh["cl"], st.gh["cr"]) if scen == "LT" else (st.gh["cr"], st.gh["cl"])
            if not st.add_fact(add(add(b, a, -1), -1)):
                raise Stop()
        args = []
        for side, key, ty, o in zip(SIDES, (OBJ, OTHER), inst.params, owned):
            args.append(self.operand(eng, st, side, n[side], key, ty, o))
        return args

    def on_return(self, eng, st, val):
        sc = st.gh["scen"][1]
        desc = {"EQ": "equal texts", "LP": "a text and a longer one it begins", "RP": "a text and a prefix of it",
                "LT": "texts whose first difference is smaller on the left", "GT": "texts whose first difference is greater on the left"}[sc]
        kinds = "/".join(self.kinds.values())
        if self.what in ("eq", "ne"):
            v = eng.num(st, val)
            eng.require(st, bool(v) == ((sc == "EQ") == (self.what == "eq")), "eq:%s:%s" % (kinds, sc), "%s (%s) compare %s" % (desc, kinds, "equal" if sc != "EQ" else "unequal"))
            return
        v = eng.force(st, val)
        if self.what == "pcmp":
            if not eng.require(st, v[1] == 1, "cmp-none", "partial_cmp() is None"):
                return
            v = eng.force(st, v[2][0])
        eng.require(st, v[1] == ORD[sc], "cmp:%s:%s" % (kinds, sc), "%s (%s) are ordered %s" % (desc, kinds, ("Less", "Equal", "Greater")[v[1]]))


def run_pair(prog, root, what, kinds, storages=((False, False), (True, True), (False, True), (True, False))):
    from ..exec import Engine
    from ..engine import State
    spec = PairSpec(kinds, what)
    eng = Engine(prog, spec)
    inst = prog.roots[root]
    for owned in storages:
        if kinds[1] == "str" and owned[0] != owned[1]:
            continue
        for sc in SCEN:
            st = State()
            try:
                args = spec.start(eng, st, inst, sc, owned)
            except Stop:
                continue
            eng.start(inst, st, args)
            eng.push(st)
    eng.loop()
    return eng


class HashSpec(TextsSpec):
    """What a Hasher is fed: the bytes of the decoded text, then 0xff."""

    def __init__(self, kind):
        TextsSpec.__init__(self, (kind,))

    def start(self, eng, st, inst, owned):
        n = eng.param(st, 1 if self.kinds["l"] in ("esc", "raw") else 0, LEN_MAX, "n")
        st.gh["scen"] = ("T", "EQ")
        st.texts[Z] = Text("c", n, 0, Gen(self.common()))
        st.gh["common"] = ("S", Z, 0, n)
        st.gh["done"] = ("P", 0)
        st.gh["end"] = 0
        st.gh["char"] = ("L", ())
        st.mem[HASHER] = ("B", "hasher")
        eng.objty[HASHER] = strip(eng, inst.params[1])
        return [self.operand(eng, st, "l", n, OBJ, inst.params[0], owned), ("R", HASHER, ())]

    def alias_char(self, eng, st, s):
        r = TextsSpec.alias_char(self, eng, st, s)
        if r:
            st.gh["char"] = ("L", (("A", 0, (r[0],)), ("P", s[2]), ("P", r[1][2])))
        return r

    def anchors(self, eng, st):
        a = st.gh["posl"][1]
        if st.const_diff(a, st.gh["done"][1]) != 0:
            return None
        st.gh["char"] = ("L", ())
        return TextsSpec.anchors(self, eng, st)

    def intercept(self, eng, st, inst, a):
        d = inst.dfn
        if d.endswith("<impl char>::encode_utf8"):
            g = st.gh["char"][1]
            v = eng.num(st, a[0])
            if not g:
                raise Unknown("encoding of a character that was not read")
            if not eng.require_eq(st, v, g[0][2][0], "hash-char", "another character than the text's is hashed"):
                raise Stop()
            return ("S", ("l",), g[1][1], g[2][1])
        if "Hs as std::hash::Hasher>" in d:
            m = d.rsplit("::", 1)[1]
            if m == "write":
                self.feed(eng, st, a[1])
                return UNIT
            if m == "write_u8":
                self.last(eng, st, eng.num(st, a[1]))
                return UNIT
            if m.startswith("write_"):
                eng.violation(st, "hash-extra", "a number is hashed that str's hash does not contain")
                raise Stop()
        return TextsSpec.intercept(self, eng, st, inst, a)

    def feed(self, eng, st, s):
        from ..builtins import as_slice, load_elem
        s = as_slice(eng, st, s)
        if s[0] == "S" and s[1] == ("l",):
            if st.gh["end"]:
                eng.violation(st, "hash-extra", "something is hashed after the terminator")
                raise Stop()
            eng.require_eq(st, s[2], st.gh["done"][1], "hash-order", "the bytes of the text are not hashed in order")
            st.gh["done"] = ("P", s[3])
            return
        if s[0] == "S" and s[1] == ("el",):
            eng.violation(st, "hash-escaped", "the escaped form of the text is hashed")
            raise Stop()
        n = st.norm(add(s[-1], s[-2], -1))
        if n == 1:
            self.last(eng, st, eng.num(st, load_elem(eng, st, s, 0)))
            return
        raise Unknown("hash of something else")

    def last(self, eng, st, v):
        if not st.need_is0(add(st.texts[("l",)].len, st.gh["done"][1], -1)):
            eng.violation(st, "hash-short", "the terminator is hashed before the end of the text")
            raise Stop()
        if st.gh["end"]:
            eng.violation(st, "hash-extra", "something is hashed after the terminator")
            raise Stop()
        eng.require_eq(st, v, 0xFF, "hash-end", "the terminator differs from the one str's hash writes")
        st.gh["end"] = 1

    def on_return(self, eng, st, val):
        eng.require(st, st.gh["end"] == 1, "hash-end", "the hash lacks str's terminator")


def run_hash(prog, root, kind):
    from ..exec import Engine
    from ..engine import State
    spec = HashSpec(kind)
    eng = Engine(prog, spec)
    inst = prog.roots[root]
    for owned in (False, True):
        st = State()
        args = spec.start(eng, st, inst, owned)
        eng.start(inst, st, args)
        eng.push(st)
    eng.loop()
    return eng
