"""JSON strings: what decoding, escaping, lengths and size hints have to be."""
from ..spec import Spec
from ..engine import Fork, Stop, Unknown, Text, UNIT, CHAR_DOM
from ..lin import add, scale
from .. import lin as L
from .. import lexmon as X
from ..anchor import Group

SRC = ("src",)
LEN_MAX = 1 << 59
TOP = 1 << 63
OKV = ("A", 0, (UNIT,))

# ---------------------------------------------------------------- string bodies, character by character
PLAIN = L.d_sub(L.d_sub(((0x20, 0xD7FF), (0xE000, 0x10FFFF)), X.dset('"')), X.dset("\\"))
ESCAPES = {'"': 0x22, "\\": 0x5C, "/": 0x2F, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9}


def body(state):
    """[(chars, next, action)]: RFC 8259 string bodies.  Actions: char | lit code | digit | hi | done."""
    if state == 0:
        return [(PLAIN, 0, ("char",)), (X.dset("\\"), "e", None)]
    if state == "e":
        return [(X.dset(c), 0, ("lit", c, v)) for c, v in ESCAPES.items()] + [(X.dset("u"), ("h", "0"), None)]
    out = []
    for d, n in X.HX[state[1]]:
        if type(n) is tuple and n[0] == "bad":
            continue
        act = None if state[1] in ("hi\\", "hiu") else ("digit",)
        if type(n) is tuple:
            out.append((d, 0, ("done", n[1])))
        else:
            out.append((d, ("h", n), ("hi",) if n == "hi\\" else act))
    return out


_B = {}


def body_cached(state):
    r = _B.get(state)
    if r is None:
        r = _B[state] = body(state)
    return r


def minimal():
    """Fewest characters from each state to the end of an escape."""
    m = {0: 0}
    todo = [0]
    states = [0, "e"] + [("h", k) for k in X.HX]
    while True:
        ch = False
        for s in states:
            for d, n, a in body_cached(s):
                if n in m and m[n] + 1 < m.get(s, 99):
                    m[s] = m[n] + 1
                    ch = True
        if not ch:
            return m


MIN = minimal()


class BodyGen:
    """Contents of a valid JSON string with at least one escape (or none: esc False)."""
    dead = None

    def __init__(self, esc):
        self.esc = esc
        self.start = (0, not esc)

    def classes(self, g):
        st, seen = g
        if not self.esc:
            return [(PLAIN, g, ())]
        return [(d, (n, seen or st == "e"), ()) for d, n, a in body_cached(st)]

    def needs(self, g):
        st, seen = g
        if st == 0:
            return 0 if seen else 2
        return MIN[st]

    def ghosts(self):
        return ()


class Decoder:
    """Transducer from the characters of a string body to what they decode to; state in three ghosts."""

    def __init__(self, name):
        self.s, self.acc, self.hi = name + ".s", name + ".acc", name + ".hi"

    def reset(self, st):
        st.gh[self.s] = ("T", 0)
        st.gh[self.acc] = 0
        st.gh[self.hi] = 0

    def state(self, st):
        return st.gh[self.s][1]

    def feed(self, eng, st, v, ident=False):
        """(label, decoded character) | None (inside an escape) | "bad"."""
        if ident:
            return ("", v)
        s = self.state(st)
        cl = body_cached(s)
        i = pick(eng, st, v, [c[0] for c in cl])
        if i is None:
            return "bad"
        d, nx, act = cl[i]
        out = None
        if act is None:
            if s == "e":
                st.gh[self.acc] = 0
        elif act[0] == "char":
            out = ("", v)
        elif act[0] == "lit":
            out = ("\\" + act[1], act[2])
        else:
            dig = eng.pointwise(st, lambda x: int(chr(x), 16) if chr(x) in "0123456789abcdefABCDEF" else 0, v)
            if dig is None:
                raise Unknown("hex digit")
            acc = st.norm(add(scale(st.gh[self.acc], 16), dig))
            st.gh[self.acc] = acc
            if act[0] == "hi":
                st.gh[self.hi] = acc
                st.gh[self.acc] = 0
            elif act[0] == "done":
                if act[1] == 4:
                    cp = add(add(scale(add(st.gh[self.hi], -0xD800), 0x400), add(acc, -0xDC00)), 0x10000)
                else:
                    cp = acc
                out = ("\\u%d" % act[1], st.norm(cp))
                st.gh[self.acc] = 0
                st.gh[self.hi] = 0
        st.gh[self.s] = ("T", nx)
        return out


def pick(eng, st, v, doms):
    """Which of the disjoint sets v lies in (None: in none); forks until it is unique."""
    v = st.norm(v)
    if type(v) is int:
        for i, d in enumerate(doms):
            if L.d_has(d, v):
                return i
        return None
    if len(v.t) == 1 and v.t[0][0][1] == 0 and v.t[0][1] == 1 and v.c == 0:
        s = v.t[0][0][0]
        hits = []
        rest = st.dom[s]
        for i, d in enumerate(doms):
            x = L.d_and(st.dom[s], d)
            if x:
                hits.append((i, x))
                rest = L.d_sub(rest, x)
        if rest:
            hits.append((None, rest))
        if len(hits) == 1:
            return hits[0][0]
        raise Fork([(lambda x, d=d: x.restrict(s, d)) for _, d in hits])
    s = st.small_sym(v)
    if s is None:
        raise Unknown("character value %s" % (v,))
    groups = {}
    for x in L.d_vals(st.dom[s]):
        y = v.c + sum(k * (x if t == 0 else L.TABS[t][x]) for (_, t), k in v.t)
        i = next((i for i, d in enumerate(doms) if L.d_has(d, y)), None)
        groups.setdefault(i, []).append(x)
    if len(groups) == 1:
        return next(iter(groups))
    raise Fork([(lambda x, d=L.d_from(g): x.restrict(s, d)) for g in groups.values()])


def strip(eng, ty):
    while eng.tys[ty].k in ("ref", "ptr"):
        ty = eng.tys[ty].d["elem"]
    return ty


def jstring(eng, ty, kind, owned, text, info):
    """An abstract JsonString with this representation."""
    t = eng.tys[strip(eng, ty)]
    vals = []
    for name, fty, *_ in t.d["variants"][0]["fields"]:
        f = eng.tys[fty]
        if f.name.endswith("JsonStringInfo"):
            vals.append(("A", 0, (info,)))
        elif "StringContents" in f.name:
            vals.append(contents(eng, fty, kind, owned, text))
        else:
            raise Unknown("field %s of JsonString" % name)
    return ("A", 0, tuple(vals))


def contents(eng, ty, kind, owned, text):
    for i, v in enumerate(eng.tys[ty].d["variants"]):
        if v["name"] == ("Raw" if kind == "raw" else "Json"):
            return ("A", i, (anystr(eng, v["fields"][0][1], owned, text),))
    raise Unknown("StringContents")


def anystr(eng, ty, owned, text):
    for i, v in enumerate(eng.tys[ty].d["variants"]):
        if v["name"] == ("Owned" if owned else "Borrowed"):
            return ("A", i, (("B", "string", text) if owned else text,))
    raise Unknown("AnyStr")


def origin(tid, segs):
    g = Group(tid, segs, [], 1)
    g.origin = True
    return g


KINDS = ("esc", "plain", "raw")
SINK = ("o", ("sink",))
OBJ = ("o", ("self",))
FMT = ("o", ("fmt",))


class StrSpec(Spec):
    anchored = True
    max_steps = 3_000_000
    time_limit = 300
    text_max = LEN_MAX
    count_max = 6 * LEN_MAX

    def __init__(self, kind, what):
        self.kind = kind
        self.what = what          # decode | escape | from
        self.src = Decoder("src")
        self.out = Decoder("out")
        self.lens = {}
        self.table = None

    # ------------------------------------------------------------ set-up
    def setup(self, eng, st, ty, owned=False):
        kind = self.kind
        n = eng.param(st, 0, LEN_MAX, "len")
        t = Text("c", n, 0, None if kind == "raw" else BodyGen(kind == "esc"))
        st.texts[SRC] = t
        s = ("S", SRC, 0, n)
        st.gh["text"] = s
        self.src.reset(st)
        self.out.reset(st)
        st.gh["q"] = ("L", ())
        st.gh["esc"] = ("N", 0)
        st.gh["ol"] = 0
        st.gh["fail"] = 0
        if kind == "plain":
            info = n
        else:
            m = eng.param(st, 0, 6 * LEN_MAX, "n")
            if self.what in ("decode", "escape"):
                self.blur = L.syms_of(m) | (self.blur or set())
                self.blur = set(self.blur)
                self.blur_max = 6 * LEN_MAX
            else:
                st.add_fact(add(m, n, -1) if kind == "raw" else add(n, m, -1))
            info = add(m, TOP)
        if ty is not None:
            st.mem[OBJ] = jstring(eng, ty, kind, owned, s, info)
            eng.objty[OBJ] = strip(eng, ty)
            st.gh["info"] = ("N", st.norm(add(info, -TOP)) if kind != "plain" else n)
        return s

    def begin(self, eng, st, inst):
        args = [("R", OBJ, ())]
        for p in inst.params[1:]:
            t = eng.tys[strip(eng, p)]
            if t.name.startswith("std::vec::Vec"):
                st.mem[SINK] = ("B", "sink")
                eng.objty[SINK] = strip(eng, p)
                args.append(("R", SINK, ()))
            elif "Formatter" in t.name:
                st.mem[FMT] = ("B", "fmt")
                eng.objty[FMT] = strip(eng, p)
                args.append(("R", FMT, ()))
            elif t.k == "uint":
                args.append(eng.param(st, 0, (1 << 64) - 1, "k"))
            else:
                raise Unknown("parameter %s" % t.name)
        return args

    # ------------------------------------------------------------ reading
    def keep(self, eng, st, tid):
        if tid == SRC and (st.gh["q"][1] or self.src.state(st) != 0):
            return st.gh["esc"][1]
        return None

    def on_cell(self, eng, st, tid, pos, v, width):
        if tid != SRC:
            return
        s = self.src.state(st)
        r = self.src.feed(eng, st, v, self.kind == "raw")
        if r == "bad":
            raise Stop()
        if s == 0 and not st.gh["q"][1]:
            st.gh["esc"] = ("P", pos)
        if r is not None:
            st.gh["q"] = ("L", st.gh["q"][1] + (("A", 0, (r[0], r[1])),))

    def anchors(self, eng, st):
        if self.src.state(st) != 0 or self.out.state(st) != 0 or st.gh["q"][1]:
            return None
        st.gh["esc"] = ("N", 0)
        st.gh["ol"] = 0
        return self.here(st)

    def here(self, st):
        t = st.texts[SRC]
        if st.norm(t.fpos) == 0:
            return None         # nothing consumed yet: a reading position and the start of the text are one
        return [origin(SRC, [(0, None)])]

    # ------------------------------------------------------------ writing
    def intercept(self, eng, st, inst, a):
        d = inst.dfn
        if d == "jj_roots::obs::ev_choose":
            return eng.newsym(st, ((0, 1),), "c")
        if d.endswith("::push") and d.startswith("std::vec::Vec") and self.is_obj(eng, st, a[0], SINK):
            self.push(eng, st, a[1])
            return UNIT
        if "std::fmt::Formatter" in d and d.endswith("::write_char") and self.is_obj(eng, st, a[0], FMT):
            return self.write(eng, st, lambda: self.push(eng, st, a[1]))
        if "std::fmt::Formatter" in d and (d.endswith("::write_str") or d.endswith("::pad")) and self.is_obj(eng, st, a[0], FMT):
            return self.write(eng, st, lambda: self.push_str(eng, st, a[1]))
        return None

    def is_obj(self, eng, st, r, key):
        r = eng.force(st, r)
        return type(r) is tuple and r[0] == "R" and r[1] == key and not r[2]

    def write(self, eng, st, go):
        if st.gh["fail"] == 1:
            eng.violation(st, "write-after-error", "something is written after a write failed")
            raise Stop()
        if st.gh["fail"] == 0:
            # this write may fail
            raise Fork([lambda s: s.gh.__setitem__("fail", 2) or True, lambda s: s.gh.__setitem__("fail", 3) or True])
        if st.gh["fail"] == 3:
            st.gh["fail"] = 1
            return ("A", 1, (UNIT,))
        go()
        st.gh["fail"] = 0
        return OKV

    def label(self, st, v):
        v = st.norm(v)
        if type(v) is int:
            return "%X" % v
        return ""

    def push(self, eng, st, v):
        v = eng.num(st, v)
        what = self.what
        q = st.gh["q"][1]
        if what == "escape":
            self.push_escape(eng, st, v)
            return
        if not q:
            eng.violation(st, "decode-extra", "a character is produced that the source does not hold")
            raise Stop()
        lab, exp = q[0][2]
        # decided first, then consumed
        key = "decode-char:%s:%s:%s" % (lab, self.label(st, exp), self.label(st, v)) if self.off(st, v, exp) else "decode-char"
        ok = eng.require_eq(st, v, exp, key, "%s decodes to the wrong character" % (lab or "a plain character"))
        st.gh["q"] = ("L", q[1:])

    def off(self, st, v, exp):
        return type(st.norm(v)) is int and type(st.norm(exp)) is int and st.norm(v) != st.norm(exp)

    def push_escape(self, eng, st, v):
        q = st.gh["q"][1]
        vw = None
        if self.kind == "raw":
            from ..builtins import char_width
            vw = char_width(st, v)
        src = q[0][2][1] if q else None
        r = self.out.feed(eng, st, v)
        if r == "bad":
            eng.violation(st, "escape-invalid:%s" % self.label(st, src if src is not None else 0),
                          "the JSON form of a string holds %s where the grammar does not allow it" % (self.label(st, v) or "a character"))
            raise Stop()
        if vw is not None:
            ol = st.gh["ol"] + vw
            st.gh["ol"] = ol
        if r is None:
            eng.oblige("escape-valid")
            return
        if not q:
            eng.violation(st, "escape-extra", "the JSON form of a string holds a character its source does not")
            raise Stop()
        lab, exp = q[0][2]
        key = "escape-char:%s:%s" % (self.label(st, exp), self.label(st, r[1])) if self.off(st, r[1], exp) else "escape-char"
        eng.require_eq(st, r[1], exp, key, "the JSON form of a string decodes to another character")
        if vw is not None:
            e = st.norm(exp)
            dom = ((e, e),) if type(e) is int else st.dom[e.t[0][0][0]]
            self.lens.setdefault(st.gh["ol"], set()).add(dom)
            st.gh["ol"] = 0
        st.gh["q"] = ("L", q[1:])

    def push_str(self, eng, st, s):
        from ..builtins import as_slice, next_char
        s = as_slice(eng, st, s)
        if s[1] == SRC:
            t = st.texts[SRC]
            if st.is0(s[2]) and st.is0(add(s[3], t.len, -1)) and not t.cells and st.is0(t.fpos) and not st.gh["q"][1]:
                same = self.what == "escape" and self.kind != "raw" or self.what == "decode" and self.kind != "esc"
                if eng.require(st, same, "whole-text", "the text of a string is written out as it is, although it has to be %sd" % self.what):
                    st.gh["fail"] = 4
                    return
                raise Stop()
        if s[1][0] == "k":
            n = 0
            for c in s[1][1][st.norm(s[2]):st.norm(s[3])].decode():
                self.push(eng, st, ord(c))
            return
        raise Unknown("write of part of a text")

    # ------------------------------------------------------------ the end
    def complete(self, eng, st):
        key = self.what
        if st.gh["fail"] == 4:
            return
        t = st.texts[SRC]
        if st.gh["q"][1]:
            eng.violation(st, key + "-missing", "the %sd form ends before the last character it has to hold" % key)
            return
        if self.out.state(st) != 0:
            eng.violation(st, key + "-torn", "the JSON form ends inside an escape sequence")
            return
        if self.src.state(st) != 0:
            eng.violation(st, key + "-short", "the %sd form ends inside an escape sequence of its source" % key)
            return
        from ..builtins import need_more
        need_more(eng, st, SRC, eng.text_end(t))
        rest = add(t.len, eng.text_end(t), -1)
        eng.require(st, st.need_is0(rest), key + "-short", "the %sd form ends before its source does" % key)

    def on_return(self, eng, st, val):
        t = eng.tys[st.frames[-1].inst.ret] if st.frames[-1].inst.ret is not None else None
        if t is not None and "Result" in t.name:
            v = eng.force(st, val)
            if st.gh["fail"] == 1:
                eng.require(st, v[1] == 1, "write-error", "a failed write is reported as a success")
                return
            if v[1] == 1:
                eng.violation(st, "write-error", "an error is reported although every write succeeded")
                return
        self.complete(eng, st)

    def boundary(self, eng, st, s, pos):
        return None


BUF = ("B", "buf")
UNSAFE = ((0, 0x1F), (0x22, 0x22), (0x5C, 0x5C))
SAFE = L.d_sub(((0, 0x10FFFF),), UNSAFE)


class IfNeededSpec(StrSpec):
    """decode_if_needed() / escape_if_needed(): a string built by pushing, or the text itself."""

    def setup(self, eng, st, ty, owned=False):
        s = StrSpec.setup(self, eng, st, ty, owned)
        st.gh["bufs"] = 0
        st.gh["scan"] = 0           # 1: looked at some of the text, 2: and saw what has to be changed
        st.gh["owned"] = int(owned)
        return s

    def on_cell(self, eng, st, tid, pos, v, width):
        if tid == SRC and self.what == "escape" and self.kind == "raw" and not st.gh["bufs"]:
            pick(eng, st, v, [SAFE, UNSAFE])
        StrSpec.on_cell(self, eng, st, tid, pos, v, width)

    def scan(self, st):
        """What the part of the text says that was looked at before anything was written."""
        k = 0
        for e in st.gh["q"][1]:
            lab, c = e[2]
            lo, hi = st.rng(c)
            if self.what == "decode":
                k = max(k, 2 if lab else 1)
            else:
                k = max(k, 2 if hi < 0x20 or lo == hi and lo in (0x22, 0x5C) else 1)
        return max(k, st.gh["scan"])

    def anchors(self, eng, st):
        if st.gh["q"][1] and not st.gh["bufs"] and self.src.state(st) == 0:
            st.gh["scan"] = self.scan(st)
            st.gh["q"] = ("L", ())
        return StrSpec.anchors(self, eng, st)

    def intercept(self, eng, st, inst, a):
        d = inst.dfn
        if d in ("std::string::String::new", "std::string::String::with_capacity") or (d.endswith("Default>::default") and "String" in d):
            if st.gh["bufs"]:
                raise Unknown("a second String")
            st.gh["bufs"] = 1
            return BUF
        if d in ("std::string::String::push", "std::string::String::push_str", "std::string::String::reserve"):
            if self.target(eng, st, a[0]) != BUF:
                raise Unknown("push to another String")
            if d.endswith("push"):
                self.push(eng, st, a[1])
            elif d.endswith("push_str"):
                self.push_str(eng, st, a[1])
            return UNIT
        if d == "<std::string::String as std::clone::Clone>::clone":
            v = self.target(eng, st, a[0])
            if type(v) is tuple and v[0] == "B" and v[1] == "string":
                return v
        return StrSpec.intercept(self, eng, st, inst, a)

    def target(self, eng, st, r):
        return eng.force(st, eng.load(st, eng.deref(st, r, None)))

    def on_return(self, eng, st, val):
        val = eng.force(st, val)
        v = eng.force(st, val[2][0])
        if v == BUF:
            if self.kind != ("esc" if self.what == "decode" else "raw"):
                eng.violation(st, "copied", "a text that has to be neither decoded nor escaped is copied")
                return
            self.complete(eng, st)
            return
        if st.gh["bufs"]:
            raise Unknown("a String was started and something else returned")
        if type(v) is tuple and v[0] == "B" and v[1] == "string":
            v = v[2]
            eng.require(st, st.gh["owned"] == 1, "copied", "a borrowed text that has to be neither decoded nor escaped is copied")
        if self.looked(eng, st, v):
            return
        self.push_str(eng, st, v)
        if st.gh["fail"] != 4:
            self.complete(eng, st)

    def looked(self, eng, st, s):
        """The text itself is returned after it was looked at."""
        from ..builtins import as_slice, need_more
        s = as_slice(eng, st, s)
        t = st.texts[SRC]
        if s[1] != SRC or self.kind != ("esc" if self.what == "decode" else "raw") or not (st.gh["q"][1] or st.gh["scan"]):
            return False
        if not (st.is0(s[2]) and st.is0(add(s[3], t.len, -1))):
            return False
        if self.src.state(st) == 0 and self.scan(st) < 2 and st.need_is0(add(t.len, eng.text_end(t), -1)):
            eng.oblige("whole-text")
        else:
            eng.violation(st, "whole-text", "the text of a string is returned as it is, although it has to be %sd" % self.what)
        return True


class HintSpec(StrSpec):
    """size_hint() after any number of steps."""

    def __init__(self, kind, what, table):
        StrSpec.__init__(self, kind, what)
        self.table = table

    def setup(self, eng, st, ty, owned=False):
        s = StrSpec.setup(self, eng, st, ty, owned)
        st.gh["pend"] = 0
        return s

    def on_cell(self, eng, st, tid, pos, v, width):
        if tid != SRC:
            return
        if self.what == "escape":
            if self.kind == "raw":
                i = pick(eng, st, v, [d for d, n in self.table])
                w = self.table[i][1]
                k = (w if w != width else 1) if i is not None else 1
            else:
                k = 1
            st.gh["pend"] = st.gh["pend"] + k
            return
        if self.src.state(st) == 0:
            st.gh["esc"] = ("P", pos)
        r = self.src.feed(eng, st, v, self.kind == "raw")
        if r is not None:
            st.gh["pend"] = st.gh["pend"] + 1

    def push(self, eng, st, v):
        st.gh["pend"] = max(0, st.gh["pend"] - 1)
        if self.what == "decode":
            st.gh["esc"] = ("N", 0)

    def keep(self, eng, st, tid):
        if tid == SRC and (st.gh["pend"] or self.src.state(st) != 0) and self.what == "decode":
            return st.gh["esc"][1]
        return None

    def anchors(self, eng, st):
        if self.src.state(st) != 0:
            return None
        if self.what == "decode":
            if st.gh["pend"]:
                return None
            st.gh["esc"] = ("N", 0)
        return self.here(st)

    def on_return(self, eng, st, val):
        t = st.texts[SRC]
        v = eng.force(st, val)
        lo = eng.num(st, v[2][0])
        hi = eng.force(st, v[2][1])
        r = st.norm(add(t.len, eng.text_end(t), -1))
        pend = st.gh["pend"]
        k = 6 if self.what == "escape" and self.kind == "raw" else 1
        if hi[1] == 1:
            eng.require_ge(st, eng.num(st, hi[2][0]), add(scale(r, k), pend), "size-hint-upper",
                           "the upper bound of size_hint() is less than what the iterator can still produce")
        d = 12 if self.what == "decode" and self.kind == "esc" else 4
        # lo <= ceil(r / d) + pend   <=>   d * (lo - pend) <= r + d - 1
        eng.require_ge(st, add(r, d - 1), scale(add(lo, -pend), d), "size-hint-lower",
                       "the lower bound of size_hint() is more than what the iterator may still produce")


class FromSpec(StrSpec):
    """JsonString::from(text): what the result says about itself."""
    what = "from"

    def __init__(self, table):
        StrSpec.__init__(self, "raw", "from")
        self.table = table

    def setup(self, eng, st, ty, owned=False):
        s = StrSpec.setup(self, eng, st, None)
        st.gh["n"] = ("N", 0)
        st.gh["needs"] = 0
        return s

    def on_cell(self, eng, st, tid, pos, v, width):
        if tid != SRC:
            return
        i = pick(eng, st, v, [d for d, n in self.table])
        if i is None:
            raise Unknown("length of the JSON form of this character")
        w = self.table[i][1]
        st.gh["n"] = ("N", st.norm(add(st.gh["n"][1], w)))
        if w != width:
            st.gh["needs"] = 1

    def keep(self, eng, st, tid):
        return None

    def anchors(self, eng, st):
        t = st.texts[SRC]
        if not st.gh["needs"]:
            # so far every character stands for itself
            end = eng.text_end(t)
            if st.norm(t.fpos) != 0 and st.const_diff(st.gh["n"][1], end) == 0:
                return [origin(SRC, [(0, (st.gh["n"][1], 0))])]
        return self.here(st)


    def counters(self, eng, st):
        return (st.gh["n"][1],) if st.gh["needs"] else ()

    def intercept(self, eng, st, inst, a):
        d = inst.dfn
        if d.startswith("jj_roots::obs::ev_jstr"):
            self.check(eng, st, inst, a[0])
            return UNIT
        return None

    def check(self, eng, st, inst, v):
        from .lexing import check_string
        v = eng.force(st, v)
        ty = inst.params[0]
        names = [f[0] for f in eng.tys[ty].d["variants"][0]["fields"]]
        g = {k: eng.force(st, x) for k, x in zip(names, v[2])}
        t = st.texts[SRC]
        needs = st.gh["needs"]
        n = st.gh["n"][1]
        if not eng.require(st, st.need_is0(add(t.len, eng.text_end(t), -1)), "from-short", "the text is not examined to its end"):
            return
        if g["enc"][1] == 1:
            if eng.require(st, not needs, "from-encoded", "a text that has to be escaped is taken for its own JSON form"):
                self.whole(eng, st, g["enc"][2][0], "from-encoded", "as_json_str() is not the text")
        if eng.require(st, g["plain"][1] == 1, "from-plain", "as_str() of a string made from a text is None"):
            self.whole(eng, st, g["plain"][2][0], "from-plain", "as_str() of a string made from a text is not the text")
        eng.require_eq(st, eng.num(st, g["len"]), n, "from-len", "len() of a string made from a text is not the length of its JSON form")
        eng.require_eq(st, eng.num(st, g["dlen"]), t.len, "from-decoded-len", "decoded_len() of a string made from a text is not its length")
        e = eng.num(st, g["empty"])
        z = st.need_is0(t.len)
        eng.require(st, (e == 1) == bool(z), "from-empty", "is_empty() is wrong")

    def whole(self, eng, st, s, key, msg):
        from ..builtins import as_slice
        s = as_slice(eng, st, s)
        t = st.texts[SRC]
        if s[1] != SRC:
            eng.violation(st, key, msg)
            return
        eng.require_eq(st, s[2], 0, key, msg)
        eng.require_eq(st, s[3], t.len, key, msg)

    def on_return(self, eng, st, val):
        pass


class AccSpec(StrSpec):
    """Accessors of each representation."""

    def __init__(self, kind):
        StrSpec.__init__(self, kind, "acc")

    def on_return(self, eng, st, val):
        name = st.frames[-1].inst.dfn.rsplit("::", 1)[1]
        ln = st.texts[SRC].len if SRC in st.texts else None
        s = st.gh["text"]
        n = st.gh["info"][1]
        if name in ("js_len", "js_decoded_len", "js_is_empty"):
            v = eng.num(st, val)
            enc = s[3] if self.kind != "raw" else n
            dec = s[3] if self.kind == "raw" else n
            if name == "js_len":
                eng.require_eq(st, v, enc, "len", "len() is not the length of the JSON form")
            elif name == "js_decoded_len":
                eng.require_eq(st, v, dec, "decoded-len", "decoded_len() is not the length of the decoded form")
            else:
                eng.require(st, bool(v) == bool(st.need_is0(enc)), "is-empty", "is_empty() is wrong")
            return
        v = eng.force(st, val)
        has = {"js_as_str": self.kind != "esc", "js_as_json_str": self.kind != "raw"}[name]
        if eng.require(st, (v[1] == 1) == has, name[3:].replace("_", "-"), "%s() is %s for a %s string" % (name[3:], "None" if has else "Some", self.kind)) and has:
            from ..builtins import as_slice
            x = eng.force(st, v[2][0])
            if x[0] == "R":
                y = eng.force(st, eng.load(st, eng.deref(st, x, None)))
                if type(y) is tuple and y[0] == "A":
                    x = y[2][0]
                    x = eng.force(st, x)
                    if type(x) is tuple and x[0] == "B" and x[1] == "string":
                        x = x[2]
            x = as_slice(eng, st, x)
            eng.require(st, x[1] == SRC and st.is0(x[2]) and st.is0(add(x[3], s[3], -1)), name[3:].replace("_", "-"), "%s() is not the text" % name[3:])


def run(prog, spec, root, owned=(False,)):
    from ..exec import Engine
    from ..engine import State
    eng = Engine(prog, spec)
    inst = prog.roots[root]
    for o in owned:
        st = State()
        spec.setup(eng, st, inst.params[0], o)
        eng.start(inst, st, spec.begin(eng, st, inst))
        eng.push(st)
    eng.loop()
    return eng


def escape_table(spec):
    """[(characters, length of their JSON form)] as established by the escape analysis, or None."""
    out = []
    seen = ()
    for n, doms in spec.lens.items():
        d = ()
        for x in doms:
            d = L.d_or(d, x)
        if L.d_and(seen, d):
            return None
        seen = L.d_or(seen, d)
        out.append((d, n))
    if L.d_sub(CHAR_DOM, seen):
        return None
    return out


def run_from(prog, table, owned):
    from ..exec import Engine
    from ..engine import State
    spec = FromSpec(table)
    eng = Engine(prog, spec)
    inst = prog.roots["js_from_string_obs" if owned else "js_from_str_obs"]
    st = State()
    s = spec.setup(eng, st, None)
    eng.start(inst, st, [("B", "string", s) if owned else s])
    eng.run_root(st)
    return eng
