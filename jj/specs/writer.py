"""Writing a value: the pieces handed to the writer are the value's JSON form, in the compact or the indented layout.

The JSON form of a string (AsJson, established by C14) and the source of a number are single pieces."""
import re

from ..engine import Fork, Stop, Unknown, ISIZE_MAX, UNIT
from ..lin import add, syms_of
from ..context import full
from ..anchor import Group
from ..builtins import deref, elem_ref, as_slice, slen
from .seqs import find_vec, pushed
from .unit import Unit, run_unit, same
from .values import args_of, elem, vec_elem_of

NONE = ("T", None)
OKV = ("A", 0, (UNIT,))
WRITE = re.compile(r"::(write_str|write_char|write_fmt|push_str|push|pad)$")
ASJSON = re.compile(r"^justjson::JsonString::<.*>::as_json$")
NEWARG = re.compile(r"fmt::rt::Argument::<.*>::new_display$")
NEWARGS = re.compile(r"^std::fmt::Arguments::<.*>::(new|from_str|from_str_nonconst)$")
STRNEW = re.compile(r"^std::string::String::(new|with_capacity)$")
ALT = re.compile(r"^std::fmt::Formatter::<.*>::alternate$")
OPT = re.compile(r"^std::fmt::Formatter::<.*>::(width|precision)$")
FLAG = re.compile(r"^std::fmt::Formatter::<.*>::(sign_plus|sign_minus|sign_aware_zero_pad)$")


class F:
    def __init__(self, v):
        self.kind, self.state, self.ref, self.seq, p = v[2]
        self.pos = p[1] or 0

    def pack(self):
        return ("A", 0, (self.kind, self.state, self.ref, self.seq, NONE if self.seq == NONE else ("P", self.pos)))


def frame(kind, state, ref=NONE, seq=NONE):
    return ("A", 0, (kind, state, ref, seq, NONE if seq == NONE else ("P", 0)))


def lit(s):
    return ("T", s.encode())


class Write(Unit):
    anchored = True
    time_limit = 200
    max_visits = 60

    def __init__(self, root, pretty):
        Unit.__init__(self, self.setup0, self.check0, self.hook0)
        self.root = root
        self.pretty = pretty        # False | True (two spaces and a line feed) | "custom" | "alternate"
        self.key = "write:" + root

    # ------------------------------------------------------------ abstraction
    def setup0(self, _, eng, st):
        inst = self.inst
        fixed = {}
        for i, ty in enumerate(inst.params):
            t = eng.tys[ty]
            if t.k == "ref" and "Formatter" in eng.tys[elem(eng, ty)].name:
                fixed[i] = self.obj(eng, st, elem(eng, ty), "fmt", ("B", "sink"))
        a = args_of(self, eng, st, inst, fixed)
        st.gh["stk"] = ("L", (frame("root", "v", a[0]),))
        st.gh["pend"] = ("L", ())
        st.gh["cdep"] = ("N", 0)
        st.gh["fail"] = 0
        st.gh["far"] = ("L", ())
        st.gh["pretty"] = 2 if self.pretty == "alternate" else int(bool(self.pretty))
        st.gh["texts"] = ("L", ())
        if self.pretty == "custom":
            st.gh["texts"] = ("L", tuple(eng.force(st, x) for x in a[1:3]))
        return a

    def vty(self, eng):
        return elem(eng, self.inst.params[0])

    def keep(self, eng, st, tid):
        for f in st.gh["stk"][1]:
            f = F(f)
            if f.seq != NONE and f.seq[1] == tid:
                return st.norm(add(f.pos, 1)) if f.state == "after" else f.pos
        return None

    def anchors(self, eng, st):
        out = []
        for f in st.gh["stk"][1]:
            f = F(f)
            pos = st.norm(f.pos)
            # constants are not taken for positions where they may be depths
            if type(pos) is not int or pos > (3 if self.shallow(st) else 0):
                g = Group(f.seq[1], [(f.pos, None)])
                g.follow = True
                out.append(g)
        return out

    def shallow(self, st):
        d = st.norm(st.gh["cdep"][1])
        return type(d) is int and d < 2

    def counters(self, eng, st):
        if self.shallow(st):
            return []
        for p in st.gh["pend"][1]:
            if p[0] == "A" and p[2][0] == "ind":
                d, r = p[2][1][1], p[2][2][1]
                return [d, r] + [(d, r, k) for k in (0, -1, 1, 2)]
        return [st.gh["cdep"][1]]

    def entry_anchors(self, st):
        return ("cdep",)

    def frozen(self, eng, ty):
        return ty is not None and eng.tys[ty].name.startswith(("justjson::Value", "justjson::Entry", "justjson::value::Entry", "justjson::JsonString"))

    def at_exit(self, eng, st):
        st.gh["far"] = ("L", ())
        if st.gh["fail"] == 1:
            # once a write has failed, counts do not matter any more
            for k in st.ctx.pins:
                if not self.frozen(eng, eng.objty[k]) and k in st.mem:
                    st.mem[k] = self.forget(eng, st, full(eng, st, st.mem[k]), eng.objty[k])

    def forget(self, eng, st, v, ty):
        if type(v) is tuple and v[0] == "A":
            return ("A", v[1], tuple(self.forget(eng, st, x, eng.field_ty(ty, v[1], i)) for i, x in enumerate(v[2])))
        if type(v) is tuple or eng.tys[ty].k != "uint" or eng.tys[ty].d["bits"] < 32:
            return v
        n = eng.newsym(st, ((0, ISIZE_MAX),), "d")
        st.free.update(syms_of(n))
        st.relaxed.update(syms_of(n))
        return n

    def depth(self, st):
        return add(st.gh["cdep"][1], len([f for f in st.gh["stk"][1] if f[2][0] in ("Object", "Array")]))

    def enter(self, eng, st):
        if st.gh["fail"] == 1:
            return {"cdep": st.gh["cdep"]}
        while True:
            p = st.gh["pend"][1]
            if not p:
                f = F(st.gh["stk"][1][-1])
                if f.state == "v" or f.state == "m" and f.kind == "Array" or not self.advance(eng, st):
                    break
            else:
                break
        stk = st.gh["stk"][1]
        f = F(stk[-1])
        if f.state == "m" and f.kind == "Array":
            f = self.member(eng, st, f)
        saved = {"cdep": st.gh["cdep"], "stk": stk[:-1], "top": f.pack(), "far": st.gh["far"]}
        if f.state != "v":
            raise Unknown("a recursive call where no value is due (%s)" % f.state)
        st.gh["cdep"] = ("N", self.depth(st))
        st.gh["stk"] = ("L", (frame("bot", "v", f.ref),))
        st.gh["far"] = ("L", ())
        return saved

    def leave(self, eng, saved, st):
        if st.gh["fail"] == 1:
            st.gh["cdep"] = saved["cdep"]
            st.gh["far"] = ("L", ())
            return
        st.gh["far"] = saved["far"]
        stk = st.gh["stk"][1]
        b, f = F(stk[0]), F(saved["top"])
        if b.state != "v":
            f.state = "after" if f.kind in ("Object", "Array") else "done"
            f.ref = NONE
        st.gh["stk"] = ("L", saved["stk"] + (f.pack(),) + stk[1:])
        st.gh["cdep"] = saved["cdep"]

    # ------------------------------------------------------------ layout
    def line(self, st, depth):
        if not self.is_pretty(st):
            return ()
        return (("A", 0, ("eol",)), ("A", 0, ("ind", ("N", 0), ("N", depth))))

    def is_pretty(self, st):
        p = st.gh["pretty"]
        if p == 2:
            raise Fork([lambda s: s.gh.__setitem__("pretty", 0) or True, lambda s: s.gh.__setitem__("pretty", 1) or True])
        return p == 1

    def unit(self, st, what):
        """The text of an indentation or a line ending."""
        t = st.gh["texts"][1]
        if t:
            return t[0] if what == "ind" else t[1]
        return lit("  " if what == "ind" else "\n")

    def member(self, eng, st, f):
        e = elem_ref(eng, st, f.seq, f.pos)
        if f.kind == "Object":
            names = [x[0] for x in eng.tys[self.entty(eng)].d["variants"][0]["fields"]]
            k = ("R", e[1], e[2] + (names.index("key"),))
            e = ("R", e[1], e[2] + (names.index("value"),))
            st.gh["pend"] = ("L", (lit('"'), ("A", 0, ("json", k)), lit('": ' if self.is_pretty(st) else '":')))
        f.ref = e
        f.state = "v"
        return f

    def entty(self, eng):
        t = eng.tys[self.vty(eng)]
        for v in t.d["variants"]:
            if v["name"] == "Object":
                return vec_elem_of(eng, v["fields"][0][1])

    def advance(self, eng, st):
        """What is due next goes to st.gh["pend"]; False if nothing is."""
        stk = st.gh["stk"][1]
        f = F(stk[-1])
        if f.state == "done":
            if f.kind == "bot":
                raise Unknown("more is written than the value in a recursive call")
            return False
        pend = ()
        up = stk[:-1]
        if f.state == "v":
            r = eng.rv(st, f.ref)
            v = deref(eng, st, r)
            name = eng.tys[self.vty(eng)].d["variants"][v[1]]["name"]
            container = name in ("Object", "Array")
            if container:
                s = find_vec(eng, st, v[2][0])
                if s is None or pushed(s[1]):
                    raise Unknown("no elements")
                pend = (lit("{" if name == "Object" else "["),)
            elif name == "Null":
                pend = (lit("null"),)
            elif name == "Boolean":
                b = eng.num(st, v[2][0])
                pend = (lit("false" if st.need_is0(b) else "true"),)
            elif name == "String":
                pend = (lit('"'), ("A", 0, ("json", ("R", r[1], r[2] + (0,)))), lit('"'))
            else:
                pend = (("A", 0, ("num", self.text(eng, st, v[2][0]))),)
            f.state = "after" if f.kind in ("Object", "Array") else "done"
            f.ref = NONE
            up += (f.pack(),)
            if container:
                up += (frame(name, "open", NONE, s[1][2]),)
        elif f.state == "open":
            if st.need_is0(slen(eng, st, f.seq)):
                pend = (lit("}" if f.kind == "Object" else "]"),)
            else:
                pend = self.line(st, self.depth(st))
                f.state = "m"
                up += (f.pack(),)
        elif f.state == "m":
            f = self.member(eng, st, f)
            pend = st.gh["pend"][1]
            up += (f.pack(),)
        elif f.state == "after":
            n = add(add(slen(eng, st, f.seq), f.pos, -1), -1)
            if st.need_is0(n):
                # what was remembered of its elements is of no use any more
                st.gh["far"] = ("L", tuple(e for e in st.gh["far"][1] if e[2][0][1] != f.seq[1]))
                pend = self.line(st, add(self.depth(st), -1)) + (lit("}" if f.kind == "Object" else "]"),)
            else:
                f.pos = st.norm(add(f.pos, 1))
                f.state = "m"
                up += (f.pack(),)
                pend = (lit(","),) + self.line(st, self.depth(st))
        st.gh["stk"] = ("L", up)
        st.gh["pend"] = ("L", pend)
        return True

    def text(self, eng, st, v):
        v = eng.force(st, v)
        while type(v) is tuple and v[0] == "R":
            v = deref(eng, st, v)
        if v[0] == "A" and len(v[2]) == 1:
            return self.text(eng, st, v[2][0])
        if v[0] == "B" and v[1] == "string":
            v = v[2]
        if v[0] != "S":
            raise Unknown("no text")
        return v

    # ------------------------------------------------------------ what is written
    def bad(self, eng, st, msg):
        eng.violation(st, self.key, msg)
        raise Stop()

    def due(self, eng, st):
        """The next piece that is due: a bytes literal, a slice or ("A", 0, (kind, …)); None at the end."""
        while True:
            p = st.gh["pend"][1]
            if not p:
                if not self.advance(eng, st):
                    return None
                continue
            x = p[0]
            if x[0] == "T":
                if x[1]:
                    return x
            elif x[2][0] in ("eol", "ind"):
                kind = x[2][0]
                u = self.unit(st, kind)
                if u[0] == "S" and st.need_is0(slen(eng, st, u)):
                    # nothing to write
                    st.gh["pend"] = ("L", p[1:])
                    continue
                if kind == "ind" and st.need_is0(x[2][2][1]):
                    st.gh["pend"] = ("L", p[1:])
                    continue
                if u[0] == "T":
                    if kind == "ind":
                        self.step(st, x)
                        st.gh["pend"] = ("L", (u,) + st.gh["pend"][1])
                    else:
                        st.gh["pend"] = ("L", (u,) + p[1:])
                    continue
                return u
            else:
                return x
            st.gh["pend"] = ("L", p[1:])

    def step(self, st, x):
        d, r = x[2][1][1], x[2][2][1]
        st.gh["pend"] = ("L", (("A", 0, ("ind", ("N", st.norm(add(d, 1))), ("N", st.norm(add(r, -1))))),) + st.gh["pend"][1][1:])

    def took(self, st):
        """The piece that was due has been written."""
        x = st.gh["pend"][1][0]
        if x[0] == "A" and x[2][0] == "ind":
            self.step(st, x)
        else:
            st.gh["pend"] = ("L", st.gh["pend"][1][1:])

    def show(self, x):
        if x is None:
            return "nothing"
        if x[0] == "T":
            return repr(x[1].decode())
        if x[0] == "S":
            return "a line ending or indentation"
        return {"json": "the JSON form of a string", "num": "a number"}[x[2][0]]

    def literal(self, eng, st, w):
        while w:
            x = self.due(eng, st)
            if x is None:
                self.bad(eng, st, "%r is written after the value" % w.decode("utf8", "replace"))
            if x[0] == "A" and x[2][0] == "num":
                # a number's text, written in pieces of constant text?
                if len(st.texts[x[2][1][1]].cells):
                    raise Unknown("a number is written in another form")
            if x[0] != "T" or x[1][0] != w[0]:
                self.bad(eng, st, "%r is written where %s is due" % (w.decode("utf8", "replace"), self.show(x)))
            n = 0
            while n < len(w) and n < len(x[1]) and w[n] == x[1][n]:
                n += 1
            st.gh["pend"] = ("L", ((("T", x[1][n:]),) if n < len(x[1]) else ()) + st.gh["pend"][1][1:])
            w = w[n:]
        eng.oblige(self.key)

    def piece(self, eng, st, s):
        """A text is written."""
        if s[1][0] == "k":
            lo, hi = st.norm(s[2]), st.norm(s[3])
            if type(lo) is not int or type(hi) is not int:
                raise Unknown("part of a constant text")
            self.literal(eng, st, bytes(s[1][1][lo:hi]))
            return
        while True:
            # a line ending or indentation that is given may be empty: written as such it counts all the same
            if not st.gh["pend"][1] and not self.advance(eng, st):
                break
            x = st.gh["pend"][1][0]
            if x[0] != "A" or x[2][0] not in ("eol", "ind"):
                break
            u = self.unit(st, x[2][0])
            if u[0] != "S" or u[1] != s[1] or not (st.is0(add(u[2], s[2], -1)) and st.is0(add(u[3], s[3], -1))):
                break
            if x[2][0] == "ind" and st.need_is0(x[2][2][1]):
                st.gh["pend"] = ("L", st.gh["pend"][1][1:])
                continue
            eng.oblige(self.key)
            self.took(st)
            return
        x = self.due(eng, st)
        want = x[2][1] if x is not None and x[0] == "A" and x[2][0] == "num" else x if x is not None and x[0] == "S" else None
        if want is not None and want[1] == s[1]:
            if not (st.is0(add(want[2], s[2], -1)) and st.is0(add(want[3], s[3], -1))):
                raise Unknown("part of a text is written")
            eng.oblige(self.key)
            self.took(st)
            return
        if st.need_is0(slen(eng, st, s)):
            return
        own = any(t[0] == "S" and t[1] == s[1] for t in st.gh["texts"][1])
        if not own and x is not None and x[0] == "A" and x[2][0] == "json" or not own and x is not None and x[0] == "T" and x[1] == b'"' and len(st.gh["pend"][1]) > 1:
            raise Unknown("a string's own text is written")
        self.bad(eng, st, "another text is written where %s is due" % self.show(x))

    def json(self, eng, st, r):
        x = self.due(eng, st)
        if x is None or x[0] != "A" or x[2][0] != "json":
            self.bad(eng, st, "the JSON form of a string is written where %s is due" % self.show(x))
        w = eng.rv(st, x[2][1])
        eng.require(st, r[1] == w[1] and r[2] == w[2], self.key, "another string is written than the one that is due")
        self.took(st)

    def template(self, eng, st, v):
        """The pieces of fmt::Arguments: bytes or ("B", "fmtarg", …)."""
        v = eng.force(st, v)
        if v[0] != "B" or v[1] != "fmtargs":
            raise Unknown("formatting arguments")
        s = as_slice(eng, st, v[2])
        if v[3] == NONE:
            return [s]
        if s[0] == "S" and s[1][0] == "k":
            b = bytes(s[1][1])
        elif s[0] == "SL":
            arr = deref(eng, st, v[2])
            b = bytes(eng.num(st, x) for x in arr[1])
        else:
            raise Unknown("formatting template")
        args = deref(eng, st, v[3])[1]
        out, i, n = [], 0, 0
        while b[i]:
            c = b[i]
            if c < 0x80:
                out.append(b[i + 1:i + 1 + c])
                i += 1 + c
            elif c == 0x80:
                k = b[i + 1] | b[i + 2] << 8
                out.append(b[i + 3:i + 3 + k])
                i += 3 + k
            elif c == 0xc0:
                out.append(args[n])
                n += 1
                i += 1
            else:
                raise Unknown("formatting options")
        return out

    def display(self, eng, st, x):
        x = eng.force(st, x)
        if x[0] != "B" or x[1] != "fmtarg":
            raise Unknown("formatting argument")
        r = eng.force(st, x[3])
        v = deref(eng, st, r)
        n = 0
        while type(v) is tuple and v[0] == "R" and n < 4:
            r, v = v, deref(eng, st, v)
            n += 1
        if type(v) is tuple and v[0] == "B" and v[1] == "asjson":
            self.json(eng, st, eng.force(st, v[2]))
        elif type(v) is tuple and v[0] == "S":
            self.piece(eng, st, v)
        elif x[2][1] and "JsonString" in x[2][1] and eng.rv(st, eng.load(st, eng.deref(st, r, None)))[0] == "O":
            self.bad(eng, st, "a string is written out decoded")
        else:
            raise Unknown("display of %s" % x[2][1])

    # ------------------------------------------------------------ calls
    def is_sink(self, eng, st, inst, r):
        if inst.dfn.startswith("<jj_roots::del::Wr as"):
            return True
        for _ in range(4):
            r = eng.force(st, r)
            if type(r) is not tuple:
                return False
            if r[0] == "B":
                return r[1] == "sink"
            if r[0] != "R":
                return False
            try:
                r = eng.load(st, eng.deref(st, r, None))
            except Unknown:
                return False
        return False

    def hook0(self, _, eng, st, inst, a):
        d = inst.dfn
        if ASJSON.match(d):
            return ("B", "asjson", eng.force(st, a[0]))
        if NEWARG.search(d):
            return ("B", "fmtarg", ("T", eng.tys[elem(eng, inst.params[0])].name), a[0])
        m = NEWARGS.match(d)
        if m:
            return ("B", "fmtargs", a[0], a[1] if m.group(1) == "new" else NONE)
        if STRNEW.match(d):
            if "out" in st.gh:
                raise Unknown("several strings are built")
            st.gh["out"] = 1
            return ("B", "sink")
        if ALT.match(d) and self.is_sink(eng, st, inst, a[0]):
            return int(self.is_pretty(st))
        m = OPT.match(d) or FLAG.match(d)
        if m and self.is_sink(eng, st, inst, a[0]):
            # the caller's format specification: any
            k = "fmt:" + m.group(1)
            if k not in st.gh:
                raise Fork([lambda s: s.gh.__setitem__(k, 0) or True, lambda s: s.gh.__setitem__(k, 1) or True])
            if FLAG.match(d):
                return st.gh[k]
            return ("A", 1, (eng.newsym(st, ((0, 65535),), "d"),)) if st.gh[k] else ("A", 0, ())
        m = WRITE.search(d)
        if m and a and self.is_sink(eng, st, inst, a[0]):
            return self.write(eng, st, inst, m.group(1), a)
        if d.startswith("std::string::String::reserve") and self.is_sink(eng, st, inst, a[0]):
            return UNIT
        return None

    def write(self, eng, st, inst, op, a):
        never = op.startswith("push") or "out" in st.gh
        if not never:
            if st.gh["fail"] == 1:
                eng.violation(st, self.key + ":after-error", "something is written after a write failed")
                raise Stop()
            if st.gh["fail"] == 0:
                # this write may fail
                raise Fork([lambda s: s.gh.__setitem__("fail", 2) or True, lambda s: s.gh.__setitem__("fail", 3) or True])
            if st.gh["fail"] == 3:
                st.gh["fail"] = 1
                st.gh["pend"] = ("L", ())
                st.gh["stk"] = ("L", (frame("dead", "v"),))
                st.gh["far"] = ("L", ())
                return ("A", 1, (UNIT,))
            st.gh["fail"] = 0
        if op in ("write_char", "push"):
            c = eng.num(st, a[1])
            if type(c) is not int:
                raise Unknown("a character is written that is not known")
            self.literal(eng, st, chr(c).encode())
        elif op == "write_fmt":
            for x in self.template(eng, st, a[1]):
                if type(x) is bytes:
                    self.literal(eng, st, x)
                elif x[0] == "S":
                    self.piece(eng, st, x)
                else:
                    self.display(eng, st, x)
        else:
            s = as_slice(eng, st, a[1])
            if s[0] != "S":
                raise Unknown("text that is written")
            self.piece(eng, st, s)
        return UNIT if op.startswith("push") else OKV

    # ------------------------------------------------------------ the end
    def check0(self, _, eng, st, val):
        v = eng.force(st, val)
        if v == ("B", "sink"):
            pass
        elif v[0] == "A":
            if st.gh["fail"] == 1:
                eng.require(st, v[1] == 1, self.key + ":error", "a failed write is not reported")
                return
            if not eng.require(st, v[1] == 0, self.key + ":error", "writing fails although no write failed"):
                return
        else:
            raise Unknown("the text is not what was written")
        x = self.due(eng, st)
        eng.require(st, x is None, self.key, "the text ends where %s is due" % self.show(x))


def write(prog, root, pretty):
    return run_unit(prog, prog.roots[root], None, None, spec=Write(root, pretty))
