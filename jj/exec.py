"""The interpreter: statements, terminators, calls, contexts, fixpoint."""
from collections import deque
import time
from . import lin as L
from .lin import Lin, add, scale, sym as symlin
from .engine import (State, Frame, Text, Fork, Stop, Unknown, U, UNIT, BYTE_DOM, CHAR_DOM, ISIZE_MAX, USIZE_MAX,
                     liveness, loop_body, call_sccs, agg)
from .walk import Walk, remap, Acc

_SCC = {}


class Control:
    """What the driver tells the analyses of one run: which violations matter, when to stop."""

    def __init__(self):
        self.event = None
        self.deadline = None
        self.rx = None
        self.known = frozenset()      # known findings of this job

    def wanted(self, key):
        return (self.rx is None or self.rx.match(key) is not None) and key not in self.known

    def found(self):
        if self.event is not None:
            self.event.set()

    def over(self):
        return (self.event is not None and self.event.is_set()) or (self.deadline is not None and time.time() > self.deadline)

    def why(self):
        return "violations were found elsewhere" if self.event is not None and self.event.is_set() else "the time budget of the check is used up"


CONTROL = Control()


class Engine:
    def __init__(self, prog, spec):
        self.prog = prog
        self.spec = spec
        self.tys = prog.tys
        self.nsym = 0
        self.symkind = {}
        self.symname = {}
        self.nid = 0
        self.work = deque()
        self.retkeys = set()
        self.seen_at = None
        self.violations = {}
        self.undecided = {}
        self.heads = {}        # loc -> dict(mode, count, seen, accs)
        self.ctxs = {}
        self.ctxlist = []
        self.stat = {"states": 0, "steps": 0, "forks": 0, "returns": 0, "panics": 0, "joins": 0, "heads": 0, "contexts": 0}
        self.obligations = {}
        self.covered = {}      # inst id -> set of blocks
        self.constmem = prog.__dict__.setdefault("constmem", {})
        self.objty = {}
        self.builtins = None
        from . import builtins as B
        self.B = B
        if prog not in _SCC:
            _SCC[prog] = call_sccs(prog)
        self.scc = _SCC[prog]
        self.builtin_cache = {}
        self.called_unknown = set()
        self.cut_insts = set()
        self.candidates = {}
        self.tracing = False
        State.relaxed = set()
        State.free = set()

    # ------------------------------------------------------------- symbols
    def newsym(self, st, dom, kind="p", name=None):
        s = self.nsym
        self.nsym += 1
        self.symkind[s] = kind
        if name:
            self.symname[s] = name
        st.dom[s] = dom
        return symlin(s)

    def newid(self):
        self.nid += 1
        return self.nid

    def param(self, st, lo=0, hi=ISIZE_MAX, name=None):
        return self.newsym(st, ((lo, hi),), "p", name)

    def boolsym(self, st, name=None):
        return self.newsym(st, ((0, 1),), "c", name)

    # ------------------------------------------------------------- reports
    def where(self, st):
        """The innermost frame that belongs to the crate under analysis."""
        for f in reversed(st.frames):
            if self.is_repo(f.inst):
                return self.fname(f.inst), self.prog.span(self.cur_span(f))
        f = st.frames[-1]
        return self.fname(f.inst), self.prog.span(self.cur_span(f))

    def is_repo(self, inst):
        return inst.span is not None and self.prog.files[inst.span[0]].startswith("/repo/")

    def fname(self, inst):
        return inst.dfn

    def cur_span(self, f):
        b = f.inst.blocks[f.bb]
        if f.si < len(b["s"]):
            return b["s"][f.si][-1]
        return b["t"][-1]

    def stack(self, st):
        out = []
        for f in st.frames:
            out.append("%s (%s)" % (f.inst.name, self.prog.span(self.cur_span(f))))
        return out

    def witness(self, st):
        """The value sets of the input positions consumed on this path (oldest first)."""
        out = []
        h = st.hist
        while h is not None:
            out.append(h[0])
            h = h[1]
        out.reverse()
        return out

    def violation(self, st, key, msg):
        if st.soft:
            self.undecide("%s [imprecise: %s]" % (msg, st.soft), key)
            return
        if st.lossy:
            self.candidates.setdefault(key, msg)
        if key in self.violations and not (self.violations[key]['lossy'] and not st.lossy):
            return
        tr = []
        t = st.trace
        while t is not None and len(tr) < 60:
            tr.append(t[0])
            t = t[1]
        tr.reverse()
        self.violations[key] = {"key": key, "msg": msg, "where": list(self.where(st)) if st.frames else None,
                                "lossy": st.lossy, "stack": self.stack(st), "trace": tr, "input": self.input_desc(st)}

    # obligations: a specification states them, the engine decides them
    def oblige(self, key):
        self.obligations[key] = self.obligations.get(key, 0) + 1

    def require(self, st, cond, key, msg):
        """cond: True / False / None (unknown)."""
        self.oblige(key)
        if cond is True or cond == 1:
            return True
        if cond is None:
            self.undecide("cannot establish: " + msg, "req:" + key)
            return True
        self.violation(st, key, msg)
        return False

    def require_eq(self, st, a, b, key, msg):
        d = st.norm(add(a, b, -1))
        r = st.is0(d)
        if r is None and not st.lossy and not (L.syms_of(d) & st.free):
            r = st.need_is0(d)
        if r is False:
            msg = "%s (%s vs %s)" % (msg, a, b)
        return self.require(st, r, key, msg)

    def require_ge(self, st, a, b, key, msg):
        d = st.norm(add(a, b, -1))
        r = st.ge0(d)
        if r is None and not st.lossy and not (L.syms_of(d) & st.free):
            r = st.need_ge0(d)
        return self.require(st, r, key, msg)

    def input_desc(self, st):
        from .walk import show_dom
        out = []
        for h in self.witness(st):
            if h[0] == "cell":
                out.append(show_dom(h[1]))
            else:
                out.append(str(h[1]))
        for tid, t in st.texts.items():
            cs = []
            for w, v in t.cells:
                if type(v) is int:
                    cs.append(show_dom(((v, v),)))
                elif type(v) is tuple:
                    cs.append("elem")
                else:
                    ss = list(L.syms_of(v))
                    cs.append(show_dom(st.dom[ss[0]]))
            if cs:
                out.append("| %s%s" % (" ".join(cs), " <EOF>" if st.is0(add(t.len, self.text_end(t), -1)) else ""))
        return " ".join(out[-60:])

    def undecide(self, msg, key=None):
        self.undecided.setdefault(key or msg, msg)

    # ------------------------------------------------------------- types
    def field_ty(self, ty, variant, i):
        t = self.tys[ty]
        k = t.k
        if k == "adt":
            try:
                return t.d["variants"][variant or 0]["fields"][i][1]
            except IndexError:
                return None
        if k in ("tuple", "closure"):
            return t.d["fields"][i]
        if k in ("array", "slice"):
            return t.d["elem"]
        return None

    def variant_named(self, ty, name):
        for i, v in enumerate(self.tys[ty].d["variants"]):
            if v["name"] == name:
                return i
        raise Unknown("no variant %s in %s" % (name, self.tys[ty].name))

    def int_bounds(self, ty):
        t = self.tys[ty]
        if t.k == "uint":
            return 0, (1 << t.d["bits"]) - 1
        if t.k == "int":
            b = t.d["bits"]
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        if t.k == "bool":
            return 0, 1
        if t.k == "char":
            return 0, 0x10FFFF
        if t.k in ("ptr", "ref"):
            return 0, USIZE_MAX
        if t.k == "pat":
            return self.int_bounds(t.d["elem"])
        raise Unknown("not an integer type: %s" % t.name)

    # ------------------------------------------------------------- opaques
    def opaque(self, ty, oid=None):
        return ("O", oid if oid is not None else ("n", self.newid()), ty)

    def expand(self, st, v):
        oid, ty = v[1], v[2]
        while oid in st.exp:
            x = st.exp[oid]
            if type(x) is tuple and x[0] == "O":
                oid, ty = x[1], x[2]
                v = x
                continue
            return x
        x = self.spec.expand(self, st, oid, ty)
        if x is None:
            x = self.default_expand(st, oid, ty)
        if x is None:
            return v
        st.exp[oid] = x
        return x

    def sub(self, oid, i):
        return (oid, i)

    def default_expand(self, st, oid, ty):
        t = self.tys[ty]
        k = t.k
        if k == "bool":
            return self.boolsym(st)
        if k in ("uint", "int"):
            lo, hi = self.int_bounds(ty)
            return self.newsym(st, ((lo, hi),), "c" if hi <= 255 else "p")
        if k == "char":
            return self.newsym(st, CHAR_DOM, "c")
        if k in ("tuple", "closure"):
            return ("A", 0, tuple(("O", self.sub(oid, i), f) for i, f in enumerate(t.d["fields"])))
        if k == "array":
            n = t.d["len"]
            if n is not None and n <= 64:
                return ("V", tuple(("O", self.sub(oid, i), t.d["elem"]) for i in range(n)))
            return None
        if k == "adt" and t.d["adtkind"] == "struct":
            fs = t.d["variants"][0]["fields"]
            return ("A", 0, tuple(("O", self.sub(oid, i), f[1]) for i, f in enumerate(fs)))
        if k == "adt" and t.d["adtkind"] == "enum":
            vs = t.d["variants"]
            if not vs:
                raise Stop()

            def alt(i):
                fs = vs[i]["fields"]
                val = ("A", i, tuple(("O", self.sub(oid, (i, j)), f[1]) for j, f in enumerate(fs)))

                def go(s):
                    s.exp[oid] = val
                    return True
                return go
            ok = [i for i in range(len(vs)) if not any(self.uninhabited(f[1]) for f in vs[i]["fields"])]
            if len(ok) == 1:
                i = ok[0]
                return ("A", i, tuple(("O", self.sub(oid, (i, j)), f[1]) for j, f in enumerate(vs[i]["fields"])))
            raise Fork([alt(i) for i in ok])
        if k == "ref":
            e = self.tys[t.d["elem"]]
            if e.k == "str" or (e.k == "slice" and self.tys[e.d["elem"]].name == "u8"):
                tid = ("t", oid)
                if tid not in st.texts:
                    ln = self.param(st, 0, ISIZE_MAX, "len")
                    st.texts[tid] = Text("c" if e.k == "str" else "b", ln, 0, self.spec.text_gen(tid, e.k) if hasattr(self.spec, "text_gen") else None)
                return ("S", tid, 0, st.texts[tid].len)
            if e.k == "slice":
                return None
            key = ("o", oid)
            if key not in st.mem:
                st.mem[key] = ("O", self.sub(oid, "*"), t.d["elem"])
                self.objty[key] = t.d["elem"]
            return ("R", key, ())
        return None

    def uninhabited(self, ty):
        t = self.tys[ty]
        return t.k == "never" or (t.k == "adt" and t.d["adtkind"] == "enum" and not t.d["variants"])

    def rv(self, st, v):
        """Resolve an opaque as far as it has been expanded (without forcing)."""
        while type(v) is tuple and v[0] == "O" and v[1] in st.exp:
            v = st.exp[v[1]]
        return v

    def force(self, st, v):
        v = self.rv(st, v)
        if type(v) is tuple and v[0] == "O":
            v = self.expand(st, v)
        return v

    def num(self, st, v):
        v = self.force(st, v)
        if type(v) is int:
            return v
        if type(v) is Lin:
            return st.norm(v)
        if v is None or v == U:
            raise Unknown("uninitialised number")
        raise Unknown("not a number: %s" % (v,))

    # ------------------------------------------------------------- memory
    def get_field(self, st, v, e):
        v = self.rv(st, v)
        if type(v) is tuple:
            k = v[0]
            if k == "O":
                v = self.expand(st, v)
                if type(v) is tuple and v[0] == "O":
                    raise Unknown("field of opaque %s" % self.tys[v[2]].name)
                return self.get_field(st, v, e)
            if k == "A":
                if type(e) is int and e < len(v[2]):
                    return v[2][e]
                raise Unknown("bad field %s" % (e,))
            if k == "V":
                e = e if type(e) is int else st.norm(e)
                if type(e) is int:
                    if 0 <= e < len(v[1]):
                        return v[1][e]
                    raise Stop()
                return self.table(st, v, e)
            if k == "B":
                return self.B.get_field(self, st, v, e)
        raise Unknown("field %s of %s" % (e, str(v)[:80]))

    def table(self, st, v, e):
        """Array element at a symbolic index."""
        s = st.small_sym(e)
        elems = v[1]
        if s is None:
            # split on the index value
            lo, hi = st.rng(e)
            if hi - lo <= 300:
                for x in range(lo, hi + 1):
                    if st.need_is0(add(e, x, -1)):
                        return elems[x]
                raise Stop()
            raise Unknown("symbolic index")
        tab = [0] * 256
        parts = [(t, k) for (x, t), k in e.t]
        for x in L.d_vals(st.dom[s]):
            i = e.c + sum(k * (x if t == 0 else L.TABS[t][x]) for t, k in parts)
            if not (0 <= i < len(elems)):
                raise Unknown("index out of table")
            w = elems[i]
            if type(w) is not int:
                for x2 in L.d_vals(st.dom[s]):
                    i2 = e.c + sum(k * (x2 if t == 0 else L.TABS[t][x2]) for t, k in parts)
                    if st.need_is0(add(e, i2, -1)):
                        return elems[i2]
                raise Stop()
            tab[x] = w
        return self.from_tab(st, s, tab)

    def from_tab(self, st, s, tab):
        d = st.dom[s]
        vals = {tab[x] for x in L.d_vals(d)}
        if len(vals) == 1:
            return vals.pop()
        offs = {tab[x] - x for x in L.d_vals(d)}
        if len(offs) == 1:
            return add(symlin(s), offs.pop())
        return Lin(0, (((s, L.intern_tab(tab)), 1),))

    def set_field(self, st, v, path, i, new):
        if i == len(path):
            return new
        v = self.rv(st, v)
        e = path[i]
        if type(v) is tuple and v[0] == "O":
            v = self.expand(st, v)
        if v is None or v == U:
            # partial initialisation of an aggregate
            if type(e) is int:
                v = ("A", 0, tuple(U for _ in range(e + 1)))
            else:
                raise Unknown("write into uninitialised")
        if v[0] == "A":
            fs = list(v[2])
            while len(fs) <= e:
                fs.append(U)
            fs[e] = self.set_field(st, fs[e], path, i + 1, new)
            return ("A", v[1], tuple(fs))
        if v[0] == "V":
            e = e if type(e) is int else st.norm(e)
            if type(e) is not int:
                raise Unknown("symbolic array write")
            fs = list(v[1])
            fs[e] = self.set_field(st, fs[e], path, i + 1, new)
            return ("V", tuple(fs))
        if v[0] == "B":
            return self.B.set_field(self, st, v, path, i, new)
        raise Unknown("write into %s" % (v,))

    def mem_get(self, st, key, path):
        if key[0] == "g":
            v = self.constmem[key]
        elif key in st.mem:
            v = st.mem[key]
        else:
            raise Unknown("read of dead or uninitialised memory %s" % (key,))
        for e in path:
            v = self.get_field(st, v, e)
        return self.rv(st, v)

    def mem_set(self, st, key, path, new):
        if key[0] == "g":
            raise Unknown("write to constant memory")
        if not path:
            st.mem[key] = new
        else:
            st.mem[key] = self.set_field(st, st.mem.get(key, U), path, 0, new)

    # places: ("M", key, path) | ("T", slice) | ("TB", tid, pos) | ("L", slice-of-array)
    def place(self, st, p):
        fr = st.frames[-1]
        if type(p) is int:
            return ("M", (fr.fid, p), ()), fr.inst.locals[p]
        loc = ("M", (fr.fid, p[0]), ())
        ty = fr.inst.locals[p[0]]
        var = None
        for e in p[1:]:
            if e == "*":
                v = self.force(st, self.load(st, loc))
                t = self.tys[ty]
                loc = self.deref(st, v, t)
                ty = t.d.get("elem") if t.k in ("ref", "ptr") else (self.boxed(ty) if t.k == "adt" else None)
                var = None
            elif e[0] == "f":
                if loc[0] != "M":
                    raise Unknown("field of %s" % loc[0])
                loc = ("M", loc[1], loc[2] + (e[1],))
                ty = e[2]
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                ix = self.num(st, st.mem[(fr.fid, e[1])])
                loc = self.index(st, loc, ix)
                ty = self.tys[ty].d.get("elem") if ty is not None and self.tys[ty].k in ("array", "slice") else None
            elif e[0] == "ci":
                n = self.loc_len(st, loc, ty)
                ix = add(n, e[1], -1) if e[3] else e[1]
                loc = self.index(st, loc, ix)
                ty = self.tys[ty].d.get("elem") if ty is not None else None
            elif e[0] == "ss":
                loc = self.subslice(st, loc, ty, e[1], e[2], e[3])
            elif e[0] == "oc":
                ty = e[1]
            else:
                raise Unknown("projection %s" % (e,))
        return loc, ty

    def boxed(self, ty):
        a = self.tys[ty].d.get("args") or []
        return a[0] if a and type(a[0]) is int else None

    def deref(self, st, v, t):
        if type(v) is tuple:
            k = v[0]
            if k == "R":
                return ("M", v[1], v[2])
            if k == "S":
                return ("T", v)
            if k == "C":
                return ("TB", v[1], v[2])
            if k == "SL":
                return ("L", v)
            if k == "B":
                return ("BV", v)
        raise Unknown("deref of %s" % (str(v)[:80],))

    def index(self, st, loc, ix):
        if loc[0] == "M":
            return ("M", loc[1], loc[2] + (ix,))
        if loc[0] == "T":
            t = st.texts.get(loc[1][1])
            if t is not None and t.kind == "v":
                r = self.B.elem_ref(self, st, loc[1], ix)
                return ("M", r[1], r[2])
            return ("TB", loc[1][1], add(loc[1][2], ix))
        if loc[0] == "L":
            s = loc[1]
            return ("M", s[1], s[2] + (add(s[3], ix),))
        if loc[0] == "BV":
            r = self.B.index_place(self, st, loc[1], ix)
            if r is not None:
                return r
        raise Unknown("index of %s" % loc[0])

    def loc_len(self, st, loc, ty):
        if loc[0] == "T":
            return add(loc[1][3], loc[1][2], -1)
        if loc[0] == "L":
            return loc[1][4]
        if loc[0] == "M" and ty is not None and self.tys[ty].k == "array":
            return self.tys[ty].d["len"]
        if loc[0] == "BV":
            return self.B.length(self, st, loc[1])
        raise Unknown("length of %s" % (loc,))

    def subslice(self, st, loc, ty, a, b, fromend):
        n = self.loc_len(st, loc, ty)
        end = add(n, b, -1) if fromend else b
        if loc[0] == "T":
            s = loc[1]
            return ("T", ("S", s[1], add(s[2], a), add(s[2], end)))
        if loc[0] == "L":
            s = loc[1]
            return ("L", ("SL", s[1], s[2], add(s[3], a), add(end, a, -1)))
        raise Unknown("subslice")

    def load(self, st, loc):
        k = loc[0]
        if k == "M":
            return self.mem_get(st, loc[1], loc[2])
        if k == "TB":
            return self.get_byte(st, loc[1], loc[2])
        if k == "BV":
            return loc[1]
        raise Unknown("load of unsized")

    def store(self, st, loc, v):
        if loc[0] == "M":
            self.mem_set(st, loc[1], loc[2], v)
            return
        raise Unknown("store to %s" % loc[0])

    def make_ref(self, st, loc):
        k = loc[0]
        if k == "M":
            return ("R", loc[1], loc[2])
        if k == "T":
            return loc[1]
        if k == "L":
            return loc[1]
        if k == "TB":
            return ("C", loc[1], loc[2])
        if k == "BV":
            return loc[1]
        raise Unknown("ref")

    # ------------------------------------------------------------- texts
    def text_end(self, t):
        w = sum(c[0] for c in t.cells)
        return add(t.fpos, w)

    def text(self, st, tid):
        return st.texts[tid]

    def get_byte(self, st, tid, pos):
        if tid[0] == "k":
            pos = st.norm(pos)
            if type(pos) is int:
                if 0 <= pos < len(tid[1]):
                    return tid[1][pos]
                raise Stop()
            s = st.small_sym(pos)
            return self.table(st, ("V", tuple(tid[1])), pos)
        t = st.texts[tid]
        if t.kind == "c":
            return self.B.byte_of_chars(self, st, tid, pos)
        d = st.const_diff(pos, t.fpos)
        if d is None:
            # provably a position inside the retained window?
            raise Unknown("read at an unrelated position %s (window starts at %s)" % (pos, t.fpos))
        if d < 0:
            raise Unknown("read behind the retained window")
        while len(t.cells) <= d:
            if len(t.cells) > 64:
                raise Unknown("window too large")
            t = self.new_cell(st, tid)
        if t.nmon < len(t.cells):
            self.monitor(st, tid)
            t = st.texts[tid]
        if t.last is None or (st.const_diff(pos, t.last) or 0) > 0 or st.const_diff(pos, t.last) is None:
            t = t.clone()
            t.last = pos
            st.texts[tid] = t
        return t.cells[d][1]

    def monitor(self, st, tid):
        """Feed the cells not yet seen by the specification."""
        while True:
            t = st.texts[tid]
            if t.nmon >= len(t.cells):
                return
            w = sum(c[0] for c in t.cells[:t.nmon])
            wd, v = t.cells[t.nmon]
            # may fork; has no lasting effect before it has decided
            self.spec.on_cell(self, st, tid, add(t.fpos, w), v, wd)
            t = st.texts[tid].clone()
            t.nmon += 1
            st.texts[tid] = t

    def new_cell(self, st, tid):
        """Append the next cell of a text (its existence has been established)."""
        t = st.texts[tid]
        dom = BYTE_DOM if t.kind == "b" else CHAR_DOM
        if t.gen is not None:
            # the generator's state at the end of the known cells
            g = self.gen_state(st, t)
            ok = ()
            for d, ns, _ in t.gen.classes(g):
                ok = L.d_or(ok, d)
            dom = L.d_and(dom, ok)
            if not dom:
                raise Stop()
        v = self.newsym(st, dom, "c")
        t = t.clone()
        if t.kind == "b":
            t.cells = t.cells + ((1, v),)
        else:
            # the width must be constant: fork by encoded length
            raise Unknown("new_cell on chars")
        st.texts[tid] = t
        return t

    def classify(self, st, auto, g, v):
        """The transition of automaton auto from g on value v; forks until it is unique."""
        v = st.norm(v)
        if type(v) is int:
            for d, ns, gd in auto.classes(g):
                if L.d_has(d, v):
                    return ns, gd
            return None, None
        (s, tab), k = v.t[0]
        if len(v.t) != 1 or tab != 0 or k != 1 or v.c != 0:
            raise Unknown("cell value")
        dom = st.dom[s]
        hits = []
        rest = dom
        for d, ns, gd in auto.classes(g):
            x = L.d_and(dom, d)
            if x:
                hits.append((x, ns, gd))
                rest = L.d_sub(rest, x)
        if rest:
            hits.append((rest, None, None))
        groups = {}
        for x, ns, gd in hits:
            groups.setdefault((ns, gd), []).append(x)
        if len(groups) > 1:
            alts = []
            for g2, xs in groups.items():
                dd = ()
                for x in xs:
                    dd = L.d_or(dd, x)
                alts.append(lambda stt, s=s, dd=dd: stt.restrict(s, dd))
            raise Fork(alts)
        ns, gd = next(iter(groups))
        return ns, gd

    def gen_state(self, st, t, upto=None):
        g = t.gst
        cells = t.cells if upto is None else t.cells[:upto]
        for w, v in cells:
            ns, _ = self.classify(st, t.gen, g, v)
            if ns is None:
                raise Stop()
            g = ns
        return g

    def mon_state(self, st, t, upto=None):
        """(state, ghosts) of the monitor after the first `upto` retained cells."""
        m = t.mst
        gh = list(t.gh)
        cells = t.cells if upto is None else t.cells[:upto]
        for w, v in cells:
            ns, gd = self.classify(st, t.mon, m, v)
            if ns is None:
                ns = t.mon.dead
                gd = None
            if gd:
                for i, x in enumerate(gd):
                    gh[i] = add(gh[i], x)
            m = ns
        return m, tuple(gh)

    def drop_cells(self, st, tid, n, livepos):
        """Forget the first n cells; livepos: live positions needing marks."""
        t = st.texts[tid]
        for _ in range(n):
            w, v = t.cells[0]
            g2 = t.gst
            if t.gen is not None:
                g2, _ = self.classify(st, t.gen, t.gst, v)
                if g2 is None:
                    raise Stop()
            m2, gh2 = t.mst, t.gh
            if t.mon is not None:
                ns, gd = self.classify(st, t.mon, t.mst, v)
                if ns is None:
                    ns, gd = t.mon.dead, None
                m2 = ns
                if gd:
                    gh2 = tuple(add(a, x) for a, x in zip(t.gh, gd))
            t = t.clone()
            marks = dict(t.marks)
            if t.kind == "c" and any(st.const_diff(p, t.fpos) == 0 for p in livepos):
                marks[t.fpos] = (0 if t.gst == 0 else "B", 0 if t.mst == 0 else "B")
            t.cells = t.cells[1:]
            t.nmon = max(0, t.nmon - 1)
            t.fpos = add(t.fpos, w)
            t.gst, t.mst, t.gh = g2, m2, gh2
            t.marks = tuple(marks.items())
            if type(v) is not tuple:
                nv = st.norm(v)
                dd = ((nv, nv),) if type(nv) is int else st.dom[nv.t[0][0][0]]
                st.hist = (("cell", dd), st.hist)
        st.texts[tid] = t

    def mark_at(self, st, tid, pos):
        """(gst, mst) at an earlier or retained position, or None."""
        t = st.texts[tid]
        d = st.const_diff(pos, t.fpos)
        if d is not None and d >= 0:
            w = 0
            i = 0
            while w < d and i < len(t.cells):
                w += t.cells[i][0]
                i += 1
            if w == d:
                g = self.gen_state(st, t, i) if t.gen else None
                m = self.mon_state(st, t, i)[0] if t.mon else None
                return g, m
            return None
        for p, gm in self.spec.marks(self, st, tid):
            if st.const_diff(pos, p) == 0:
                return gm
        return None

    # ------------------------------------------------------------- constants
    def const(self, st, o):
        ty = o["c"]
        if "z" in o:
            return self.zst(ty)
        if "v" in o:
            return o["v"]
        if "a" in o:
            c = o.get("_v")
            if c is None:
                c = self.decode(o["a"], 0, ty)
                o["_v"] = c
            return c
        raise Unknown("constant %s" % o.get("u"))

    def zst(self, ty):
        t = self.tys[ty]
        if t.k == "fndef":
            return ("F", ty)
        if t.k in ("tuple", "closure"):
            return ("A", 0, tuple(self.zst(f) for f in t.d["fields"]))
        if t.k == "adt":
            if t.d["adtkind"] == "enum":
                vs = t.d.get("vshape") or {}
                i = vs.get("i", 0)
                return ("A", i, tuple(self.zst(f[1]) for f in t.d["variants"][i]["fields"]))
            return ("A", 0, tuple(self.zst(f[1]) for f in t.d["variants"][0]["fields"]))
        if t.k == "array":
            return ("V", tuple(self.zst(t.d["elem"]) for _ in range(t.d["len"] or 0)))
        return UNIT

    def bytes_at(self, a, off, n):
        hx = a["bytes"][2 * off:2 * (off + n)]
        if "_" in hx:
            return None
        return bytes.fromhex(hx)

    def prov_at(self, a, off):
        for o, i in a["prov"]:
            if o == off:
                return i
        return None

    def alloc_key(self, aid, ty):
        key = ("g", aid, ty)
        if key not in self.constmem:
            al = self.prog.allocs[aid]
            if "a" not in al:
                raise Unknown("allocation %s" % al["k"])
            self.constmem[key] = None
            self.constmem[key] = self.decode(al["a"], 0, ty)
            self.objty[key] = ty
        return key

    def decode(self, a, off, ty):
        t = self.tys[ty]
        k = t.k
        size = t.d.get("size", 0)
        if size == 0:
            return self.zst(ty)
        if k in ("uint", "bool", "char"):
            b = self.bytes_at(a, off, size)
            return U if b is None else int.from_bytes(b, "little")
        if k == "int":
            b = self.bytes_at(a, off, size)
            return U if b is None else int.from_bytes(b, "little", signed=True)
        if k in ("ref", "ptr"):
            e = self.tys[t.d["elem"]]
            pid = self.prov_at(a, off)
            if pid is None:
                if e.k in ("str", "slice") and self.bytes_at(a, off + 8, 8) == b"\0" * 8:
                    return ("S", ("k", b""), 0, 0) if e.k == "str" or self.tys[e.d["elem"]].name == "u8" else ("SL", ("g", -1, 0), (), 0, 0)
                return int.from_bytes(self.bytes_at(a, off, 8) or b"\0", "little")
            al = self.prog.allocs[pid]
            delta = int.from_bytes(self.bytes_at(a, off, 8) or b"\0" * 8, "little")
            if e.k == "str" or (e.k == "slice" and self.tys[e.d["elem"]].name == "u8"):
                n = int.from_bytes(self.bytes_at(a, off + 8, 8), "little")
                data = self.bytes_at(al["a"], delta, n)
                return ("S", ("k", data), 0, n)
            if e.k == "array" and self.tys[e.d["elem"]].name == "u8" and al["k"] == "mem":
                n = e.d["len"]
                data = self.bytes_at(al["a"], delta, n)
                if data is not None and delta + n == len(al["a"]["bytes"]) // 2:
                    return ("S", ("k", data), 0, n)
            if e.k == "slice":
                n = int.from_bytes(self.bytes_at(a, off + 8, 8), "little")
                el = e.d["elem"]
                es = self.tys[el].d["size"]
                key = ("g", pid, "slice%d" % el)
                if key not in self.constmem:
                    self.constmem[key] = ("V", tuple(self.decode(al["a"], i * es, el) for i in range(n)))
                return ("SL", key, (), 0, n)
            if al["k"] in ("mem", "static"):
                if delta:
                    raise Unknown("interior pointer constant")
                return ("R", self.alloc_key(pid, t.d["elem"]), ())
            if al["k"] == "fn":
                return ("FP", al["inst"])
            raise Unknown("pointer to %s" % al["k"])
        if k == "fnptr":
            pid = self.prov_at(a, off)
            al = self.prog.allocs[pid]
            return ("FP", al["inst"])
        if k == "array":
            es = self.tys[t.d["elem"]].d["size"]
            return ("V", tuple(self.decode(a, off + i * es, t.d["elem"]) for i in range(t.d["len"])))
        if k in ("tuple", "closure"):
            return ("A", 0, tuple(self.decode(a, off + o, f) for o, f in zip(t.d["offsets"], t.d["fields"])))
        if k == "adt":
            vs = t.d["vshape"]
            if t.d["adtkind"] == "enum" and vs["k"] == "multi":
                tagb = self.bytes_at(a, off + vs["tagoff"], vs["tagsize"])
                pr = self.prov_at(a, off + vs["tagoff"])
                if pr is not None:
                    tag = None
                else:
                    tag = int.from_bytes(tagb, "little")
                enc = vs["enc"]
                bits = vs["tagsize"] * 8
                if enc["k"] == "direct":
                    vi = None
                    for i, v in enumerate(t.d["variants"]):
                        if v["disc"] % (1 << bits) == tag:
                            vi = i
                else:
                    vi = enc["untagged"]
                    if tag is not None:
                        rel = (tag - enc["start"]) % (1 << bits)
                        if rel <= enc["hi"] - enc["lo"]:
                            vi = enc["lo"] + rel
                offs = vs["voffsets"][vi]
            else:
                vi = vs.get("i", 0) if t.d["adtkind"] == "enum" else 0
                offs = t.d["offsets"] or []
            fs = t.d["variants"][vi]["fields"]
            return ("A", vi, tuple(self.decode(a, off + o, f[1]) for o, f in zip(offs, fs)))
        if k == "pat":
            return self.decode(a, off, t.d["elem"])
        if k == "float":
            return ("B", "float", self.bytes_at(a, off, size))
        raise Unknown("decode of %s" % t.name)

    # ------------------------------------------------------------- operands
    def operand(self, st, o):
        if "cp" in o:
            loc, _ = self.place(st, o["cp"])
            return self.load(st, loc)
        if "mv" in o:
            loc, _ = self.place(st, o["mv"])
            return self.load(st, loc)
        if "rt" in o:
            return 0 if "Ub" in o["rt"] else 1
        return self.const(st, o)

    def op_ty(self, st, o):
        if "cp" in o or "mv" in o:
            p = o.get("cp", o.get("mv"))
            if type(p) is int:
                return st.frames[-1].inst.locals[p]
            last = p[-1]
            if type(last) is list and last[0] == "f":
                return last[2]
            return self.place(st, p)[1]
        if "rt" in o:
            return None
        return o["c"]

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref" or k == "addr":
            loc, _ = self.place(st, r[2])
            return self.make_ref(st, loc)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), self.op_ty(st, r[2]))
        if k == "cbin":
            return self.cbinop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), self.op_ty(st, r[2]))
        if k == "un":
            return self.unop(st, r[1], self.operand(st, r[2]), self.op_ty(st, r[2]))
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), self.op_ty(st, r[2]), r[3])
        if k == "disc":
            loc, ty = self.place(st, r[1])
            t = self.tys[ty]
            if t.k == "adt" and t.d["adtkind"] == "enum" and t.d["size"] == 0 and t.d["vshape"].get("k") == "single" and len(t.d["variants"]) > t.d["vshape"].get("i", 0):
                return t.d["variants"][t.d["vshape"].get("i", 0)]["disc"]       # the only one there is; nothing is read
            v = self.force(st, self.load(st, loc))
            return self.discr(st, v, ty)
        if k == "agg":
            a = r[1]
            vals = tuple(self.operand(st, o) for o in r[2])
            if a[0] == "adt":
                if a[3] is not None:
                    return ("A", 0, vals)
                return ("A", a[2], vals)
            if a[0] in ("tuple", "closure"):
                return ("A", 0, vals)
            if a[0] == "array":
                return ("V", vals)
            if a[0] == "rawptr":
                return self.B.rawptr(self, st, vals)
            raise Unknown("aggregate %s" % a[0])
        if k == "len":
            loc, ty = self.place(st, r[1])
            return self.loc_len(st, loc, ty)
        if k == "repeat":
            v = self.operand(st, r[1])
            n = r[2]
            if n is None or n > 1024:
                raise Unknown("repeat")
            return ("V", (v,) * n)
        raise Unknown("rvalue %s" % k)

    def discr(self, st, v, ty):
        if type(v) is tuple and v[0] == "A":
            t = self.tys[ty]
            if t.k == "adt" and t.d["adtkind"] == "enum":
                return t.d["variants"][v[1]]["disc"]
            return v[1]
        if type(v) is tuple and v[0] == "B":
            return self.B.discr(self, st, v, ty)
        if type(v) is int or type(v) is Lin:
            return v      # C-like enum kept as its discriminant
        raise Unknown("discriminant of %s" % (str(v)[:60],))

    def pointwise(self, st, f, *vals):
        """f over the values when they all depend on (at most) one small symbol."""
        s = None
        for v in vals:
            if type(v) is not int:
                x = st.small_sym(v)
                if x is None or (s is not None and x != s):
                    return None
                s = x
        if s is None:
            return f(*vals)
        tab = [0] * 256
        for x in L.d_vals(st.dom[s]):
            args = []
            for v in vals:
                if type(v) is int:
                    args.append(v)
                else:
                    args.append(v.c + sum(k * (x if t == 0 else L.TABS[t][x]) for (_, t), k in v.t))
            tab[x] = int(f(*args))
        return self.from_tab(st, s, tab)

    CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
           "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}

    def compare(self, st, op, a, b):
        d = st.norm(add(a, b, -1))
        if type(d) is int:
            return int(self.CMP[op](d, 0))
        if op == "Eq":
            return int(st.need_is0(d))
        if op == "Ne":
            return int(not st.need_is0(d))
        if op == "Ge":
            return int(st.need_ge0(d))
        if op == "Lt":
            return int(not st.need_ge0(d))
        if op == "Le":
            return int(st.need_ge0(scale(d, -1)))
        return int(not st.need_ge0(scale(d, -1)))

    def binop(self, st, op, a, b, ty):
        if op in self.CMP:
            a, b = self.force(st, a), self.force(st, b)
            if type(a) is tuple or type(b) is tuple:
                r = self.B.ptr_compare(self, st, op, a, b)
                if r is not None:
                    return r
            a, b = self.num(st, a), self.num(st, b)
            r = self.pointwise(st, self.CMP[op], a, b)
            if r is not None:
                return int(r) if type(r) is bool else r
            return self.compare(st, op, a, b)
        if op == "Offset":
            return self.B.ptr_offset(self, st, self.force(st, a), self.num(st, b))
        if op == "Cmp":
            a, b = self.num(st, a), self.num(st, b)
            if self.compare(st, "Lt", a, b):
                return ("A", 0, ())
            if self.compare(st, "Eq", a, b):
                return ("A", 1, ())
            return ("A", 2, ())
        a, b = self.num(st, a), self.num(st, b)
        lo, hi = self.int_bounds(ty)
        op2 = op.replace("Unchecked", "")
        v = self.arith(st, op2, a, b, ty)
        return self.wrap(st, v, lo, hi, op2)

    def wrap(self, st, v, lo, hi, op="arith"):
        if type(v) is int:
            if lo <= v <= hi:
                return v
            n = hi - lo + 1
            return (v - lo) % n + lo
        l, h = st.rng(v)
        if l >= lo and h <= hi:
            return v
        if st.lower(v) >= lo and st.upper(v) <= hi:
            return v
        n = hi - lo + 1
        r = self.pointwise(st, lambda x: (x - lo) % n + lo, v)
        if r is not None:
            return r
        if not st.need_ge0(add(v, lo, -1)):
            return self.wrap(st, add(v, n), lo, hi, op)
        if not st.need_ge0(add(hi, v, -1)):
            return self.wrap(st, add(v, -n), lo, hi, op)
        return v

    def cbinop(self, st, op, a, b, ty):
        a, b = self.num(st, a), self.num(st, b)
        lo, hi = self.int_bounds(ty)
        v = self.arith(st, op, a, b, ty)
        if type(v) is int:
            if lo <= v <= hi:
                return ("A", 0, (v, 0))
            n = hi - lo + 1
            return ("A", 0, ((v - lo) % n + lo, 1))
        if op in ("Shl", "Shr"):
            return ("A", 0, (v, 0))
        if not st.need_ge0(add(v, lo, -1)):
            return ("A", 0, (self.wrap(st, v, lo, hi), 1))
        if not st.need_ge0(add(hi, v, -1)):
            return ("A", 0, (self.wrap(st, v, lo, hi), 1))
        return ("A", 0, (v, 0))

    def arith(self, st, op, a, b, ty):
        if op == "Add":
            return st.norm(add(a, b))
        if op == "Sub":
            return st.norm(add(a, b, -1))
        if op == "Mul":
            if type(b) is int:
                return scale(a, b)
            if type(a) is int:
                return scale(b, a)
            r = self.pointwise(st, lambda x, y: x * y, a, b)
            if r is None:
                return self.havoc(st, ty, "product")
            return r
        lo, hi = self.int_bounds(ty)
        bits = (hi - lo + 1).bit_length() - 1
        if op in ("Shl", "Shr"):
            if type(b) is not int:
                r = self.pointwise(st, (lambda x, y: (x << y) & hi) if op == "Shl" else (lambda x, y: x >> y), a, b)
                if r is not None:
                    return r
                l, h = st.rng(b)
                if h - l <= 64:
                    for x in range(l, h + 1):
                        if st.need_is0(add(b, x, -1)):
                            b = x
                            break
                else:
                    return self.havoc(st, ty, "shift")
            b %= bits
            if op == "Shl":
                if type(a) is int:
                    return (a << b) & hi if lo == 0 else ((a << b) + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))
                if st.rng(a)[0] >= 0 and st.rng(a)[1] << b <= hi:
                    return scale(a, 1 << b)
                r = self.pointwise(st, lambda x: (x << b) & hi, a)
                if r is not None:
                    return r
                a2 = self.band(st, a, (1 << (bits - b)) - 1, ty)
                return scale(a2, 1 << b)
            if type(a) is int:
                return a >> b
            r = self.pointwise(st, lambda x: x >> b, a)
            if r is not None:
                return r
            return self.shr(st, a, b, ty)
        if op == "BitAnd":
            return self.bit(st, op, a, b, ty)
        if op == "BitOr" or op == "BitXor":
            return self.bit(st, op, a, b, ty)
        if op in ("Div", "Rem"):
            f = (lambda x, y: (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)) if op == "Div" else \
                (lambda x, y: (abs(x) % abs(y)) * (1 if x >= 0 else -1))
            if type(a) is int and type(b) is int:
                if b == 0:
                    raise Stop()
                return f(a, b)
            r = self.pointwise(st, lambda x, y: f(x, y) if y else 0, a, b)
            if r is not None:
                return r
            if type(b) is int and b > 0 and b & (b - 1) == 0 and st.rng(a)[0] >= 0:
                k = b.bit_length() - 1
                try:
                    return self.shr(st, a, k, ty) if op == "Div" else self.band(st, a, b - 1, ty)
                except Unknown:
                    pass
            if type(b) is int and b > 0 and st.lower(a) >= 0:
                q = self.quotient(st, a, b)
                return q if op == "Div" else st.norm(add(a, scale(q, -b)))
            return self.havoc(st, ty, op)
        raise Unknown("binop %s" % op)

    def havoc(self, st, ty, why):
        raise Unknown(why)

    def quotient(self, st, a, b):
        """a / b for a >= 0 and a constant b > 0: a number of its own, tied to a by two inequalities."""
        k = ("quot", str(a), b)
        q = st.exp.get(k)
        if q is None:
            lo, hi = st.rng(a)
            q = self.newsym(st, ((max(lo, 0) // b, hi // b),), "p")
            if not (st.add_fact(add(a, scale(q, -b))) and st.add_fact(add(add(scale(q, b), b - 1), a, -1))):
                raise Stop()
            st.exp[k] = q
        return q

    def divis(self, st, x, m):
        """x is certainly a multiple of m."""
        if type(x) is int:
            return x % m == 0
        if x.c % m:
            return False
        for (s, t), c in x.t:
            if c % m == 0:
                continue
            if t == 0 or any((c * L.TABS[t][v]) % m for v in L.d_vals(st.dom[s])):
                return False
        return True

    def lowpart(self, st, a, k):
        """Split a = high*2^k + low with low in [0,2^k) when visible; returns (highpart, low) as Lins, or None."""
        m = 1 << k
        hi_c = a.c - a.c % m
        lo_c = a.c % m
        hi_t, lo_t = {}, {}
        for x, c in a.t:
            if c % m == 0:
                hi_t[x] = c
            else:
                lo_t[x] = c
        low = L.mk(lo_c, lo_t)
        l, h = st.rng(low)
        q = l // m
        if q == h // m:
            return add(L.mk(hi_c, hi_t), q * m), add(low, -q * m)
        return None

    def split_low(self, st, a, k):
        r = self.lowpart(st, a, k)
        if r is not None:
            return r
        # decide the block of the low part by splitting
        m = 1 << k
        hi_t, lo_t = {}, {}
        for x, c in a.t:
            (hi_t if c % m == 0 else lo_t)[x] = c
        low = L.mk(a.c, lo_t)
        l, h = st.rng(low)
        q0, q1 = l // m, h // m
        if q1 - q0 > 64:
            return None
        for q in range(q0 + 1, q1 + 1):
            if not st.need_ge0(add(low, -q * m)):
                return add(L.mk(0, hi_t), (q - 1) * m), add(low, -(q - 1) * m)
        return add(L.mk(0, hi_t), q1 * m), add(low, -q1 * m)

    def shr(self, st, a, k, ty):
        r = self.split_low(st, a, k)
        if r is None:
            if st.lower(a) >= 0:
                return self.quotient(st, a, 1 << k)
            return self.havoc(st, ty, "shift right")
        h = r[0]
        m = 1 << k
        if type(h) is int:
            return h // m
        return Lin(h.c // m, tuple((x, c // m) for x, c in h.t))

    def band(self, st, a, mask, ty):
        """a & mask where mask = 2^k-1"""
        if type(a) is int:
            return a & mask
        k = mask.bit_length()
        if st.rng(a)[0] >= 0 and st.rng(a)[1] <= mask:
            return a
        r = self.split_low(st, a, k)
        if r is None:
            if st.lower(a) >= 0:
                return st.norm(add(a, scale(self.quotient(st, a, 1 << k), -(1 << k))))
            return self.havoc(st, ty, "mask")
        return st.norm(r[1])

    def digits(self, st, a):
        """a as a sum of terms over one small symbol each that share no bits, or None."""
        if type(a) is int or len(a.t) < 2:
            return None
        per = {}
        for x, c in a.t:
            per.setdefault(x[0], []).append((x, c))
        if len(per) < 2 or a.c < 0:
            return None
        used, out = a.c, [(a.c,)]
        for s, ts in per.items():
            v = Lin(0, tuple(ts))
            if st.small_sym(v) != s:
                return None
            bits = 0
            for x in L.d_vals(st.dom[s]):
                y = sum(k * (x if t == 0 else L.TABS[t][x]) for (_, t), k in ts)
                if y < 0:
                    return None
                bits |= y
            if bits & used:
                return None
            used |= bits
            out.append((v, s, bits))
        return out

    def bit(self, st, op, a, b, ty):
        f = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y}[op]
        if type(a) is int and type(b) is int:
            return f(a, b)
        r = self.pointwise(st, f, a, b)
        if r is not None:
            return r
        lo, hi = self.int_bounds(ty)
        if lo < 0:
            return self.havoc(st, ty, "signed bit operation")
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            full = hi
            ds = self.digits(st, a)
            if ds is not None:
                both = ds[0][0] & b
                for v, s, c in ds[1:]:
                    both = add(both, self.pointwise(st, lambda x: x & b, v))
                return st.norm(both if op == "BitAnd" else add(add(a, b), scale(both, -1 if op == "BitOr" else -2)))
            if op == "BitAnd":
                # decompose the mask into runs
                if b == 0:
                    return 0
                if b == full:
                    return a
                if b & (b + 1) == 0:
                    return self.band(st, a, b, ty)
                nb = full ^ b
                if nb & (nb + 1) == 0:
                    return st.norm(add(a, self.band(st, a, nb, ty), -1))
                tz = (b & -b).bit_length() - 1
                run = b >> tz
                if run & (run + 1) == 0:
                    x = self.shr(st, a, tz, ty)
                    if type(x) is int:
                        return (x & run) << tz
                    return scale(self.band(st, x, run, ty), 1 << tz)
                # general: sum of single bits
                acc = 0
                bb = b
                while bb:
                    z = bb & -bb
                    acc = add(acc, self.bit(st, "BitAnd", a, z, ty))
                    bb ^= z
                return acc
            # or / xor with a constant: handle each set bit
            acc = a
            bb = b
            while bb:
                z = bb & -bb
                cur = self.bit(st, "BitAnd", a, z, ty)
                cur = st.norm(cur)
                if type(cur) is not int:
                    if st.need_is0(cur):
                        cur = 0
                    else:
                        cur = z
                if cur == 0:
                    acc = add(acc, z)
                elif op == "BitXor":
                    acc = add(acc, -z)
                bb ^= z
            return st.norm(acc)
        # both symbolic: disjoint bit ranges
        if op in ("BitOr", "BitXor"):
            for x, y in ((a, b), (b, a)):
                l, h = st.rng(y)
                if l < 0:
                    continue
                k = h.bit_length()
                m = 1 << k
                if self.divis(st, x, m):
                    return add(x, y)
                lp = self.lowpart(st, x, k)
                if lp is not None and lp[1] == 0:
                    return add(x, y)
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                l, h = st.rng(y)
                if l >= 0:
                    m = 1 << h.bit_length()
                    if self.divis(st, x, m):
                        return 0
        # split the symbol with the smallest domain and retry
        best = None
        for v in (a, b):
            for s in L.syms_of(v):
                n = L.d_size(st.dom[s])
                if n <= 64 and (best is None or n < best[0]):
                    best = (n, s)
        if best:
            s = best[1]
            raise Fork([(lambda stt, x=x: stt.restrict(s, ((x, x),))) for x in L.d_vals(st.dom[s])])
        return self.havoc(st, ty, op)

    def unop(self, st, op, a, ty):
        if op == "PtrMetadata":
            return self.B.metadata(self, st, self.force(st, a))
        a = self.num(st, a)
        t = self.tys[ty]
        if op == "Not":
            if t.k == "bool":
                return st.norm(add(1, a, -1))
            lo, hi = self.int_bounds(ty)
            if lo == 0:
                return add(hi, a, -1)
            return add(-1, a, -1)
        if op == "Neg":
            return scale(a, -1)
        raise Unknown("unop %s" % op)

    def cast(self, st, kind, v, fty, tty):
        t = self.tys[tty]
        if kind in ("IntToInt",):
            v = self.num(st, v)
            lo, hi = self.int_bounds(tty)
            if type(v) is int:
                n = hi - lo + 1
                return (v - lo) % n + lo
            l, h = st.rng(v)
            if l >= lo and h <= hi:
                return v
            r = self.pointwise(st, lambda x: (x - lo) % (hi - lo + 1) + lo, v)
            if r is not None:
                return r
            if lo == 0 and l >= 0:
                return self.band(st, v, hi, fty)
            return self.wrap(st, v, lo, hi)
        if kind.startswith("PointerCoercion"):
            v = self.force(st, v)
            if "Unsize" in kind:
                if type(v) is tuple and v[0] == "R":
                    ft = self.tys[fty]
                    e = self.tys[ft.d["elem"]] if "elem" in ft.d else None
                    if e is not None and e.k == "array" and self.tys[t.d["elem"]].k == "slice":
                        return ("SL", v[1], v[2], 0, e.d["len"])
                return v
            return v
        if kind == "Transmute" or kind == "PtrToPtr" or kind == "FnPtrToPtr":
            v = self.force(st, v)
            opt = lambda ty: self.tys[ty].k == "adt" and self.tys[ty].d.get("def") == "std::option::Option"
            if kind == "Transmute" and opt(tty) and type(v) in (int, Lin):
                # Option of something that is not 0
                return ("A", 0, ()) if st.need_is0(v) else ("A", 1, (v,))
            if kind == "Transmute" and opt(fty) and t.k in ("uint", "int") and type(v) is tuple and v[0] == "A":
                return self.force(st, v[2][0]) if v[1] else 0
            if type(v) in (int, Lin):
                return v
            if type(v) is tuple and v[0] in ("R", "S", "SL", "C", "F", "FP", "B"):
                return v
            if type(v) is tuple and kind == "Transmute":
                if self.tys[fty].name == self.tys[tty].name:
                    return v
                if v[0] == "A" and len(v[2]) == 1:
                    return self.force(st, v[2][0])
                if v[0] == "A" and t.k in ("uint", "int") and self.tys[fty].k == "adt" and self.tys[fty].d["adtkind"] == "enum" and not v[2]:
                    return self.tys[fty].d["variants"][v[1]]["disc"] % (1 << t.d["bits"])
            return self.B.transmute(self, st, v, fty, tty)
        raise Unknown("cast %s" % kind)

    # ------------------------------------------------------------- stepping
    def run_root(self, st):
        self.push(st)
        self.loop()

    def push(self, st):
        self.stat["states"] += 1
        self.work.append(st)

    def loop(self):
        t0 = time.time()
        limit = getattr(self.spec, "time_limit", 240)
        while self.work:
            st = self.work.popleft()
            self.exec(st)
            if self.violations and self.seen_at is None and any(not v["lossy"] and CONTROL.wanted(k) for k, v in self.violations.items()):
                self.seen_at = time.time()
                CONTROL.found()
            if self.seen_at is None and CONTROL.over():
                self.undecide("stopped: %s" % CONTROL.why())
                self.work.clear()
                break
            if self.seen_at is not None and time.time() - self.seen_at > 20:
                self.undecide("stopped after violations were found")
                self.work.clear()
                break
            if self.stat["steps"] > self.spec.max_steps or time.time() - t0 > limit:
                self.undecide("analysis budget exhausted")
                self.work.clear()
                break

    def start(self, inst, st, args):
        fr = Frame(inst, self.newid(), None, None)
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        st.frames.append(fr)
        return fr

    def exec(self, st):
        try:
            while True:
                fr = st.frames[-1]
                blk = fr.inst.blocks[fr.bb]
                if not fr.atbody:
                    self.covered.setdefault(fr.inst.id, set()).add(fr.bb)
                    if fr.bb in fr.inst.heads():
                        try:
                            if not self.at_head(st, fr):
                                return
                        except Fork as f:
                            self.do_fork(st, f)
                            return
                        fr = st.frames[-1]
                    fr.atbody = True
                    if self.tracing and (self.is_repo(fr.inst) or fr.inst.dfn.startswith("jj_roots")):
                        x = self.prog.span(self.cur_span(fr)).split("/")[-1]
                        if st.trace is None or st.trace[0] != x:
                            st.trace = (x, st.trace)
                self.stat["steps"] += 1
                st.steps += 1
                try:
                    if fr.si < len(blk["s"]):
                        self.stmt(st, fr, blk["s"][fr.si])
                        fr.si += 1
                    else:
                        if not self.term(st, fr, blk["t"]):
                            return
                except Fork as f:
                    self.do_fork(st, f)
                    return
        except Stop:
            return
        except Unknown as e:
            w = self.where(st) if st.frames else ("?", "?")
            top = st.frames[-1].inst.name if st.frames else "?"
            if self.tracing:
                tr = []
                t = st.trace
                while t is not None and len(tr) < 40:
                    tr.append(t[0])
                    t = t[1]
                print("UNK", e, st.lossy, self.input_desc(st), " ".join(reversed(tr)))
            self.undecide("unmodelled: %s in %s (%s) [%s]" % (e, w[0], w[1], top), "unknown:%s:%s" % (w[0], str(e)[:60]))
            return

    def do_fork(self, st, f):
        self.stat["forks"] += 1
        n = len(f.alts)
        for i, alt in enumerate(f.alts):
            s2 = st.clone() if i + 1 < n else st
            if f.soft:
                s2.soft = s2.soft or "relational split"
            try:
                if alt(s2) is not False:
                    self.push(s2)
            except Stop:
                pass

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            p = s[1]
            v = self.rvalue(st, s[2], None)
            if type(p) is int:
                st.mem[(fr.fid, p)] = v
            else:
                loc, _ = self.place(st, p)
                self.store(st, loc, v)
        elif k == "dead":
            st.mem.pop((fr.fid, s[1]), None)
        elif k == "sd":
            loc, ty = self.place(st, s[1])
            try:
                v = self.load(st, loc)
            except Unknown:
                v = U
            fs = v[2] if type(v) is tuple and v[0] == "A" else ()
            self.store(st, loc, ("A", s[2], fs))
        else:
            raise Unknown("statement %s" % k)

    def goto(self, fr, bb):
        fr.prev = fr.bb
        fr.bb = bb
        fr.si = 0
        fr.atbody = False

    def term(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.goto(fr, t[1])
            return True
        if k == "sw":
            v = self.num(st, self.operand(st, t[1]))
            if type(v) is int:
                if v < 0:
                    ty = self.op_ty(st, t[1])
                    lo, hi = self.int_bounds(ty)
                    v %= (hi - lo + 1)
                for x, b in t[2]:
                    if x == v:
                        self.goto(fr, b)
                        return True
                self.goto(fr, t[3])
                return True
            self.switch_fork(st, v, t)
        if k == "call":
            return self.call(st, fr, t)
        if k == "assert":
            self.oblige("panic:%s" % self.where(st)[0])
            c = self.num(st, self.operand(st, t[1]))
            if type(c) is not int:
                c = 0 if st.need_is0(c) else 1
            if bool(c) == bool(t[2]):
                self.goto(fr, t[5])
                return True
            self.panic(st, t[3])
            return False
        if k == "drop":
            self.goto(fr, t[2])
            return True
        if k == "ret":
            return self.ret(st, fr)
        if k == "unreach":
            if not st.lossy:
                self.undecide("unreachable code in %s" % self.fname(fr.inst))
            return False
        if k in ("resume", "abort"):
            return False
        raise Unknown("terminator %s" % k)

    def switch_fork(self, st, v, t):
        s = st.small_sym(v)
        if s is not None:
            groups = {}
            tg = {x: b for x, b in t[2]}
            parts = [(tb, k) for (_, tb), k in v.t]
            for x in L.d_vals(st.dom[s]):
                val = v.c + sum(k * (x if tb == 0 else L.TABS[tb][x]) for tb, k in parts)
                key = tg.get(val, t[3])
                groups.setdefault((key, val if val in tg else None), []).append(x)
            if len(groups) == 1:
                # all the same target but not a constant: take it
                (b, _), _ = next(iter(groups.items()))
                self.goto(st.frames[-1], b)
                st.frames[-1].si = 0
                raise Fork([lambda s2: True])
            merged = {}
            for (b, _), xs in groups.items():
                merged.setdefault(b, []).extend(xs)
            if len(merged) == 1:
                b = next(iter(merged))
                self.goto(st.frames[-1], b)
                raise Fork([lambda s2: True])

            def alt(b, d):
                def go(s2):
                    if not s2.restrict(s, d):
                        return False
                    self.goto(s2.frames[-1], b)
                    return True
                return go
            raise Fork([alt(b, L.d_from(xs)) for b, xs in merged.items()])
        for x, b in t[2]:
            if st.need_is0(add(v, -x)):
                self.goto(st.frames[-1], b)
                raise Fork([lambda s2: True])
        self.goto(st.frames[-1], t[3])
        raise Fork([lambda s2: True])

    def panic(self, st, what):
        self.stat["panics"] += 1
        self.spec.on_panic(self, st, what, self.where(st))

    # ------------------------------------------------------------- calls
    def call(self, st, fr, t):
        callee = t[1]
        args = [self.operand(st, o) for o in t[3]]
        if type(callee) is not int:
            if callee is None:
                f = self.force(st, self.operand(st, t[2]))
                if type(f) is tuple and f[0] == "FP":
                    callee = f[1]
                elif type(f) is tuple and f[0] == "F":
                    callee = self.tys[f[1]].d.get("inst")
                else:
                    raise Unknown("indirect call of %s" % (f,))
            else:
                raise Unknown("unresolved callee %s" % callee)
        return self.invoke(st, self.prog.insts[callee], args, t[4], t[5])

    def invoke(self, st, inst, args, dest, target):
        """Call inst from the top frame of st, result to dest, continue at target."""
        n = 0
        while inst.model is not None and n < 3:
            inst = self.prog.insts[inst.model]
            n += 1
        r = self.spec.intercept(self, st, inst, args)
        if r is None:
            b = self.builtin(inst)
            if b is self.B.m_call and inst.has_body():
                f = self.force(st, args[0])
                if not (type(f) is tuple and f[0] in ("F", "FP")):
                    b = None
            if b is not None:
                # builtins take every decision before their first lasting effect
                r = b(self, st, inst, args)
                if type(r) is tuple and r and r[0] == "CALL":
                    return self.invoke(st, r[1], list(r[2]), dest, target)
                if r is None:
                    raise Unknown("builtin gave nothing: %s" % inst.name)
            elif inst.has_body():
                return self.enter_fn(st, inst, args, dest, target)
            else:
                r = self.spec.leaf(self, st, inst, args, inst.ret)
                if r is None:
                    r = self.ctor(st, inst, args)
                if r is None:
                    if inst.ret is not None and self.tys[inst.ret].k == "never":
                        self.panic(st, self.panic_name(inst))
                        return False
                    self.called_unknown.add(inst.name)
                    raise Unknown("call to %s" % inst.name)
        if r == "STOP":
            return False
        if target is None:
            # diverging call
            self.panic(st, self.panic_name(inst))
            return False
        fr = st.frames[-1]
        if type(dest) is int:
            st.mem[(fr.fid, dest)] = r
        else:
            loc, _ = self.place(st, dest)
            self.store(st, loc, r)
        self.goto(fr, target)
        return True

    def panic_name(self, inst):
        return inst.dfn

    def ctor(self, st, inst, args):
        """Enum variant / tuple struct constructor used as a function."""
        if inst.ret is None:
            return None
        t = self.tys[inst.ret]
        if t.k == "adt" and inst.kind == "item":
            last = inst.dfn.split("::")[-1]
            for i, v in enumerate(t.d["variants"]):
                if v["name"] == last and len(v["fields"]) == len(args):
                    return ("A", i, tuple(args))
        return None

    def builtin(self, inst):
        b = self.builtin_cache.get(inst.id, 0)
        if b == 0:
            b = self.B.lookup(inst)
            self.builtin_cache[inst.id] = b
        return b

    def untuple(self, st, inst, args):
        """Arguments of closures are passed as a tuple."""
        if "{closure#" in inst.dfn and inst.kind == "item" and len(args) == 2 and inst.argc != 2 or \
           ("{closure#" in inst.dfn and inst.kind == "item" and len(args) == 2 and inst.argc == 2):
            tup = self.force(st, args[1])
            if type(tup) is tuple and tup[0] == "A":
                return [args[0]] + list(tup[2])
        return args

    def enter_fn(self, st, inst, args, dest, target):
        args = self.untuple(st, inst, args)
        if inst.spread is not None and len(args) != inst.argc:
            k = inst.spread - 1
            args = args[:k] + [("A", 0, tuple(args[k:]))]
        if len(args) != inst.argc:
            raise Unknown("arity of %s" % inst.name)
        comp = self.scc.get(inst.id)
        if comp is not None:
            roots = {f.inst.id for f in st.frames if f.root}
            onstack = [f.inst.id for f in st.frames if self.scc.get(f.inst.id) == comp]
            if inst.id in onstack or inst.id in self.cut_insts or not onstack:
                self.cut_insts.add(inst.id)
                return self.call_ctx(st, inst, args, dest, target)
        if len(st.frames) > 60:
            raise Unknown("call depth")
        fr = Frame(inst, self.newid(), dest, target)
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        st.frames.append(fr)
        return True

    def ret(self, st, fr):
        v = st.mem.get((fr.fid, 0), UNIT if self.tys[fr.inst.locals[0]].d.get("size") == 0 else U)
        v = self.rv(st, v)
        if fr.root is not None:
            return self.ctx_exit(st, fr, v)
        if len(st.frames) == 1:
            self.stat["returns"] += 1
            self.spec.on_return(self, st, v)
            return False
        st.frames.pop()
        self.pop_locals(st, fr)
        self.finish_call(st, fr.dest, fr.target, v)
        return True

    def pop_locals(self, st, fr):
        for n in range(len(fr.inst.locals)):
            st.mem.pop((fr.fid, n), None)

    def finish_call(self, st, dest, target, v):
        cf = st.frames[-1]
        if target is None:
            raise Stop()
        if type(dest) is int:
            st.mem[(cf.fid, dest)] = v
        else:
            loc, _ = self.place(st, dest)
            self.store(st, loc, v)
        self.goto(cf, target)

    # ------------------------------------------------------------- loop heads
    def loc(self, st):
        return tuple((f.inst.id, f.bb) for f in st.frames) + (st.ctx.cid if st.ctx else None,)

    def at_head(self, st, fr):
        """False if the state is covered by what was already explored."""
        self.stat["heads"] += 1
        h = fr.bb
        body = loop_body(fr.inst, h)
        li = dict(fr.loopi)
        c = li.get(h, 0) + 1
        if fr.prev not in body:
            # (re-)entering the loop
            c = 1
            for b in body:
                li.pop(b, None)
        fr.prev = h
        li[h] = c
        fr.loopi = tuple(li.items())
        loc = self.loc(st)
        H = self.heads.get(loc)
        if H is None:
            H = self.heads[loc] = {"seen": set(), "accs": {}}
        outer = fr.inst.dfn.startswith("jj_roots")
        if self.spec.anchored:
            return self.anchored_head(st, fr, H, c)
        if not st.lossy and st.hv < self.spec.exact_visits and c <= (self.spec.unroll_outer if outer else self.spec.unroll):
            st.hv += 1
            w = Walk(self, st)
            w.run()
            k = (w.exact_key(), c)
            if k in H["seen"]:
                return False
            H["seen"].add(k)
            return True
        # widen: forget consumed cells, then join with the states of the same shape
        w = Walk(self, st)
        w.run()
        self.gc_cells(st, w)
        w = Walk(self, st)
        w.run()
        if w.stuck:
            raise Unknown(w.stuck)
        k = w.shape_key()
        acc = H["accs"].get(k)
        if acc is None:
            if len(H["accs"]) > 400:
                raise Unknown("too many abstract states at a loop head")
            acc = H["accs"][k] = Acc()
        new = acc.add(self, st, w)
        if not new:
            return False
        self.stat["joins"] += 1
        return True

    def anchored_head(self, st, fr, H, c):
        from .anchor import generalise
        w = Walk(self, st)
        w.run()
        self.gc_cells(st, w)
        groups = self.spec.anchors(self, st)
        if c == 1 and (fr.fid, fr.bb) in st.past:
            st.past = {k: v for k, v in st.past.items() if k != (fr.fid, fr.bb)}
        if groups is not None:
            generalise(self, st, groups, self.spec.counters(self, st), (fr.fid, fr.bb))
            self.stat["joins"] += 1
        w = Walk(self, st)
        w.run()
        k = (w.exact_key(), st.lossy)
        if k in H["seen"]:
            return False
        if c > self.spec.max_visits:
            self.undecide("no convergence at a loop head in %s" % fr.inst.name)
            return False
        H["seen"].add(k)
        self.stat["absstates"] = self.stat.get("absstates", 0) + 1
        return True

    def gc_cells(self, st, w):
        """Forget cells the code has moved past; remember automaton states at live positions."""
        live = [v for v, _ in w.slots[w.nghost:w.ntext]]
        # the end of a slice is not a reading position
        rpos = [w.slots[i][0] for i in range(w.nghost, w.ntext) if i not in w.his]
        for tid in list(st.texts):
            t = st.texts[tid]
            if t.cells and t.last is not None:
                n = 0
                pos = t.fpos
                hold = self.spec.keep(self, st, tid)
                for wd, v in t.cells[:t.nmon]:
                    d = st.const_diff(t.last, pos)
                    if d is None:
                        break
                    if hold is not None and (st.const_diff(hold, pos) or 0) <= 0:
                        break
                    nxt = add(pos, wd)
                    if d > 0 or (d == 0 and (any(st.const_diff(x, nxt) == 0 for x in rpos) or not any(st.const_diff(x, pos) == 0 for x in rpos))):
                        n += 1
                        pos = nxt
                    else:
                        break
                if n:
                    self.drop_cells(st, tid, n, live)
            # drop stale marks
            t = st.texts[tid]
            if t.marks:
                keep = []
                for p, m in t.marks:
                    p = st.norm(p)
                    for i, x in enumerate(live):
                        d = st.const_diff(x, p)
                        if d == 0:
                            keep.append((i, d, p, m))
                            break
                keep.sort(key=lambda x: (x[0], x[1]))
                keep = tuple((p, m) for _, _, p, m in keep)
                if keep != t.marks:
                    t = t.clone()
                    t.marks = keep
                    st.texts[tid] = t

    # ------------------------------------------------------------- contexts
    def call_ctx(self, st, inst, args, dest, target):
        from .context import call_ctx
        return call_ctx(self, st, inst, args, dest, target)

    def ctx_exit(self, st, fr, v):
        from .context import ctx_exit
        return ctx_exit(self, st, fr, v)
