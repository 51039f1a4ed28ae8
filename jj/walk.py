"""Canonical traversal of abstract states; joining of states of the same shape."""
from fractions import Fraction
from . import lin as L
from .lin import Lin, add, scale, sym as symlin
from .engine import (Stop, Unknown, U, ISIZE_MAX, USIZE_MAX, liveness, place_uses)


def show_dom(d):
    out = []
    for l, h in d:
        def ch(x):
            if 33 <= x < 127:
                return "'%s'" % chr(x)
            return "0x%02X" % x
        out.append(ch(l) if l == h else "%s..%s" % (ch(l), ch(h)))
    if len(out) > 6:
        out = out[:5] + ["..."]
    return "{" + ",".join(out) + "}" if len(out) != 1 else out[0]


CTAB = {}
SMALL_KINDS = ("bool", "char")


class Walk:
    """Visits everything live in a state in a canonical order."""

    def __init__(self, eng, st, extra=(), frames=None):
        self.eng = eng
        self.st = st
        self.extra = extra            # values visited first, (value, ty)
        self.frames = st.frames if frames is None else frames
        self.stuck = None
        self.repl = None

    def run(self):
        self.go()
        return self

    def rewrite(self, vals):
        """The same traversal, replacing the slots by vals; updates the state."""
        self.repl = iter(vals)
        self.go()
        st = self.st
        st.mem = self.newmem
        st.texts = self.newtexts
        st.gh = self.newgh
        st.exp = {}
        return self.newextra

    def go(self):
        st = self.st
        self.tok = []
        self.slots = []
        self.his = set()
        self.los = set()
        self.counts = set()
        self.symno = {}
        self.idno = {}
        self.keyno = {}
        self.queue = []
        self.textno = {}
        self.textq = []
        self.newmem = {}
        self.newtexts = {}
        self.newgh = {}
        self.newextra = []
        fidno = {f.fid: i for i, f in enumerate(st.frames)}
        self.fidno = fidno
        self.vispos = {}
        for v, ty in self.extra:
            self.newextra.append(self.tr(v, ty))
        for k in sorted(st.gh, key=str):
            self.tok.append(("gh", k))
            self.newgh[k] = self.tr(st.gh[k], None)
        self.nghost = len(self.slots)
        if st.ctx is not None:
            for k in st.ctx.pins:
                self.key(k)
        n = len(self.frames)
        for i, f in enumerate(self.frames):
            top = i + 1 == n
            self.tok.append(("f", f.inst.id, f.bb, f.target, str(f.dest), f.root is not None))
            for l in sorted(self.live(f, top)):
                if (f.fid, l) in st.mem:
                    self.key((f.fid, l))
        for tid in sorted((t for t in st.texts if st.texts[t].mon is not None), key=str):
            self.text(tid)
        if True:
            while self.queue:
                k = self.queue.pop(0)
                self.tok.append(("m", self.keyno[k]))
                if k[0] == "g":
                    continue
                if k not in st.mem:
                    self.tok.append("?")
                    continue
                ty = self.keyty(k)
                self.newmem[k] = self.tr(st.mem[k], ty)
        # everything but the texts comes before ntext
        self.ntext = len(self.slots)
        while self.textq:
            self.dotext(self.textq.pop(0))

    def live(self, f, top):
        """Live locals of a frame: at the entry of its block (top frame) or after the pending call."""
        if f.bb < 0:
            return {0}
        lv = liveness(f.inst)
        if top:
            return lv[f.bb]
        t = f.inst.blocks[f.bb]["t"]
        if t[0] != "call" or t[5] is None:
            return set()
        s = set(lv[t[5]])
        d = t[4]
        if type(d) is int:
            s.discard(d)
        else:
            place_uses(d, s)
        return s

    def keyty(self, k):
        if k[0] == "o":
            return self.eng.objty.get(k)
        for f in self.st.frames:
            if f.fid == k[0]:
                return f.inst.locals[k[1]]
        return None

    def key(self, k):
        n = self.keyno.get(k)
        if n is None:
            if k[0] in self.fidno:
                n = ("F", self.fidno[k[0]], k[1])
            elif k[0] == "g":
                n = k
            else:
                n = ("K", len(self.keyno))
            self.keyno[k] = n
            self.queue.append(k)
        return n

    def sym(self, s):
        n = self.symno.get(s)
        if n is None:
            n = self.symno[s] = len(self.symno)
        return n

    def ident(self, oid):
        n = self.idno.get(oid)
        if n is None:
            n = self.idno[oid] = len(self.idno)
        return n

    def text(self, tid):
        n = self.textno.get(tid)
        if n is None:
            n = self.textno[tid] = len(self.textno)
            self.textq.append(tid)
        return n

    def slot(self, v, ty):
        v = self.st.norm(v)
        if type(v) is not int:
            for s in sorted(L.syms_of(v)):
                self.sym(s)
        b = self.bucket(v)
        self.tok.append(("#", len(self.slots), b))
        self.slots.append((add(v, -(b << 62)), ty))
        if self.repl is not None:
            return add(next(self.repl), b << 62)
        return v

    def bucket(self, v):
        if type(v) is int:
            return max(v >> 62, 0)
        b = self.st.rng(v)[0] >> 62
        return max(b, 0)

    def wide(self, ty):
        t = self.eng.tys[ty]
        return t.k in ("uint", "int") and t.d["bits"] > 8

    def wide64(self, ty):
        t = self.eng.tys[ty]
        return t.k in ("uint", "int") and t.d["bits"] > 32

    def tr(self, v, ty):
        st = self.st
        tok = self.tok
        v = self.eng.rv(st, v)
        if type(v) is int:
            if ty is not None and self.wide64(ty):
                return self.slot(v, ty)
            tok.append(v)
            return v
        if type(v) is Lin:
            v = st.norm(v)
            if type(v) is int:
                return self.tr(v, ty)
            if (ty is not None and self.wide(ty)) or (ty is None and any(self.eng.symkind[s] == "p" for s in L.syms_of(v))):
                return self.slot(v, ty)
            tok.append(("l", v.c, tuple(((self.sym(s), self.ctab(s, t)), k) for (s, t), k in v.t)))
            return v
        if v is None or type(v) is str:
            tok.append(v)
            return v
        k = v[0]
        if k == "A":
            tok.append(("A", v[1], len(v[2])))
            return ("A", v[1], tuple(self.tr(x, self.fty(ty, v[1], i)) for i, x in enumerate(v[2])))
        if k == "V":
            tok.append(("V", len(v[1])))
            e = self.fty(ty, 0, 0)
            return ("V", tuple(self.tr(x, e) for x in v[1]))
        if k == "R":
            tok.append(("R", self.key(v[1]), len(v[2])))
            return ("R", v[1], tuple(self.path(e) for e in v[2]))
        if k == "SL":
            tok.append(("SL", self.key(v[1]), len(v[2])))
            return ("SL", v[1], tuple(self.path(e) for e in v[2]), self.slot(v[3], None), self.slot(v[4], None))
        if k == "S":
            if v[1][0] == "k" and type(v[2]) is int and type(v[3]) is int:
                tok.append(v)
                return v
            tok.append(("S", v[1] if v[1][0] == "k" else self.text(v[1])))
            self.los.add(len(self.slots))
            lo = self.slot(v[2], None)
            self.his.add(len(self.slots))
            return ("S", v[1], lo, self.slot(v[3], None))
        if k == "C":
            tok.append(("C", v[1] if v[1][0] == "k" else self.text(v[1])))
            return ("C", v[1], self.slot(v[2], None))
        if k == "O":
            tok.append(("O", self.ident(v[1]), v[2]))
            return v
        if k == "N":
            self.counts.add(len(self.slots))
            return ("N", self.slot(v[1], None))
        if k == "P":
            tok.append("P")
            return ("P", self.slot(v[1], None))
        if k == "ID":
            tok.append(("ID", self.ident(v[1])))
            return v
        if k == "B":
            tok.append(("B", v[1], len(v)))
            return ("B", v[1]) + tuple(self.tr(x, None) for x in v[2:])
        if k == "L":
            tok.append(("L", len(v[1])))
            return ("L", tuple(self.tr(x, None) for x in v[1]))
        if k in ("F", "FP", "U", "T", "t"):
            tok.append(v)
            return v
        raise Unknown("walk of %s" % (str(v)[:60],))

    def path(self, e):
        if type(e) is int or type(e) is str:
            self.tok.append(e)
            return e
        return self.tr(e, None)

    def fty(self, ty, variant, i):
        if ty is None:
            return None
        return self.eng.field_ty(ty, variant, i)

    def dotext(self, tid):
        st = self.st
        t = st.texts[tid]
        self.tok.append(("text", self.textno[tid], t.kind, t.gst, t.mst, t.nmon, tid if tid[0] == "in" else None))
        n = t.clone()
        cells = []
        for w, v in t.cells:
            self.tok.append(w)
            cells.append((w, self.tr(v, None)))
        n.cells = tuple(cells)
        n.fpos = self.slot(t.fpos, None)
        rest = self.slot(add(t.len, t.fpos, -1), None)
        n.len = add(n.fpos, rest)
        n.gh = tuple(self.slot(x, None) for x in t.gh)
        ms = []
        for p, m in t.marks:
            self.tok.append(("mark", m))
            ms.append((self.slot(p, None), m))
        n.marks = tuple(ms)
        n.last = None
        if t.last is not None:
            d = st.const_diff(t.last, t.fpos)
            if d is not None and d >= 0:
                n.last = add(n.fpos, d)
                self.tok.append(("last", d))
        self.newtexts[tid] = n

    # ------------------------------------------------------------------ keys
    def doms(self, syms):
        return tuple(self.st.dom[s] for s, _ in sorted(syms, key=lambda x: x[1]))

    def shape_key(self):
        # symbols that appear in non-slot positions keep their domains in the key
        used = set()
        for t in self.tok:
            if type(t) is tuple and t and t[0] == "l":
                for (s, _), _k in t[2]:
                    used.add(s)
        inv = {n: s for s, n in self.symno.items()}
        return (tuple(self.tok), tuple((n, self.st.dom[inv[n]]) for n in sorted(used)), self.st.soft is not None)

    def exact_key(self):
        st = self.st
        vals = []
        for v, ty in self.slots:
            vals.append(self.cv(v))
        # facts over the visited symbols
        pend = list(st.facts)
        fs = []
        changed = True
        while changed:
            changed = False
            for f in list(pend):
                ss = L.syms_of(f)
                if any(s in self.symno for s in ss):
                    pend.remove(f)
                    for s in sorted(ss):
                        self.sym(s)
                    fs.append(f)
                    changed = True
        fk = tuple(sorted((self.cv(f) for f in fs), key=str))
        return (tuple(self.tok), tuple(vals), fk, self.doms(list(self.symno.items())), st.soft is not None)

    def cv(self, v):
        if type(v) is int:
            return v
        return (v.c, tuple(sorted(((self.sym(s), self.ctab(s, t)), k) for (s, t), k in v.t)))

    def ctab(self, s, t):
        """A table restricted to the values its argument can take."""
        if t == 0:
            return ()
        d = self.st.dom[s]
        k = (t, d)
        r = CTAB.get(k)
        if r is None:
            tab = L.TABS[t]
            r = CTAB[k] = CTAB.setdefault(tuple(tab[x] for x in L.d_vals(d)), tuple(tab[x] for x in L.d_vals(d)))
        return r


def remap(v, f):
    return f(v)


LO_T = [1, 0, -1, -128, -(1 << 31), -(1 << 63), -(1 << 130)]
HI_T = [1, 127, 255, 65535, 0x10FFFF, (1 << 32) - 1, ISIZE_MAX, USIZE_MAX, 1 << 130]


def widen_lo(old, new):
    if new >= old:
        return old
    for t in LO_T:
        if t <= new:
            return t
    return new


def widen_hi(old, new):
    if new <= old:
        return old
    for t in HI_T:
        if t >= new:
            return t
    return new


class Acc:
    """The join of all states of one shape seen at a point."""

    def __init__(self, delay=2):
        self.x0 = None
        self.rows = []       # RREF basis: list of (pivot, row) with row[pivot] = 1
        self.lo = None
        self.hi = None
        self.diff = {}       # (i, j) -> lower bound of slot_i - slot_j
        self.count = 0
        self.changes = 0
        self.delay = delay
        self.exact = None

    # vectors ---------------------------------------------------------------
    def reduce(self, vec):
        """vec minus its projection on the basis (exact arithmetic)."""
        v = dict(vec)
        for p, row in self.rows:
            k = v.get(p)
            if k:
                for i, x in row.items():
                    y = v.get(i, 0) - k * x
                    if y:
                        v[i] = y
                    else:
                        v.pop(i, None)
        return v

    def insert(self, vec):
        v = self.reduce(vec)
        if not v:
            return False
        # prefer a pivot with coefficient +-1
        p = min(v, key=lambda i: (abs(v[i]) != 1, i))
        k = Fraction(v[p])
        v = {i: Fraction(x) / k for i, x in v.items()}
        rows = []
        for q, row in self.rows:
            c = row.get(p)
            if c:
                row = dict(row)
                for i, x in v.items():
                    y = row.get(i, 0) - c * x
                    if y:
                        row[i] = y
                    else:
                        row.pop(i, None)
            rows.append((q, row))
        rows.append((p, v))
        self.rows = rows
        return True

    def integral(self):
        """Make every coefficient an integer by adding unit directions where needed."""
        while True:
            bad = None
            for p, row in self.rows:
                for i, x in row.items():
                    if Fraction(x).denominator != 1:
                        bad = i
                        break
                if bad is not None:
                    break
            if bad is None:
                return
            self.insert({bad: Fraction(1)})

    def vectors(self, vals):
        """(constant vector, direction vectors) of symbolic slot values."""
        dirs = {}
        const = []
        for i, v in enumerate(vals):
            if type(v) is int:
                const.append(v)
            else:
                const.append(v.c)
                for at, k in v.t:
                    dirs.setdefault(at, {})[i] = Fraction(k)
        return const, dirs

    def add(self, eng, st, walk):
        """Join the state in; rewrite st to the join.  False if it was covered."""
        vals = [st.norm(v) for v, _ in walk.slots]
        const, dirs = self.vectors(vals)
        new = False
        if self.x0 is None:
            self.x0 = const
            new = True
        else:
            d = {i: Fraction(a - b) for i, (a, b) in enumerate(zip(const, self.x0)) if a != b}
            if d and self.insert(d):
                new = True
        for at in sorted(dirs):
            if self.insert(dirs[at]):
                new = True
        self.integral()
        n = len(vals)
        wide = self.count >= self.delay
        # intervals of every slot
        lohi = []
        for v in vals:
            lo, hi = st.rng(v)
            if type(v) is not int:
                lo = max(lo, st.lower(v)) if st.facts or st.texts else lo
                hi = min(hi, st.upper(v)) if st.facts or st.texts else hi
            lohi.append((lo, hi))
        narrow = [ty is None or walk.wide64(ty) for _, ty in walk.slots]
        if self.lo is None:
            self.lo = [x[0] for x in lohi]
            self.hi = [x[1] for x in lohi]
        else:
            for i, (lo, hi) in enumerate(lohi):
                w = wide if narrow[i] else self.changes > 25
                if lo < self.lo[i]:
                    self.lo[i] = widen_lo(self.lo[i], lo) if w else lo
                    new = True
                if hi > self.hi[i]:
                    self.hi[i] = widen_hi(self.hi[i], hi) if w else hi
                    new = True
        # pairwise differences
        reps = {}
        for i, v in enumerate(vals):
            reps.setdefault(v, i)
        first = self.count == 0
        if first:
            self.diff = {}
            for i in range(n):
                for j in range(n):
                    if i == j or (type(vals[i]) is int and type(vals[j]) is int and False):
                        continue
                    x = self.dlow(st, vals[i], vals[j])
                    if x is not None:
                        self.diff[(i, j)] = x
        else:
            cache = {}
            for (i, j), b in list(self.diff.items()):
                kk = (vals[i], vals[j])
                if kk in cache:
                    x = cache[kk]
                else:
                    x = cache[kk] = self.dlow(st, vals[i], vals[j])
                if x is None:
                    del self.diff[(i, j)]
                    new = True
                elif x < b:
                    if wide:
                        x2 = 1 if x >= 1 else 0 if x >= 0 else None
                    else:
                        x2 = x
                    if x2 is None:
                        del self.diff[(i, j)]
                    else:
                        self.diff[(i, j)] = x2
                    new = True
        self.count += 1
        if self.count > 1:
            st.lossy = True
        if not new:
            return False
        self.changes += 1
        if self.changes > 40:
            raise Unknown("no convergence at a loop head")
        self.install(eng, st, walk)
        return True

    def dlow(self, st, a, b):
        d = st.norm(add(a, b, -1))
        lo = st.lower(d)
        if lo < -64 or lo > (1 << 40):
            return None
        return lo

    def install(self, eng, st, walk):
        """Rewrite st so that its slots range over the joined set."""
        n = len(self.x0)
        keepsyms = set()
        for t in walk.tok:
            if type(t) is tuple and t and t[0] == "l":
                keepsyms |= {s for (s, _), _k in t[2]}
        inv = {m: s for s, m in walk.symno.items()}
        dom = {inv[m]: st.dom[inv[m]] for m in keepsyms}
        out = list(self.x0)
        old = st.dom
        st.dom = dom
        st.facts = ()
        piv = {}
        for p, row in self.rows:
            s = eng.newsym(st, ((self.lo[p], self.hi[p]),), "p")
            piv[p] = s
            for i, x in row.items():
                x = int(x)
                # slot_i = x0_i + x * (s - x0_p)
                out[i] = add(out[i], add(scale(s, x), -x * self.x0[p]))
        vals = []
        for i in range(n):
            vals.append(st.norm(out[i]))
        new = st.dom
        st.dom = {**old, **new}
        walk.rewrite(vals)
        st.dom = new
        seen = set()
        for i in range(n):
            if i in piv or type(vals[i]) is int:
                continue
            lo, hi = st.rng(vals[i])
            if lo < self.lo[i]:
                self.fact(st, add(vals[i], -self.lo[i]), seen)
            if hi > self.hi[i]:
                self.fact(st, add(self.hi[i], vals[i], -1), seen)
        for (i, j), b in sorted(self.diff.items()):
            d = add(add(vals[i], vals[j], -1), -b)
            self.fact(st, d, seen)

    def fact(self, st, v, seen):
        v = st.norm(v)
        if type(v) is int:
            if v < 0:
                raise Stop()
            return
        if v in seen:
            return
        seen.add(v)
        if st.rng(v)[0] >= 0:
            return
        if not st.add_fact(v):
            raise Stop()
