"""Whole-program abstract interpreter over monomorphic MIR.

Abstract states are propagated to a fixpoint over all paths of an entry point.
Numbers live in a relational domain (affine equalities plus intervals plus
difference facts), input text lives in per-position value sets driven through a
specification automaton, aggregates and references are tracked exactly, and
recursion is handled by tabulated function contexts.  Nothing is executed.
"""
from fractions import Fraction
from collections import deque
from . import lin as L
from .lin import Lin, add, scale, sym as symlin

USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1
U = ("U",)
UNIT = ("A", 0, ())
BYTE_DOM = ((0, 255),)
CHAR_DOM = ((0, 0xD7FF), (0xE000, 0x10FFFF))


class Fork(Exception):
    """The current step needs a decision: re-execute it under each alternative."""

    def __init__(self, alts, soft=False):
        self.alts = alts
        self.soft = soft


class Stop(Exception):
    """This path ends here (infeasible, or reported)."""


class Unknown(Exception):
    """A construct the analyser does not model."""


class Frame:
    __slots__ = ("inst", "bb", "si", "fid", "dest", "target", "prev", "loopi", "atbody", "root")

    def __init__(self, inst, fid, dest, target):
        self.inst = inst
        self.bb = 0
        self.si = 0
        self.fid = fid
        self.dest = dest
        self.target = target
        self.prev = -1
        self.loopi = ()
        self.atbody = False
        self.root = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.inst = self.inst
        f.bb = self.bb
        f.si = self.si
        f.fid = self.fid
        f.dest = self.dest
        f.target = self.target
        f.prev = self.prev
        f.loopi = self.loopi
        f.atbody = self.atbody
        f.root = self.root
        return f


class Text:
    """A symbolic input text.  cells: ((width, value), ...) starting at fpos."""
    __slots__ = ("kind", "len", "cells", "fpos", "gst", "mst", "gh", "marks", "last", "gen", "mon", "eof", "nmon")

    def __init__(self, kind, length, fpos, gen=None, mon=None):
        self.kind = kind
        self.len = length
        self.cells = ()
        self.fpos = fpos
        self.gen = gen
        self.mon = mon
        self.gst = gen.start if gen else None
        self.mst = mon.start if mon else None
        self.gh = mon.ghosts() if mon else ()
        self.marks = ()
        self.last = None
        self.eof = False
        self.nmon = 0

    def clone(self):
        t = Text.__new__(Text)
        for k in Text.__slots__:
            setattr(t, k, getattr(self, k))
        return t


class State:
    relaxed = None      # symbols that stand for anchor distances (shared)
    free = frozenset()  # symbols that stand for numbers of unknown relation to the rest (shared)
    __slots__ = ("frames", "mem", "dom", "facts", "texts", "exp", "gh", "soft", "trace", "hist", "ctx", "steps", "lossy", "hv", "past")

    def __init__(self):
        self.past = {}
        self.frames = []
        self.mem = {}
        self.dom = {}
        self.facts = ()
        self.texts = {}
        self.exp = {}
        self.gh = {}
        self.soft = None
        self.trace = None
        self.hist = None
        self.ctx = None
        self.steps = 0
        self.lossy = False
        self.hv = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.dom = dict(self.dom)
        s.facts = self.facts
        s.texts = dict(self.texts)
        s.exp = dict(self.exp)
        s.gh = dict(self.gh)
        s.soft = self.soft
        s.trace = self.trace
        s.hist = self.hist
        s.ctx = self.ctx
        s.steps = self.steps
        s.lossy = self.lossy
        s.hv = self.hv
        s.past = self.past
        return s

    def note(self, msg):
        self.trace = (msg, self.trace)

    # ----------------------------------------------------------- numbers
    def norm(self, v):
        """Substitute symbols whose domain is a single value."""
        if type(v) is int:
            return v
        dom = self.dom
        for (s, tab), k in v.t:
            d = dom[s]
            if len(d) == 1 and d[0][0] == d[0][1]:
                break
            if not d:
                raise Stop()
        else:
            return v
        c = v.c
        r = {}
        for (s, tab), k in v.t:
            d = dom[s]
            if len(d) == 1 and d[0][0] == d[0][1]:
                x = d[0][0]
                c += k * (x if tab == 0 else L.TABS[tab][x])
            else:
                r[(s, tab)] = k
        return L.mk(c, r)

    def small_sym(self, v):
        """The only symbol of v if its domain lies within 0..255, else None."""
        s = None
        for (x, tab), k in v.t:
            if s is None:
                s = x
            elif s != x:
                return None
        d = self.dom[s]
        if d and d[-1][1] <= 255:
            return s
        return None

    def fn_range(self, s, parts):
        d = self.dom[s]
        if not d:
            raise Stop()
        if len(parts) == 1 and parts[0][0] == 0:
            k = parts[0][1]
            a, b = k * d[0][0], k * d[-1][1]
            return (a, b) if a <= b else (b, a)
        lo = hi = None
        for v in L.d_vals(d):
            x = 0
            for tab, k in parts:
                x += k * (v if tab == 0 else L.TABS[tab][v])
            if lo is None or x < lo:
                lo = x
            if hi is None or x > hi:
                hi = x
        return lo, hi

    def parts(self, v):
        r = {}
        for (s, tab), k in v.t:
            r.setdefault(s, []).append((tab, k))
        return r

    def rng(self, v):
        if type(v) is int:
            return v, v
        lo = hi = v.c
        for s, ps in self.parts(v).items():
            a, b = self.fn_range(s, ps)
            lo += a
            hi += b
        return lo, hi

    def text_facts(self, v):
        ss = L.syms_of(v)
        for t in self.texts.values():
            if type(t.len) is not int and (L.syms_of(t.len) & ss):
                yield add(ISIZE_MAX, t.len, -1)
            end = t.fpos
            for c in t.cells:
                end = add(end, c[0])
            rest = add(t.len, end, -1)
            if type(rest) is not int and (L.syms_of(rest) & ss):
                yield rest

    def lower(self, v, enough=0):
        """A lower bound of v, using the facts."""
        lo, hi = self.rng(v)
        if type(v) is int or lo >= enough:
            return lo
        best = lo
        fs = [f for f in self.facts if L.syms_of(f) & L.syms_of(v)]
        fs += list(self.text_facts(v))
        for f in fs:
            r = add(v, f, -1)
            x = self.rng(r)[0]
            if x > best:
                best = x
            if type(r) is not int and len(fs) <= 40:
                for g in fs:
                    if g is f:
                        continue
                    x = self.rng(add(r, g, -1))[0]
                    if x > best:
                        best = x
        return best

    def upper(self, v):
        return -self.lower(scale(v, -1))

    def ge0(self, v):
        """True / False / None: is v >= 0?"""
        if type(v) is int:
            return v >= 0
        lo, hi = self.rng(v)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if self.lower(v) >= 0:
            return True
        if self.lower(add(-1, v, -1)) >= 0:
            return False
        return None

    def is0(self, v):
        if type(v) is int:
            return v == 0
        ss = {}
        lo = hi = v.c
        for s, ps in self.parts(v).items():
            a, b = self.fn_range(s, ps)
            lo += a
            hi += b
            ss[s] = (a, b, ps)
        if lo == hi:
            return lo == 0
        if lo > 0 or hi < 0:
            return False
        if len(ss) == 1:
            s, (a, b, ps) = next(iter(ss.items()))
            d = self.dom[s]
            if d[-1][1] <= 255:
                if all(v.c + sum(k * (x if tab == 0 else L.TABS[tab][x]) for tab, k in ps) != 0 for x in L.d_vals(d)):
                    return False
                return None
            if len(ps) == 1 and ps[0][0] == 0:
                k = ps[0][1]
                if v.c % k or not L.d_has(d, -v.c // k):
                    return False
        lo, hi = self.lower(v, 1), -self.lower(scale(v, -1), 1)
        if lo > 0 or hi < 0:
            return False
        if lo == 0 == hi:
            return True
        return None

    def const_diff(self, a, b):
        a = self.norm(a)
        b = self.norm(b)
        if type(a) is int:
            return a - b if type(b) is int else None
        if type(b) is int or a.t != b.t:
            return None
        return a.c - b.c

    # ----------------------------------------------------------- deciding
    def restrict(self, s, d):
        d2 = L.d_and(self.dom[s], d)
        if not d2:
            return False
        self.dom[s] = d2
        if self.facts and len(d2) == 1 and d2[0][0] == d2[0][1]:
            # what is known of it becomes known of the others
            fs = [f for f in self.facts if s in L.syms_of(f)]
            if fs:
                self.facts = tuple(f for f in self.facts if s not in L.syms_of(f))
                return all(self.add_fact(f) for f in fs)
        return True

    def restrict1(self, s, d):
        if s in self.free:
            self.lossy = True
        return self.restrict(s, d)

    def _split_sym(self, s, parts, c, pred):
        d = self.dom[s]
        if len(parts) == 1 and parts[0][0] == 0 and d[-1][1] > 255:
            return None
        t, f = [], []
        for x in L.d_vals(d):
            v = c + sum(k * (x if tab == 0 else L.TABS[tab][x]) for tab, k in parts)
            (t if pred(v) else f).append(x)
        return L.d_from(t), L.d_from(f)

    def need_ge0(self, v):
        v = self.norm(v)
        r = self.ge0(v)
        if r is not None:
            return r
        ps = self.parts(v)
        if len(ps) == 1:
            s, parts = next(iter(ps.items()))
            sp = self._split_sym(s, parts, v.c, lambda x: x >= 0)
            if sp is None:
                k = parts[0][1]
                # c + k*x >= 0
                big = 1 << 130
                if k > 0:
                    b = -(v.c // k)      # ceil(-c/k)
                    td, fd = ((b, big),), ((-big, b - 1),)
                else:
                    b = v.c // (-k)      # floor(c/-k)
                    td, fd = ((-big, b),), ((b + 1, big),)
                sp = L.d_and(self.dom[s], td), L.d_and(self.dom[s], fd)
            raise Fork([(lambda st, d=d: st.restrict1(s, d)) for d in sp if d])
        return self._multi(v, ps, "ge")

    def need_is0(self, v):
        v = self.norm(v)
        r = self.is0(v)
        if r is not None:
            return r
        ps = self.parts(v)
        if len(ps) == 1:
            s, parts = next(iter(ps.items()))
            sp = self._split_sym(s, parts, v.c, lambda x: x == 0)
            if sp is None:
                k = parts[0][1]
                b = -v.c // k
                sp = ((b, b),), L.d_sub(self.dom[s], ((b, b),))
            more = None
            lo, hi = self.rng(v)
            if lo < 0 or self.facts and any(s in L.syms_of(f) for f in self.facts):
                # what the facts say of the sign, once it is not zero
                more = add(v, -1) if self.lower(v) >= 0 else add(-1, v, -1) if self.lower(scale(v, -1)) >= 0 else None
            raise Fork([(lambda st, d=d, i=i: st.restrict1(s, d) and (more is None or i == 0 or st.add_fact(more))) for i, d in enumerate(sp) if d])
        return self._multi(v, ps, "eq")

    def _multi(self, v, ps, op):
        """Several symbols: split the finite one with the largest spread."""
        fin = [(self.fn_range(s, p), s, p) for s, p in ps.items() if self.dom[s][-1][1] - self.dom[s][0][0] <= 0x110000
               and L.d_size(self.dom[s]) <= 300]
        rest_big = len(fin) < len(ps)
        if fin and not rest_big:
            fin.sort(key=lambda x: -(x[0][1] - x[0][0]))
            (a, b), s, p = fin[0]
            rl = rh = v.c
            for s2, p2 in ps.items():
                if s2 != s:
                    x, y = self.fn_range(s2, p2)
                    rl += x
                    rh += y
            groups = {"T": [], "F": []}
            und = {}
            for x in L.d_vals(self.dom[s]):
                val = sum(k * (x if tab == 0 else L.TABS[tab][x]) for tab, k in p)
                lo, hi = rl + val, rh + val
                if op == "ge":
                    if lo >= 0:
                        groups["T"].append(x)
                    elif hi < 0:
                        groups["F"].append(x)
                    else:
                        und.setdefault(val, []).append(x)
                else:
                    if lo > 0 or hi < 0:
                        groups["F"].append(x)
                    elif lo == hi == 0:
                        groups["T"].append(x)
                    else:
                        und.setdefault(val, []).append(x)
            if len(und) <= 64:
                ds = [L.d_from(g) for g in groups.values() if g] + [L.d_from(g) for g in und.values()]
                if len(ds) > 1:
                    raise Fork([(lambda st, d=d: st.restrict(s, d)) for d in ds])
                raise Unknown("cannot split %s" % v)
        # relational: add a fact
        def fact(st, *vs):
            if self.relaxed and (len([s for s in ps if s in self.relaxed]) > 1 or any(s in self.free for s in ps)):
                st.lossy = True
            return all(st.add_fact(x) for x in vs)
        if op == "ge":
            raise Fork([lambda st: fact(st, v), lambda st: fact(st, add(-1, v, -1))], soft=False)
        if all(len(p) == 1 and p[0][0] == 0 for p in ps.values()):
            for sign in (1, -1):
                # a sum of terms that cannot be negative is 0 where each of them is
                ends = {s: self.dom[s][0 if p[0][1] * sign > 0 else -1][0 if p[0][1] * sign > 0 else 1] for s, p in ps.items()}
                if v.c + sum(p[0][1] * ends[s] for s, p in ps.items()) == 0:
                    raise Fork([lambda st: fact(st) and all(st.restrict1(s, ((e, e),)) for s, e in ends.items()),
                                lambda st: fact(st, add(scale(v, sign), -1))], soft=False)
        raise Fork([lambda st: fact(st, v, scale(v, -1)),
                    lambda st: fact(st, add(v, 1, -1)),
                    lambda st: fact(st, add(-1, v, -1))], soft=False)

    def add_fact(self, v):
        v = self.norm(v)
        r = self.ge0(v)
        if r is True:
            return True
        if r is False:
            return False
        ps = self.parts(v)
        if len(ps) == 1:
            s, parts = next(iter(ps.items()))
            if len(parts) == 1 and parts[0][0] == 0:
                k = parts[0][1]
                big = 1 << 130
                if k > 0:
                    return self.restrict(s, ((-(v.c // k), big),))
                return self.restrict(s, ((-big, v.c // (-k)),))
        self.facts = self.facts + (v,)
        return True

    def add_eq(self, a, b):
        d = self.norm(add(a, b, -1))
        if type(d) is int:
            return d == 0
        return self.add_fact(d) and self.add_fact(scale(d, -1))


def agg(*fields):
    return ("A", 0, tuple(fields))


# ---------------------------------------------------------------- static facts
def place_base(p):
    return p if type(p) is int else p[0]


def place_uses(p, acc):
    if type(p) is int:
        acc.add(p)
    else:
        acc.add(p[0])
        for e in p[1:]:
            if e[0] == "i":
                acc.add(e[1])


def op_uses(o, acc):
    if "cp" in o:
        place_uses(o["cp"], acc)
    elif "mv" in o:
        place_uses(o["mv"], acc)


def rv_uses(r, acc):
    k = r[0]
    if k == "use":
        op_uses(r[1], acc)
    elif k in ("bin", "cbin"):
        op_uses(r[2], acc)
        op_uses(r[3], acc)
    elif k == "un":
        op_uses(r[2], acc)
    elif k == "cast":
        op_uses(r[2], acc)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, acc)
    elif k in ("disc", "len"):
        place_uses(r[1], acc)
    elif k in ("ref", "addr"):
        place_uses(r[2], acc)
    elif k == "repeat":
        op_uses(r[1], acc)


def dest_effect(p, live):
    if type(p) is int:
        live.discard(p)
    else:
        place_uses(p, live)


_LIVE = {}


def liveness(inst):
    r = _LIVE.get(inst)
    if r is not None:
        return r
    n = len(inst.blocks)
    livein = [set() for _ in range(n)]
    preds = [[] for _ in range(n)]
    for b in range(n):
        for s in inst.succs(b):
            preds[s].append(b)

    def transfer(b):
        live = set()
        for s in inst.succs(b):
            live |= livein[s]
        t = inst.blocks[b]["t"]
        k = t[0]
        if k == "ret":
            live = {0}
        elif k == "sw":
            op_uses(t[1], live)
        elif k == "call":
            dest_effect(t[4], live)
            for o in t[3]:
                op_uses(o, live)
            if t[2]:
                op_uses(t[2], live)
        elif k == "assert":
            op_uses(t[1], live)
            for o in t[4]:
                op_uses(o, live)
        for s in reversed(inst.blocks[b]["s"]):
            if s[0] == "=":
                dest_effect(s[1], live)
                rv_uses(s[2], live)
            elif s[0] == "sd":
                place_uses(s[1], live)
            elif s[0] == "dead":
                live.discard(s[1])
            elif s[0] == "cno":
                for o in s[1]:
                    op_uses(o, live)
        return live

    work = deque(range(n - 1, -1, -1))
    inw = set(work)
    while work:
        b = work.popleft()
        inw.discard(b)
        nl = transfer(b)
        if nl != livein[b]:
            livein[b] = nl
            for p in preds[b]:
                if p not in inw:
                    inw.add(p)
                    work.append(p)
    _LIVE[inst] = livein
    return livein


_LOOPS = {}


def loop_body(inst, h):
    r = _LOOPS.get((inst, h))
    if r is not None:
        return r
    preds = {}
    for b in range(len(inst.blocks)):
        for s in inst.succs(b):
            preds.setdefault(s, []).append(b)
    # forward reachability from h
    reach = set()
    st = [h]
    while st:
        b = st.pop()
        if b in reach:
            continue
        reach.add(b)
        st.extend(inst.succs(b))
    body = {h}
    st = [p for p in preds.get(h, ()) if p in reach]
    while st:
        b = st.pop()
        if b in body:
            continue
        body.add(b)
        st.extend(p for p in preds.get(b, ()) if p in reach)
    _LOOPS[(inst, h)] = body
    return body


def call_sccs(prog):
    """Strongly connected components of the resolved call graph (non-trivial ones)."""
    n = len(prog.insts)
    adj = [[] for _ in range(n)]
    selfrec = set()
    for x in prog.insts:
        if x.model is not None:
            adj[x.id].append(x.model)
        if not x.blocks:
            continue
        for b in x.blocks:
            t = b["t"]
            if t[0] == "call" and type(t[1]) is int:
                adj[x.id].append(t[1])
                if t[1] == x.id:
                    selfrec.add(x.id)
    index = {}
    low = {}
    onst = set()
    stack = []
    comp = {}
    cnt = [0]
    for root in range(n):
        if root in index:
            continue
        work = [(root, 0)]
        while work:
            v, i = work.pop()
            if i == 0:
                index[v] = low[v] = cnt[0]
                cnt[0] += 1
                stack.append(v)
                onst.add(v)
            rec = False
            for j in range(i, len(adj[v])):
                w = adj[v][j]
                if w not in index:
                    work.append((v, j + 1))
                    work.append((w, 0))
                    rec = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if rec:
                continue
            if low[v] == index[v]:
                c = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    c.append(w)
                    if w == v:
                        break
                if len(c) > 1 or v in selfrec:
                    for w in c:
                        comp[w] = v
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    return comp
