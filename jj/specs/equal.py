"""Equality of values: of the same kind, and equal member by member, in order."""
import re

from ..builtins import deref, ref_write
from ..engine import Fork, Stop, Unknown
from ..lin import add, scale
from ..anchor import Group
from .seqs import EMPTY, find_vec
from .unit import Unit, run_unit
from .values import args_of

CMP = re.compile(r"^<justjson::(Value|JsonString|JsonNumber)<.*> as std::cmp::PartialEq(<.*>)?>::(eq|ne)$")


class Equal(Unit):
    anchored = True
    time_limit = 60
    max_visits = 60

    def __init__(self, root):
        Unit.__init__(self, self.setup0, self.check0, self.hook0)
        self.root = root
        self.key = "equal:" + root

    def setup0(self, _, eng, st):
        a = args_of(self, eng, st, self.inst)
        va, vb = (eng.force(st, st.mem[x[1]]) for x in a)
        name = lambda r, v: eng.tys[eng.objty[r[1]]].d["variants"][v[1]]["name"] if len(eng.tys[eng.objty[r[1]]].d["variants"]) > 1 else "Object"
        ka, kb = name(a[0], va), name(a[1], vb)
        st.gh["kinds"] = ("L", (("T", ka), ("T", kb)))
        st.gh["args"] = ("L", tuple(a))
        st.gh["done"] = ("P", 0)        # so many members from the first on are equal
        st.gh["cur"] = ("L", (None, None))   # the one after them: its key (or value), its value
        st.gh["later"] = 0              # something was compared out of order
        st.gh["diff"] = 0               # a pair of members is known to differ
        st.gh["vecs"] = ("T", None)
        if ka == kb and ka in ("Array", "Object"):
            (pa, ua), (pb, ub) = find_vec(eng, st, va), find_vec(eng, st, vb)
            ta, tb = ua[2][1], ub[2][1]
            if "len" not in st.gh:
                def rel(k):
                    def f(s):
                        s.gh["len"] = k
                        return True
                    return f
                raise Fork([rel(0), rel(1), rel(2)])
            k = st.gh["len"]
            short, long = (ta, tb) if k != 2 else (tb, ta)
            n = st.texts[short].len
            t = st.texts[long].clone()
            t.len = n if k == 0 else add(n, eng.param(st, 1, 1 << 40, "m"))
            st.texts[long] = t
            for r, p, u, tid in ((a[0], pa, ua, ta), (a[1], pb, ub, tb)):
                self.put(eng, st, r, p, tid, u)
            st.gh["vecs"] = ("L", (("S", ta, 0, st.texts[ta].len), ("S", tb, 0, st.texts[tb].len)))
        st.gh.setdefault("len", 0)
        return a

    def put(self, eng, st, r, p, tid, u):
        ref_write(eng, st, ("R", r[1], tuple(p)), ("B", "vec", ("S", tid, 0, st.texts[tid].len), u[3]))

    # ------------------------------------------------------------ abstraction
    def anchors(self, eng, st):
        v = st.gh["vecs"]
        if v[1] is None:
            return []
        ts = [x[1] for x in v[1]]
        if st.gh["len"] == 2:
            ts.reverse()
        d = st.norm(st.gh["done"][1])
        if st.gh["diff"]:       # only how far the program has come matters now
            d = max((st.norm(st.texts[t].fpos) for t in ts if t in st.texts), key=st.lower, default=0)
        if type(d) is int and d < 4:        # small constants of the program are not positions
            return []
        out = []
        for t in ts:
            if t not in st.texts:
                return []
            g = Group(t, [(d, None)] if not st.gh["diff"] else [])
            g.follow = True
            if out:
                g.tie = ts[0]
            out.append(g)
        return out

    # ------------------------------------------------------------ comparisons
    def place(self, eng, st, r):
        """(side, position, field) of a member, or None."""
        r = eng.force(st, r)
        while type(r) is tuple and r[0] == "R":
            x = self.place1(eng, st, r)
            if x is not None:
                return x
            v = deref(eng, st, r)
            if type(v) is not tuple or v[0] != "R":
                return None
            r = v
        return None

    def place1(self, eng, st, r):
        vs = st.gh["vecs"][1]
        for side in (0, 1):
            if r[1] == st.gh["args"][1][side][1]:
                return (side, 0, 0) if r[2] and vs is None else None
            if vs is None:
                continue
            t = st.texts.get(vs[side][1])
            if t is None:
                continue
            for j, c in enumerate(t.cells):
                if c[1][1] == r[1]:
                    return self.member(st, side, add(t.fpos, j), r)
            for k, e in st.exp.items():
                if k[0] == "elt" and k[1] == vs[side][1] and type(e) is tuple and e[0] == "R" and e[1] == r[1]:
                    return self.member(st, side, k[2], r)
        return None

    def member(self, st, side, pos, r):
        obj = st.gh["kinds"][1][0][1] == "Object"
        return (side, pos, r[2][0] if r[2] else None if obj else 0)

    def fields(self, st):
        return 2 if st.gh["kinds"][1][0][1] == "Object" else 1

    def either(self, eng, st, inst=None, a=None):
        return Unit.either(self, eng, st, inst, a)

    def compare(self, eng, st, x, y):
        """1 | 0: are these two equal?"""
        if st.gh["diff"]:       # whatever else they say, the values differ
            return self.either(eng, st)
        p, q = self.place(eng, st, x), self.place(eng, st, y)
        if p is None or q is None:
            raise Unknown("something is compared that is no member of the two %s %s" % (x, y))
        if p[2] is None or q[2] is None:
            raise Unknown("entries are compared at once")
        if p[0] == q[0] or p[2] != q[2]:
            return self.either(eng, st)
        d = st.const_diff(p[1], q[1])
        if d == 0:
            e = st.const_diff(p[1], st.gh["done"][1])
            if e is None:
                raise Unknown("members at a position that is not known are compared")
            if e < 0:
                return 1
            if e > 0:
                st.gh["later"] = 1
                return self.either(eng, st)
        else:
            if d is None and not st.need_is0(add(p[1], q[1], -1)):
                d = 1
            if d is None:
                raise Unknown("members at positions that are not known are compared")
            return self.either(eng, st)
        cur = st.gh["cur"][1]
        if cur[p[2]] is not None:
            return cur[p[2]]
        r = self.either(eng, st)
        cur = tuple(int(r) if i == p[2] else c for i, c in enumerate(cur))
        if not r:
            st.gh["diff"] = 1
        elif all(cur[:self.fields(st)]):
            st.gh["done"] = ("P", st.norm(add(st.gh["done"][1], 1)))
            cur = (None, None)
        st.gh["cur"] = ("L", cur)
        return r

    def hook0(self, _, eng, st, inst, a):
        m = CMP.match(inst.dfn)
        if m and not (m.group(1) == "Value" and self.whole(eng, st, a)):
            r = self.compare(eng, st, a[0], a[1])
            return int(r) if m.group(3) == "eq" else 1 - int(r)
        return None

    def whole(self, eng, st, a):
        """Are these the two values themselves?"""
        return all(self.base(eng, st, x) == y[1] for x, y in zip(a, st.gh["args"][1]))

    def base(self, eng, st, r):
        r = eng.force(st, r)
        return r[1] if type(r) is tuple and r[0] == "R" and not r[2] else None

    # ------------------------------------------------------------ the end
    def check0(self, _, eng, st, val):
        got = st.need_is0(eng.num(st, val)) is not True
        ka, kb = (x[1] for x in st.gh["kinds"][1])
        if ka != kb:
            eng.require(st, not got, self.key, "values of different kinds are equal")
            return
        if ka == "Null":
            eng.require(st, got, self.key, "null differs from null")
            return
        if ka == "Boolean":
            x, y = (eng.num(st, eng.force(st, st.mem[n[1]])[2][0]) for n in st.gh["args"][1])
            eq = st.need_is0(add(x, y, -1))
            eng.require(st, got == eq, self.key, "equality of booleans is wrong")
            return
        if st.gh["vecs"][1] is None:
            if not st.gh["diff"] and st.need_is0(st.gh["done"][1]):
                if any(eng.rv(st, eng.force(st, st.mem[n[1]])[2][0])[0] != "O" for n in st.gh["args"][1]):
                    raise Unknown("texts are compared in another way")
                eng.require(st, False, self.key, "the contents are not compared")
                return
            eng.require(st, got == (not st.gh["diff"]), self.key, "equality disagrees with that of the contents")
            return
        if st.gh["diff"] or st.gh["len"]:
            eng.require(st, not got, self.key, "containers with different members are equal" if st.gh["diff"] else "containers of different lengths are equal")
            return
        n = st.texts[st.gh["vecs"][1][0][1]].len
        if st.gh["later"]:
            raise Unknown("members are compared out of order")
        if got:
            eng.require(st, st.need_is0(add(n, st.gh["done"][1], -1)), self.key, "containers are equal though not all members were compared")
        else:
            eng.require(st, False, self.key, "containers differ without a difference between their members")


class Small(Equal):
    """The same for containers of at most three members, in whatever order they are compared."""
    MOST = 3

    def __init__(self, root):
        Equal.__init__(self, root)
        self.key = "small:" + root

    def setup0(self, _, eng, st):
        a = args_of(self, eng, st, self.inst)
        va, vb = (eng.force(st, st.mem[x[1]]) for x in a)
        ka, kb = (eng.tys[eng.objty[r[1]]].d["variants"][v[1]]["name"] if len(eng.tys[eng.objty[r[1]]].d["variants"]) > 1 else "Object" for r, v in zip(a, (va, vb)))
        if ka != kb or ka not in ("Array", "Object"):
            raise Stop()                # Equal has it
        st.gh["kinds"] = ("L", (("T", ka), ("T", kb)))
        st.gh["args"] = ("L", tuple(a))
        st.gh["known"] = ("L", ())      # (member, member, equal?)
        if "lens" not in st.gh:
            def f(i, j):
                def g(s):
                    s.gh["lens"] = ("L", (i, j))
                    return True
                return g
            ns = range(self.MOST + 1)
            raise Fork([f(i, j) for i in ns for j in ns if abs(i - j) < 2])
        for side, r, v in ((0, a[0], va), (1, a[1], vb)):
            p, u = find_vec(eng, st, v)
            ty = st.texts[u[2][1]].eof
            items = tuple(("O", ("m", side, i), ty) for i in range(st.gh["lens"][1][side]))
            ref_write(eng, st, ("R", r[1], tuple(p)), ("B", "vec", EMPTY, ("L", items)))
            st.gh["path%d" % side] = len(p)
        return a

    def anchors(self, eng, st):
        return []

    def place1(self, eng, st, r):
        for side in (0, 1):
            n = st.gh["path%d" % side]
            if r[1] == st.gh["args"][1][side][1] and len(r[2]) > n:
                return self.member(st, side, st.norm(r[2][n]), ("R", r[1], r[2][n + 1:]))
        return None

    def compare(self, eng, st, x, y):
        p, q = self.place(eng, st, x), self.place(eng, st, y)
        if p is None or q is None:
            raise Unknown("something is compared that is no member of the two")
        if p[2] is None or q[2] is None:
            raise Unknown("entries are compared at once")
        p, q = (tuple(0 if k is None else k for k in m) for m in (p, q))
        k = self.settled(st, p, q)
        if k is None:
            k = int(self.either(eng, st))
            self.learn(st, p, q, k)
        return k

    def learn(self, st, p, q, k):
        st.gh["known"] = ("L", st.gh["known"][1] + (("L", p + q + (k,)),))

    def settled(self, st, p, q):
        facts = [(f[1][:3], f[1][3:6], f[1][6]) for f in st.gh["known"][1]]
        rep = {}

        def find(m):
            while m in rep:
                m = rep[m]
            return m
        for a, b, k in facts:
            a, b = find(a), find(b)
            if k and a != b:
                rep[a] = b
        a, b = find(p), find(q)
        if a == b:
            return 1
        if any(not k and {find(x), find(y)} == {a, b} for x, y, k in facts):
            return 0
        return None

    def check0(self, _, eng, st, val):
        got = st.need_is0(eng.num(st, val)) is not True
        na, nb = st.gh["lens"][1]
        if na != nb:
            eng.require(st, not got, self.key, "containers of different lengths are equal")
            return
        same = True
        for i in range(na):
            for f in range(self.fields(st)):
                k = self.settled(st, (0, i, f), (1, i, f))
                if k is None:
                    # nothing compared so far tells: take whatever the result is not
                    k = int(not got)
                    self.learn(st, (0, i, f), (1, i, f), k)
                same = same and k
        eng.require(st, got == bool(same), self.key, "containers with different members are equal" if got else "containers of the same members differ")


def equal(prog, root):
    return run_unit(prog, prog.roots[root], None, None, spec=Equal(root))


def small(prog, root):
    return run_unit(prog, prog.roots[root], None, None, spec=Small(root))
