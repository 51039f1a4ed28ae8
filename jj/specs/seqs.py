"""Vectors (std and heapless) as abstract sequences: ("B", "vec", slice, ("L", pushed))."""
import re

from ..engine import Fork, Unknown, UNIT
from ..lin import add
from ..builtins import seq_text, length, as_slice2, deref, ref_write, vec_slice

VEC = re.compile(r"^(std::vec::Vec::<T(, A)?>|<std::vec::Vec<T(, A)?> as [\w:]+(<\[T\]>|<std::vec::Vec<T(, A)?>>)?>|heapless::Vec::<T, N>|<heapless::Vec<T, N> as [\w:]+(<\[T\]>)?>)::(\w+)$")
EMPTY = ("S", ("k", b""), 0, 0)


def vec_elem(eng, ty):
    """(element type, capacity or None) if ty is a vector type."""
    t = eng.tys[ty]
    if t.k == "adt" and t.d.get("def") in ("std::vec::Vec", "heapless::Vec"):
        a = t.d["args"]
        n = a[1].get("const") if type(a[1]) is dict else None
        return a[0], n
    return None


def new_seq(eng, st, tid, elem, hi=None, lo=0):
    return ("B", "vec", seq_text(eng, st, tid, elem, *((hi,) if hi is not None else ((1 << 40),)), lo), ("L", ()))


def pushed(v):
    return v[3][1]


def vec_len(st, v):
    s = v[2]
    return st.norm(add(add(s[3], s[2], -1), len(pushed(v))))


def find_vec(eng, st, v, depth=0):
    """The vector inside a value: (path, vec)."""
    v = eng.force(st, v)
    if type(v) is tuple and v[0] == "B" and v[1] == "vec":
        return (), v
    if type(v) is tuple and v[0] == "A" and depth < 4:
        got = [((i,) + r[0], r[1]) for i, r in enumerate(find_vec(eng, st, x, depth + 1) for x in v[2]) if r]
        if len(got) == 1:
            return got[0]
    return None


class Vecs:
    """Mixin for specifications: vectors whose contents are an abstract sequence and what was pushed."""

    def expand_vec(self, eng, st, oid, ty):
        e = vec_elem(eng, ty)
        if e is None:
            return None
        return new_seq(eng, st, ("v", oid), e[0], e[1])

    def vec_call(self, eng, st, inst, a):
        m = VEC.match(inst.dfn)
        if not m:
            return None
        op = m.group(m.lastindex)
        if op in ("new", "with_capacity", "default"):
            if vec_elem(eng, inst.ret) is None:
                return None
            return ("B", "vec", EMPTY, ("L", ()))
        if not a:
            return None
        if op == "into_iter":
            v = eng.force(st, a[0])
            if type(v) is tuple and v[0] == "B" and v[1] == "vec" and not pushed(v):
                return ("B", "vecit", v[2])
            return None
        r = eng.force(st, a[0])
        if type(r) is not tuple or r[0] != "R":
            return None
        v = deref(eng, st, r)
        if type(v) is not tuple or v[0] != "B" or v[1] != "vec":
            return None
        if op == "push":
            return self.push_vec(eng, st, inst, r, v, a[1])
        if op in ("deref", "deref_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "borrow"):
            if eng.tys[inst.ret].k != "ref" or eng.tys[eng.tys[inst.ret].d["elem"]].k != "slice":
                return r
            return vec_slice(r, v)
        if op == "len":
            return vec_len(st, v)
        if op == "is_empty":
            return int(st.need_is0(vec_len(st, v)))
        if op == "capacity" and "far" in st.gh and v[2][1][0] != "k":
            # any number not below the length, the same one each time
            for e in st.gh["far"][1]:
                if e[1] == 1 and e[2][0][1] == v[2][1]:
                    return st.norm(add(vec_len(st, v), e[2][1][1]))
            def more(lo):
                def f(s):
                    x = eng.param(s, lo, 1 << 40, "c") if lo else 0
                    s.gh["far"] = ("L", s.gh["far"][1] + (("A", 1, (("S", v[2][1], 0, 0), ("N", x))),))
                    return True
                return f
            raise Fork([more(0), more(1)])
        if op in ("reserve", "reserve_exact", "shrink_to_fit"):
            return UNIT
        if op == "clear":
            ref_write(eng, st, r, ("B", "vec", EMPTY, ("L", ())))
            return UNIT
        if op == "insert":
            n = vec_len(st, v)
            i = eng.num(st, a[1])
            if st.need_is0(add(n, i, -1)):
                return self.push_vec(eng, st, inst, r, v, a[2])
            if not st.need_ge0(add(n, i, -1)):
                eng.panic(st, "insertion out of bounds")
                return "STOP"
            t = eng.newid()
            ref_write(eng, st, r, ("B", "vec", seq_text(eng, st, ("v", t), vec_elem(eng, eng.tys[inst.params[0]].d["elem"])[0]), ("L", ())))
            return UNIT
        if op == "pop" and pushed(v):
            ref_write(eng, st, r, ("B", "vec", v[2], ("L", pushed(v)[:-1])))
            return ("A", 1, (pushed(v)[-1],))
        raise Unknown("Vec::%s" % op)

    def push_vec(self, eng, st, inst, r, v, item):
        n = None
        if "heapless" in inst.dfn:
            t = eng.tys[inst.ret]
            cap = self.capacity
            if st.need_ge0(add(vec_len(st, v), cap, -1)):
                return ("A", 1, (item,))
            n = ("A", 0, (UNIT,))
        ref_write(eng, st, r, ("B", "vec", v[2], ("L", pushed(v) + (item,))))
        return UNIT if n is None else n

    capacity = 4
