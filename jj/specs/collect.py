"""Objects built from an iterator: every item the iterator gives, in the order in which it gives them, and nothing else."""
import re

from ..engine import Fork, Stop, Unknown, UNIT, Text
from ..lin import add
from ..builtins import deref, ref_write
from .seqs import VEC, vec_elem
from .unit import Unit, run_unit, same
from .values import args_of
from .docs import find_ty

NEXT = re.compile(r"^<jj_roots::del::It<.*> as std::iter::Iterator>::(\w+)$")
NONE = ("T", None)
EMPTY = ("S", ("k", b""), 0, 0)


class Collect(Unit):
    anchored = True
    time_limit = 60
    max_visits = 60

    def __init__(self, root, pairs):
        Unit.__init__(self, self.setup0, self.check0, self.hook0)
        self.root = root
        self.pairs = pairs
        self.key = "collect:" + root

    def setup0(self, _, eng, st):
        a = args_of(self, eng, st, self.inst)
        st.gh["given"] = ("L", ())      # items not added yet, the oldest first
        st.gh["count"] = ("N", 0)       # how many were added
        st.gh["ended"] = 0
        return a

    def anchors(self, eng, st):
        return []

    def counters(self, eng, st):
        return [st.gh["count"][1]] + ([st.gh["rem"][1]] if "rem" in st.gh else [])

    def out(self, eng, st, v, depth=0):
        v = eng.force(st, v)
        if type(v) is tuple and v[0] == "B" and v[1] == "vecout":
            return v
        if type(v) is tuple and v[0] == "A" and depth < 3:
            for x in v[2]:
                r = self.out(eng, st, x, depth + 1)
                if r is not None:
                    return r
        return None

    def hook0(self, _, eng, st, inst, a):
        m = NEXT.match(inst.dfn)
        if m:
            return self.source(eng, st, inst, m.group(1))
        m = VEC.match(inst.dfn)
        if m:
            op = m.group(m.lastindex)
            if op in ("new", "with_capacity", "default"):
                e = vec_elem(eng, inst.ret)
                if e is not None and eng.tys[e[0]].d.get("def") == eng.tys[self.entty].d["def"]:
                    return ("B", "vecout", ("ID", ("n", eng.newid())), NONE)
            if a:
                r = eng.force(st, a[0])
                v = deref(eng, st, r) if type(r) is tuple and r[0] == "R" else None
                if type(v) is tuple and v[0] == "B" and v[1] == "vecout":
                    return self.op(eng, st, inst, op, r, v, a)
        return None

    def source(self, eng, st, inst, op):
        if op == "size_hint":
            # a true one: as many as there are, or at least as many
            if "hint" not in st.gh:
                def announce(exact):
                    def f(s):
                        s.gh["hint"] = exact
                        s.gh["rem"] = ("N", eng.param(s, 0, 1 << 40, "h"))
                        return True
                    return f
                raise Fork([announce(0), announce(1)])
            rem = st.gh["rem"][1]
            if not st.need_ge0(rem):
                rem = 0
            return ("A", 0, (rem, ("A", 1, (rem,)) if st.gh["hint"] else ("A", 0, ())))
        if op != "next":
            return None
        if st.gh["ended"]:
            raise Unknown("the iterator is asked again after its end")
        k = st.gh.get("now")
        if k is None:
            raise Fork([lambda s: s.gh.__setitem__("now", 0) or True, lambda s: s.gh.__setitem__("now", 1) or True])
        if "hint" in st.gh:
            rem = st.gh["rem"][1]
            if not (k or st.need_ge0(add(0, rem, -1))) or k and st.gh["hint"] and not st.need_ge0(add(-1, rem)):
                raise Stop()
            st.gh["rem"] = ("N", st.norm(add(rem, -int(k))))
        if not k:
            del st.gh["now"]
            st.gh["ended"] = 1
            return ("A", 0, ())
        del st.gh["now"]
        given = st.gh["given"][1]
        if len(given) > 2:
            raise Unknown("items are taken without being added")
        ty = eng.tys[inst.ret].d["args"][0]
        item = eng.force(st, ("O", ("n", eng.newid()), ty))
        st.gh["given"] = ("L", given + (item,))
        return ("A", 1, (item,))

    def fields(self, eng, st, e):
        e = eng.force(st, e)
        names = [x[0] for x in eng.tys[self.entty].d["variants"][0]["fields"]]
        return e[2][names.index("key")], e[2][names.index("value")]

    def is_item(self, eng, st, e, item):
        k, v = self.fields(eng, st, e)
        if self.pairs:
            ik, iv = item[2]
        else:
            ik, iv = self.fields(eng, st, item)
        return same(eng, st, k, ik) is True and same(eng, st, v, iv) is True

    def op(self, eng, st, inst, op, r, v, a):
        n = st.gh["count"][1]
        if st.gh.setdefault("into", v[2]) != v[2]:
            raise Unknown("several vectors of entries")
        if op == "push":
            given = st.gh["given"][1]
            ok = [self.is_item(eng, st, a[1], x) for x in given]
            if not any(ok):
                eng.violation(st, self.key, "an entry is added that the iterator did not give")
                raise Stop()
            if not ok[0]:
                eng.violation(st, self.key, "an item the iterator gave is not added, or later than one given after it")
                raise Stop()
            eng.require(st, True, self.key, "")
            st.gh["given"] = ("L", given[1:])
            st.gh["count"] = ("N", st.norm(add(n, 1)))
            st.gh.pop("room", None)
            return UNIT
        if op == "capacity":
            k = st.gh.get("room")
            if k is None:
                raise Fork([lambda s: s.gh.__setitem__("room", 0) or True, lambda s: s.gh.__setitem__("room", 1) or True])
            return st.norm(add(n, eng.param(st, 1, 1 << 40, "c"))) if k else n
        if op in ("pop", "clear", "remove", "swap_remove", "truncate", "insert"):
            if op == "insert":
                keeps = st.need_is0(add(n, eng.num(st, a[1]), -1))
                if keeps:
                    return self.op(eng, st, inst, "push", r, v, (a[0], a[2]))
            elif op == "truncate":
                keeps = st.need_ge0(add(eng.num(st, a[1]), n, -1))
            else:
                keeps = st.need_is0(n)
            if keeps:
                if op in ("remove", "swap_remove"):
                    eng.panic(st, "index out of bounds")
                    raise Stop()
                return ("A", 0, ()) if op == "pop" else UNIT
            eng.violation(st, self.key, "an entry is put before others that were added earlier" if op == "insert" else "an entry that was added is removed")
            raise Stop()
        if op == "len":
            return n
        if op == "is_empty":
            return int(st.need_is0(n))
        if op.startswith("reserve") or op.startswith("shrink"):
            st.gh.pop("room", None)
            return UNIT
        if op in ("deref", "deref_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "borrow"):
            if eng.tys[inst.ret].k != "ref" or eng.tys[eng.tys[inst.ret].d["elem"]].k != "slice":
                return r
            return self.slice_of(eng, st, v)
        raise Unknown("Vec::%s" % op)

    def slice_of(self, eng, st, v):
        if v[1] != "vecout":
            raise Unknown("slice of %s" % v[1])
        n = st.gh["count"][1]
        if st.need_is0(n):
            return EMPTY
        # what was added so far: any entries
        t = Text("v", n, 0)
        t.eof = self.entty
        tid = ("v", ("n", eng.newid()))
        st.texts[tid] = t
        return ("S", tid, 0, n)

    def check0(self, _, eng, st, val):
        v = self.out(eng, st, val)
        if v is None:
            raise Unknown("the vector of the object")
        n = st.gh["count"][1]
        if "into" in st.gh and st.gh["into"] != v[2]:
            raise Unknown("several vectors of entries")
        over = st.gh["ended"] or "hint" in st.gh and st.gh["hint"] and st.need_is0(st.gh["rem"][1])
        if not over:
            eng.require(st, False, self.key, "the object is returned before the iterator has ended")
            return
        eng.require(st, not st.gh["given"][1], self.key, "an item the iterator gave is left out")


def collect(prog, root, pairs):
    sp = Collect(root, pairs)
    sp.entty = find_ty(prog, r"justjson::(value::)?Entry<")
    return run_unit(prog, prog.roots[root], None, None, spec=sp)
