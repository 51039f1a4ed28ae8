"""Reading a document back: what is built from (or skipped in) a sequence of nodes is one value, all of it and nothing else.

The nodes are those of a document: every key is a string and no container is cut short (what C22 establishes)."""
import re

from ..engine import Fork, Stop, Unknown, UNIT
from ..lin import add
from ..anchor import Group
from ..builtins import deref, elem_ref, seq_text, ref_write, slen, subslice, some, NONE as NOTHING
from .seqs import vec_elem, find_vec, VEC
from .unit import Unit, run_unit, same
from .values import args_of, elem

IN = ("in",)
NONE = ("T", None)
NEXT = re.compile(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next$|^<(std::vec::IntoIter<T(, A)?>|heapless::vec::IntoIter<T, N>) as std::iter::Iterator>::next$")
CLONE = re.compile(r"^<justjson::(JsonString|JsonNumber|AnyStr)<.*> as std::clone::Clone>::clone$")


class F:
    def __init__(self, v):
        self.kind, self.state, n, r, self.vec, self.key, self.val = v[2]
        self.done, self.rem = n[1], r[1]

    def pack(self):
        return ("A", 0, (self.kind, self.state, ("N", self.done), ("N", self.rem), self.vec, self.key, self.val))


def frame(kind, state, n=0, val=NONE):
    return ("A", 0, (kind, state, ("N", 0), ("N", n), NONE, NONE, val))


class Hydrate(Unit):
    anchored = True
    time_limit = 100
    max_visits = 60

    def __init__(self, root, mode):
        Unit.__init__(self, self.setup0, self.check0, self.hook0)
        self.root = root
        self.mode = mode            # value: a document becomes a value | next: of an iterator | skip | node
        self.key = "doc:" + root
        self.node = None

    # ------------------------------------------------------------ abstraction
    def expand(self, eng, st, oid, ty):
        t = eng.tys[ty]
        if t.name.startswith("std::slice::Iter<") and "Node" in t.name:
            return ("B", "siter", self.nodes(eng, st, t.d["args"]), "r")
        e = vec_elem(eng, ty)
        if e is not None and "Node" in eng.tys[e[0]].name:
            return ("B", "vec", self.nodes(eng, st, e, e[1] if "heapless" in t.name else None), ("L", ()))
        return Unit.expand(self, eng, st, oid, ty)

    def nodes(self, eng, st, args, cap=None):
        for a in args:
            if type(a) is int and eng.tys[a].k == "adt" and "Node" in eng.tys[a].name:
                if IN not in st.texts:
                    self.node = a
                    seq_text(eng, st, IN, a, 1 << 40, 1 if self.mode == "value" else 0)
                return ("S", IN, 0, st.texts[IN].len)
        raise Unknown("no nodes")

    def setup0(self, _, eng, st):
        a = args_of(self, eng, st, self.inst)
        st.gh["stk"] = ("L", (frame("root", "v"),))
        st.gh["cpos"] = ("P", 0)
        st.gh["pos"] = ("P", 0)
        st.gh["more"] = 0
        st.gh["end"] = 0
        st.gh["args"] = ("L", tuple(x for x in a if type(x) is tuple and x[0] == "R"))
        return a

    def anchors(self, eng, st):
        if IN not in st.texts or st.norm(st.texts[IN].fpos) == 0:
            return None
        self.settle(eng, st)
        g = Group(IN, [(st.gh["cpos"][1], None), (st.gh["pos"][1], None)])
        g.apart = True
        return [g]

    def counters(self, eng, st):
        out = []
        for f in st.gh["stk"][1]:
            f = F(f)
            if f.kind in ("Object", "Array"):
                out += [f.done, f.rem, (f.done, f.rem, 0)]
            if f.state == "open":
                out.append(f.val[1][1][1])
        return out

    def entry_anchors(self, st):
        return ("cpos",)

    def enter(self, eng, st):
        # is the node that was read handed to the callee?
        given = any(eng.tys[p].k == "adt" and eng.tys[p].d.get("def") == eng.tys[self.node].d.get("def") for p in st.frames[-1].inst.params)
        self.settle(eng, st, opened=not given)
        stk = st.gh["stk"][1]
        f = F(stk[-1])
        saved = {"cpos": st.gh["cpos"], "stk": stk[:-1], "top": stk[-1]}
        b = F(frame("bot", f.state))
        b.val = f.val
        st.gh["stk"] = ("L", (b.pack(),))
        st.gh["cpos"] = st.gh["pos"]
        return saved

    def leave(self, eng, saved, st):
        stk = st.gh["stk"][1]
        b, f = F(stk[0]), F(saved["top"])
        f.state, f.val = b.state, b.val
        if b.key != NONE:
            f.key = b.key
        st.gh["stk"] = ("L", saved["stk"] + (f.pack(),) + stk[1:])
        st.gh["cpos"] = saved["cpos"]
        self.settle(eng, st)

    # ------------------------------------------------------------ grammar
    def settle(self, eng, st, need=False, opened=False):
        """Containers all of whose members are there are complete."""
        while True:
            stk = st.gh["stk"][1]
            f = F(stk[-1])
            if f.state == "open":
                kind, n = f.val[1][0][1], f.val[1][1][1]
                f.state = "v"
                f.val = NONE
                c = F(frame(kind, "k" if kind == "Object" else "v", n))
                st.gh["stk"] = ("L", stk[:-1] + (f.pack(), c.pack()))
                if not need and not opened and st.is0(n) is not True:
                    # only opened when something depends on it
                    st.gh["stk"] = ("L", stk)
                    return
                continue
            if f.state == "got" and self.mode == "skip" and f.kind in ("Object", "Array"):
                f.rem = st.norm(add(f.rem, -1))
                f.done = st.norm(add(f.done, 1))
                f.state = "k" if f.kind == "Object" else "v"
                f.val = f.key = NONE
                st.gh["stk"] = ("L", stk[:-1] + (f.pack(),))
                continue
            if f.kind in ("Object", "Array") and f.state == ("k" if f.kind == "Object" else "v"):
                z = st.need_is0(f.rem) if need else st.is0(f.rem)
                if z:
                    p = F(stk[-2])
                    p.state = "got"
                    p.val = ("L", (("T", f.kind), f.vec))
                    st.gh["stk"] = ("L", stk[:-2] + (p.pack(),))
                    continue
            return

    def consume(self, eng, st, r):
        self.settle(eng, st, need=True)
        stk = st.gh["stk"][1]
        f = F(stk[-1])
        if f.state == "got":
            if f.kind == "root":
                st.gh["more"] = 1
                return
            if f.kind == "bot":
                raise Unknown("several members in one recursive call")
            eng.violation(st, self.key, "a member of a container is not kept")
            raise Stop()
        v = eng.force(st, deref(eng, st, r))
        name = eng.tys[self.node].d["variants"][v[1]]["name"]
        if f.state == "k":
            if name != "String":
                raise Stop()
            f.key = v[2][0] if self.mode != "skip" else NONE
            f.state = "v"
        elif name in ("Object", "Array"):
            f.state = "open"
            f.val = ("L", (("T", name), ("N", eng.num(st, v[2][0]))))
        else:
            f.state = "got"
            f.val = ("L", (("T", "node"), v)) if self.mode != "skip" else NONE
        st.gh["stk"] = ("L", stk[:-1] + (f.pack(),))
        st.gh["pos"] = ("P", st.norm(add(st.gh["pos"][1], 1)))

    def ended(self, eng, st):
        """The nodes are exhausted: a document does not end within a value."""
        self.settle(eng, st, need=True)
        stk = st.gh["stk"][1]
        f = F(stk[-1])
        if len(stk) == 1 and f.kind == "root" and f.state == "v" and self.mode != "value":
            st.gh["end"] = 1
        elif len(stk) == 1 and f.kind == "root" and f.state == "got":
            pass
        else:
            raise Stop()

    def matches(self, eng, st, v, val):
        """Is v the value the nodes describe?"""
        v = eng.force(st, v)
        names = [x["name"] for x in eng.tys[self.valty].d["variants"]]
        kind = val[1][0][1]
        if kind == "node":
            n = val[1][1]
            if names[v[1]] != eng.tys[self.node].d["variants"][n[1]]["name"]:
                return False
            return all(same(eng, st, x, y) is True for x, y in zip(v[2], n[2]))
        if names[v[1]] != kind:
            return False
        w = self.out_vec(eng, st, v)
        if val[1][1] == NONE:
            return w[3] == ("T", "new")
        return w[2] == val[1][1]

    def out_vec(self, eng, st, v, depth=0):
        v = eng.force(st, v)
        if type(v) is tuple and v[0] == "B" and v[1] == "vecout":
            return v
        if type(v) is tuple and v[0] == "A":
            for x in v[2]:
                r = self.out_vec(eng, st, x, depth + 1) if depth < 3 else None
                if r is not None:
                    return r
        if depth == 0:
            raise Unknown("no vector in a container")
        return None

    def push(self, eng, st, r, v, item):
        self.settle(eng, st, need=True)
        stk = st.gh["stk"][1]
        f = F(stk[-1])
        if f.kind == "bot":
            raise Unknown("a member is added in another call than its container")
        if not eng.require(st, f.state == "got" and f.kind in ("Object", "Array"), self.key, "something is added that is no member of the container"):
            raise Stop()
        ok = f.vec == NONE and v[3] == ("T", "new") or f.vec == v[2]
        if ok:
            if f.kind == "Object":
                e = eng.force(st, item)
                names = [x[0] for x in eng.tys[self.entty].d["variants"][0]["fields"]]
                ok = same(eng, st, e[2][names.index("key")], f.key) is True and self.matches(eng, st, e[2][names.index("value")], f.val)
            else:
                ok = self.matches(eng, st, item, f.val)
        if not eng.require(st, ok, self.key, "another member is added than the nodes describe"):
            raise Stop()
        f.vec = v[2]
        f.rem = st.norm(add(f.rem, -1))
        f.done = st.norm(add(f.done, 1))
        f.state = "k" if f.kind == "Object" else "v"
        f.key = f.val = NONE
        st.gh["stk"] = ("L", stk[:-1] + (f.pack(),))
        ref_write(eng, st, r, ("B", "vecout", v[2], ("T", "used")))
        return UNIT

    # ------------------------------------------------------------ calls
    def hook0(self, _, eng, st, inst, a):
        d = inst.dfn
        if NEXT.match(d):
            it = deref(eng, st, a[0])
            if type(it) is tuple and it[0] == "B" and it[1] in ("siter", "vecit") and it[2][0] == "S" and it[2][1] == IN:
                return self.next_node(eng, st, a[0], it)
            return None
        if CLONE.match(d):
            return deref(eng, st, a[0])
        m = VEC.match(d)
        if m:
            op = m.group(m.lastindex)
            if op in ("new", "with_capacity", "default"):
                e = vec_elem(eng, inst.ret)
                if e is not None:
                    return ("B", "vecout", ("ID", ("n", eng.newid())), ("T", "new"))
            if a:
                r = eng.force(st, a[0])
                if type(r) is tuple and r[0] == "R":
                    v = deref(eng, st, r)
                    if type(v) is tuple and v[0] == "B" and v[1] == "vecout":
                        if op == "push":
                            return self.push(eng, st, r, v, a[1])
                        if op.startswith("reserve"):
                            return UNIT
                        if op in ("deref", "deref_mut"):
                            return r
                        raise Unknown("Vec::%s" % op)
        return None

    def next_node(self, eng, st, r, it):
        s = it[2]
        n = slen(eng, st, s)
        d = st.const_diff(s[2], st.gh["pos"][1])
        if d is None or d > 0 and not st.gh["more"]:
            raise Unknown("nodes are read out of order")
        if st.need_is0(n):
            if d == 0:
                self.ended(eng, st)
            return NOTHING
        e = elem_ref(eng, st, s, 0)
        if d == 0:
            self.consume(eng, st, e)
        ref_write(eng, st, r, it[:2] + (subslice(eng, st, s, 1, n),) + it[3:])
        return some(e if it[1] == "siter" else deref(eng, st, e))

    # ------------------------------------------------------------ the end
    def check0(self, _, eng, st, val):
        key = self.key
        self.settle(eng, st, need=True)
        stk = st.gh["stk"][1]
        f = F(stk[-1])
        if self.mode != "value":
            it = self.iterator(eng, st, self.at(st, "a0"))
            if it is None:
                raise Unknown("no iterator")
            d = st.norm(add(it[2][2], st.gh["pos"][1], -1))
            eng.require(st, st.is0(d), key, "more nodes are passed over than the value consists of")
        v = val
        if self.mode in ("next", "node"):
            v = eng.force(st, val)
            if st.gh["end"] or st.gh["pos"][1] == 0 and f.state == "v":
                if eng.require(st, v[1] == 0, key, "something is read where no nodes remain"):
                    n = slen(eng, st, it[2])
                    eng.require(st, st.need_is0(n), key, "nothing is read although nodes remain")
                return
            if not eng.require(st, v[1] == 1, key, "nothing is read although nodes remain"):
                return
            v = v[2][0]
        if self.mode == "skip" and (st.gh["end"] or f.state == "v" and st.const_diff(st.gh["pos"][1], 0) == 0):
            eng.require(st, st.need_is0(slen(eng, st, it[2])), key, "nothing is skipped although nodes remain")
            return
        if self.mode == "node":
            e = self.first(eng, st)
            eng.require(st, same(eng, st, v, e) is True, key, "another node is given than the next one")
            return
        if not eng.require(st, len(stk) == 1 and f.state == "got", key, "only a part of the value's nodes is read"):
            return
        if self.mode == "skip":
            return
        eng.require(st, self.matches(eng, st, v, f.val), key, "another value is given than the nodes describe")

    def first(self, eng, st):
        return deref(eng, st, st.texts[IN].cells[0][1]) if st.norm(st.texts[IN].fpos) == 0 else None

    def iterator(self, eng, st, v, depth=0):
        v = eng.force(st, v)
        if type(v) is tuple and v[0] == "B" and v[1] == "siter":
            return v
        if type(v) is tuple and v[0] == "A" and depth < 4:
            for x in v[2]:
                r = self.iterator(eng, st, x, depth + 1)
                if r is not None:
                    return r
        return None


def find_ty(prog, pat):
    for i, t in enumerate(prog.tys):
        if t.k == "adt" and re.match(pat, t.name):
            return i
    return None


def hydrate(prog, root, mode):
    sp = Hydrate(root, mode)
    sp.valty = find_ty(prog, r"justjson::Value<")
    sp.entty = find_ty(prog, r"justjson::(value::)?Entry<")
    return run_unit(prog, prog.roots[root], None, None, spec=sp)


def iterate(prog, root):
    """An iterator over a document passes over all its nodes."""
    inst = prog.roots[root]
    sp = Hydrate(root, "iter")

    def check(_, eng, st, val):
        it = sp.iterator(eng, st, val)
        f = find_vec(eng, st, sp.at(st, "a0"))
        eng.require(st, it is not None and same(eng, st, it[2], f[1][2]) is True, "doc:" + root, "an iterator does not pass over the document's nodes")
    sp.check = check
    return run_unit(prog, inst, None, None, spec=sp)
