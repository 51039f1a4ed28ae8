"""Looking a key up: the first entry whose key decodes to the text asked for."""
import re

from ..engine import Fork, Stop, Unknown
from ..lin import add
from ..anchor import Group
from ..builtins import deref
from .seqs import find_vec, vec_elem, vec_len
from .unit import Unit, run_unit
from .values import args_of, elem, vec_elem_of

EQ = re.compile(r"^<justjson::JsonString<.*> as std::cmp::PartialEq(<.*>)?>::(eq|ne)$")
PANICS = ("val_index_str", "val_index_str_mut", "val_index_usize", "val_index_usize_mut")


class Lookup(Unit):
    anchored = True
    time_limit = 60

    def __init__(self, root, what, panics):
        Unit.__init__(self, self.setup0, self.check0, self.compare)
        self.root = root
        self.what = what            # value | entry
        self.panics = panics

    def anchors(self, eng, st):
        if "text" not in st.gh or st.norm(st.texts[st.gh["text"][1]].fpos) == 0:
            return None
        return [Group(st.gh["text"][1], [(st.gh["scan"][1], None)])]

    def setup0(self, _, eng, st):
        a = args_of(self, eng, st, self.inst)
        v = eng.force(st, self.at(st, "a0"))
        t = eng.tys[elem(eng, self.inst.params[0])]
        self.isobj = True
        if t.name.startswith("justjson::Value"):
            self.isobj = t.d["variants"][v[1]]["name"] == "Object"
            st.gh["isobj"] = int(self.isobj)
        else:
            st.gh["isobj"] = 1
        st.gh["scan"] = ("P", 0)
        st.gh["hit"] = ("L", ())
        st.gh["odd"] = 0
        if st.gh["isobj"]:
            f = find_vec(eng, st, v)
            if f is None:
                raise Unknown("no entries")
            st.gh["text"] = f[1][2]
            self.ety = st.texts[f[1][2][1]].eof
        return a

    def key_place(self, eng, st, r):
        """Position of the entry whose key r refers to."""
        r = eng.rv(st, r)
        while type(r) is tuple and r[0] == "R":
            for pos, e in self.elements(eng, st):
                if r[1] == e[1]:
                    names = [f[0] for f in eng.tys[self.ety].d["variants"][0]["fields"]]
                    if len(r[2]) == len(e[2]) + 1 and names[r[2][-1]] == "key":
                        return pos, e
                    return None
            r = eng.rv(st, deref(eng, st, r))
        return None

    def elements(self, eng, st):
        tid = st.gh["text"][1]
        t = st.texts[tid]
        out = []
        pos = t.fpos
        for w, e in t.cells:
            out.append((st.norm(pos), e))
            pos = add(pos, w)
        for k, e in st.exp.items():
            if k[0] == "elt" and k[1] == tid:
                out.append((st.norm(k[2]), e))
        return out

    def text_asked(self, eng, st, r):
        r = eng.force(st, r)
        while type(r) is tuple and r[0] == "R":
            r = eng.force(st, deref(eng, st, r))
        want = eng.force(st, ("O", ("arg", "a1"), self.inst.params[1]))
        return r == want

    def compare(self, _, eng, st, inst, a):
        m = EQ.match(inst.dfn)
        if not m:
            return None
        got = None
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            e = self.key_place(eng, st, x)
            if e is not None and self.text_asked(eng, st, y):
                got = e
        if got is None:
            raise Unknown("comparison of a key with something else")
        pos, e = got
        d = st.const_diff(pos, st.gh["scan"][1])

        def yes(s):
            s.gh["hit"] = ("L", s.gh["hit"][1] + (e, ("P", pos)))
            self.alt(eng, s, a, inst, 1)

        def no(s):
            if d == 0:
                s.gh["scan"] = ("P", s.norm(add(pos, 1)))
            else:
                s.gh["odd"] = 1
            self.alt(eng, s, a, inst, 0)
        # the fork re-executes the call: remember the outcome
        r = st.gh.pop("now", None)
        if r is not None:
            return r if m.group(2) == "eq" else 1 - r
        raise Fork([yes, no])

    def alt(self, eng, s, a, inst, r):
        s.gh["now"] = r
        return True

    # ------------------------------------------------------------ outcomes
    def absent(self, eng, st, key):
        """Nothing is found: no entry may be left that could match."""
        if not st.gh["isobj"]:
            eng.oblige(key)
            return
        hit = st.gh["hit"][1]
        if hit:
            eng.require(st, False, key, "an entry whose key is equal is not found")
            return
        n = st.texts[st.gh["text"][1]].len
        left = add(n, st.gh["scan"][1], -1)
        if st.gh["odd"]:
            if not st.is0(left):
                raise Unknown("entries compared out of order")
        eng.require(st, st.need_is0(left), key, "a key is reported absent without comparing every entry")

    def check0(self, _, eng, st, val):
        key = "lookup:" + self.root
        if self.panics:
            self.found(eng, st, val, key)
            return
        v = eng.force(st, val)
        if v[1] == 0:
            self.absent(eng, st, key)
        else:
            self.found(eng, st, v[2][0], key)

    def found(self, eng, st, r, key):
        if not eng.require(st, bool(st.gh["isobj"]), key, "something is found in a value that is no object"):
            return
        r = eng.rv(st, r)
        hit = st.gh["hit"][1]
        if not eng.require(st, bool(hit), key, "an entry is returned whose key is not equal"):
            return
        names = [f[0] for f in eng.tys[self.ety].d["variants"][0]["fields"]]
        for i in range(0, len(hit), 2):
            e, pos = hit[i], hit[i + 1][1]
            if r[0] == "R" and r[1] == e[1]:
                want = e[2] + ((names.index("value"),) if self.what == "value" else ())
                if not eng.require(st, r[2] == want, key, "not the %s of the entry is returned" % self.what):
                    return
                d = add(pos, st.gh["scan"][1], -1)
                if st.gh["odd"] and not st.is0(d):
                    raise Unknown("entries compared out of order")
                eng.require(st, st.need_is0(d), key, "an entry is returned although an earlier one may have the same key")
                return
        eng.require(st, False, key, "another entry is returned than the one whose key is equal")

    def on_panic(self, eng, st, what, where):
        if self.panics:
            self.absent(eng, st, "lookup:" + self.root)
        else:
            Unit.on_panic(self, eng, st, what, where)


def lookup(prog, root, what, panics):
    return run_unit(prog, prog.roots[root], None, None, spec=Lookup(root, what, panics))
