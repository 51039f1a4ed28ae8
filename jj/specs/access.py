"""Accessors, conversions and small delegates: what they give is determined by their arguments."""
import re

from ..engine import Fork, Stop, Unknown
from ..lin import add
from ..builtins import deref, elem_ref
from .seqs import find_vec, pushed, vec_len
from .unit import Unit, run_unit, same, every, variant
from .values import args_of, elem, vec_elem_of, payload

FROMSTR = re.compile(r"(impl std::str::FromStr for \w+>|as std::str::FromStr>)::from_str$")
JFROM = re.compile(r"^<justjson::JsonString<.*> as std::convert::From<(.*)>>::from$")
JASSTR = re.compile(r"^justjson::JsonString::<.*>::as_str$")
JNUM = re.compile(r"^justjson::JsonNumber::<.*>::(as_\w+)$")
STREQ = re.compile(r"<impl std::cmp::PartialEq for str>::(eq|ne)$")
STRCMP = re.compile(r"<impl std::cmp::(PartialOrd|Ord) for str>::(partial_cmp|cmp|lt|le|gt|ge)$")
STRHASH = re.compile(r"<impl std::hash::Hash for str>::hash$")


INT = re.compile(r"^([ui])(\d+|size)$")


def width(t):
    return 64 if t.endswith("size") else int(t[1:])


def run(prog, root, fn, hook=None):
    """fn(x): checks one outcome."""
    inst = prog.roots[root]

    def setup(sp, eng, st):
        sp.args = args_of(sp, eng, st, inst)
        return sp.args

    def check(sp, eng, st, val):
        fn(Outcome(sp, eng, st, inst, val, root))

    sp = Unit(setup, check, hook)
    sp.inst = inst
    sp.panics = False

    def on_panic(eng, st, what, where):
        if sp.panics:
            fn(Outcome(sp, eng, st, inst, None, root))
        else:
            Unit.on_panic(sp, eng, st, what, where)
    sp.on_panic = on_panic
    return sp


class Outcome:
    def __init__(self, sp, eng, st, inst, val, root):
        self.sp, self.eng, self.st, self.inst, self.val = sp, eng, st, inst, val
        self.key = "access:" + root

    def arg(self, i):
        ty = self.inst.params[i]
        if self.eng.tys[ty].k == "ref" and self.eng.tys[elem(self.eng, ty)].k not in ("str", "slice"):
            return self.sp.at(self.st, "a%d" % i)
        return ("O", ("arg", "a%d" % i), ty)

    def kind(self, i=0):
        """(name of the variant, payload) of an argument that is a Value."""
        ty = self.inst.params[i]
        if self.eng.tys[ty].k == "ref":
            ty = elem(self.eng, ty)
        v = self.eng.force(self.st, self.arg(i))
        return self.eng.tys[ty].d["variants"][v[1]]["name"], (v[2][0] if v[2] else None)

    def place(self, i, *path):
        return ("R", ("o", ("arg", "a%d" % i)), path)

    def option(self):
        """(is it Some, payload)."""
        v = self.eng.force(self.st, self.val)
        return (v[1] == 1, v[2][0] if v[1] == 1 else None)

    def is_(self, got, want, msg):
        self.eng.require(self.st, same(self.eng, self.st, got, want), self.key, msg)

    def want(self, cond, msg):
        return self.eng.require(self.st, cond, self.key, msg)

    def opt(self, present, want, msg):
        some, x = self.option()
        if not self.want(some == present, msg + (": nothing is given" if present else ": something is given where there is nothing")):
            return
        if present:
            self.is_(x, want, msg)

    def vec(self, v):
        f = find_vec(self.eng, self.st, v)
        if f is None:
            raise Unknown("no vector")
        return f

    def read(self, s):
        """Has any of this text been looked at?"""
        t = self.st.texts[s[1]]
        return bool(t.cells) or self.st.norm(t.fpos) != 0

    def text(self, v):
        """The text an AnyStr, str or String holds."""
        v = self.eng.force(self.st, v)
        while type(v) is tuple and v[0] == "R":
            v = self.eng.force(self.st, deref(self.eng, self.st, v))
        if v[0] == "A" and len(v[2]) == 1:
            return self.text(v[2][0])
        if v[0] == "B" and v[1] == "string":
            v = v[2]
        if v[0] != "S":
            raise Unknown("no text")
        return v


def payload_ref(name, msg):
    def fn(x):
        k, p = x.kind()
        x.opt(k == name, x.place(0, 0), msg)
    return fn


def is_null(x):
    x.want(bool(x.eng.num(x.st, x.val)) == (x.kind()[0] == "Null"), "is_null() is wrong")


def as_bool(x):
    k, p = x.kind()
    x.opt(k == "Boolean", p, "as_bool()")


def as_array(x):
    k, p = x.kind()
    x.opt(k == "Array", x.vec(p)[1][2] if k == "Array" else None, "as_array()")


def as_array_mut(x):
    k, p = x.kind()
    x.opt(k == "Array", x.place(0, 0), "as_array_mut()")


def as_str_hook(sp, eng, st, inst, a):
    if JASSTR.match(inst.dfn):
        if "asked" in st.gh:
            raise Unknown("as_str() is asked twice")
        st.gh["asked"] = eng.rv(st, a[0])
        return ("O", ("asked",), inst.ret)
    return None


def as_str(x):
    k, p = x.kind()
    if k != "String":
        x.opt(False, None, "as_str()")
        return
    if "asked" not in x.st.gh:
        if x.eng.rv(x.st, p)[0] == "O":
            x.want(False, "as_str() does not look at the string")
            return
        raise Unknown("as_str() does not ask the string")
    x.is_(x.st.gh["asked"], x.place(0, 0), "as_str() asks another string")
    x.is_(x.val, ("O", ("asked",), 0), "as_str() gives something else than the string does")


def number_hook(sp, eng, st, inst, a):
    if FROMSTR.search(inst.dfn):
        if "parsed" in st.gh:
            raise Unknown("a number is parsed twice")
        st.gh["parsed"] = eng.force(st, a[0])
        st.gh["res"] = ("L", (("O", ("parsed",), inst.ret),))
        st.gh["as"] = ("T", eng.tys[eng.tys[inst.ret].d["variants"][0]["fields"][0][1]].name)
        return ("O", ("parsed",), inst.ret)
    return None


def number(ty, result=False):
    def fn(x):
        if "Value" in x.eng.tys[elem(x.eng, x.inst.params[0])].name:
            k, p = x.kind()
            if k != "Number":
                x.opt(False, None, "a value that is no number")
                return
        else:
            p = x.arg(0)
        if "parsed" not in x.st.gh:
            if x.read(x.text(p)):
                raise Unknown("a result found without parsing the number")
            x.want(False, "the number is not parsed")
            return
        x.is_(x.st.gh["parsed"], x.text(p), "another text than the number's source is parsed")
        if result:
            x.is_(x.val, ("O", ("parsed",), 0), "the result of parsing is changed")
            return
        r = x.eng.force(x.st, x.st.gh["res"][1][0])
        how = x.st.gh["as"][1]
        if how != ty:
            a, b = INT.match(how), INT.match(ty)
            if not a or not b:
                x.want(False, "a number is read as %s where %s is asked for" % (how, ty))
                return
            wa, wb = width(how), width(ty)
            if a.group(1) == b.group(1) and wa >= wb:
                if r[1] == 0:
                    n = x.eng.num(x.st, r[2][0])
                    lo, hi = (0, (1 << wb) - 1) if ty[0] == "u" else (-(1 << wb - 1), (1 << wb - 1) - 1)
                    fits = x.st.need_ge0(add(n, -lo)) and x.st.need_ge0(add(hi, n, -1))
                    x.opt(fits, n, "a number read as %s" % how)
                    return
            elif wa < wb or a.group(1) == b.group(1) or how[0] == "u" or wa == wb:
                x.want(False, "a number is read as %s where %s is asked for" % (how, ty))
                return
            else:
                raise Unknown("a number is read as %s where %s is asked for" % (how, ty))
        x.opt(r[1] == 0, r[2][0] if r[1] == 0 else None, "the result of parsing is changed")
    return fn


def source(x):
    x.is_(x.val, x.text(x.arg(0)), "source() gives another text")


def get_index(x, panics=False):
    k, p = x.kind()
    there = False
    if k == "Array":
        v = x.vec(p)[1]
        i = x.eng.num(x.st, x.arg(1))
        there = not x.st.need_ge0(add(i, vec_len(x.st, v), -1))
    if panics and x.val is None:
        x.want(not there, "indexing an array within its bounds panics")
        return
    if panics:
        some, r = True, x.val
    else:
        some, r = x.option()
    if x.want(some == there, "an element is %s" % ("missed" if there else "found where there is none")) and there:
        e = elem_ref(x.eng, x.st, v[2], i)
        x.is_(r, e, "another element than the one at the index is given")


def from_hook(sp, eng, st, inst, a):
    if JFROM.match(inst.dfn):
        st.gh["from"] = ("L", st.gh["from"][1] if "from" in st.gh else ())
        st.gh["from"] = ("L", st.gh["from"][1] + (a[0],))
        return ("O", ("from", len(st.gh["from"][1])), inst.ret)
    return None


def wraps(name, string=False):
    def fn(x):
        w = x.arg(0)
        if string:
            got = x.st.gh.get("from", ("L", ()))[1]
            if len(got) != 1:
                raise Unknown("the text is not made into a string")
            x.is_(x.text(got[0]), x.text(w), "another text is made into a string")
            w = ("O", ("from", 1), 0)
        x.is_(x.val, variant(x.eng, x.inst.ret, name, w), "the value is not the %s it is made from" % name)
    return fn


def entry_new(x):
    fs = x.eng.tys[x.inst.ret].d["variants"][0]["fields"]
    v = x.eng.force(x.st, x.val)
    for (n, _), f in zip(fs, v[2]):
        x.is_(f, x.arg({"key": 0, "value": 1}[n]), "an entry does not have the %s it is made of" % n)


def empty(x):
    f = x.vec(x.val)
    x.want(x.st.need_is0(vec_len(x.st, f[1])), "a new object is not empty")


def deref_(x):
    f = x.vec(x.arg(0))
    x.is_(x.val, x.place(0, *f[0]), "not the object's own entries are lent")


# ------------------------------------------------------------------ text with two storages
def text_hook(sp, eng, st, inst, a):
    m = STREQ.search(inst.dfn)
    if m or STRCMP.search(inst.dfn) or STRHASH.search(inst.dfn):
        ops = [eng.force(st, x) for x in a]
        if "asked" in st.gh:
            raise Unknown("texts are compared twice")
        st.gh["asked"] = ("L", (("T", inst.dfn.rsplit("::", 1)[1]),) + tuple(ops))
        t = eng.tys[inst.ret]
        st.gh["res"] = ("L", (("O", ("asked",), inst.ret),))
        return ("O", ("asked",), inst.ret) if t.d.get("size") != 0 else ("A", 0, ())
    return None


def same_text(x):
    x.is_(x.val, x.text(x.arg(0)), "another text is given")


def unasked(x, op):
    """A comparison whose result does not come from the texts' own: is it right by their lengths alone?"""
    l, r = x.text(x.arg(0)), x.text(x.arg(1))
    if x.read(l) or x.read(r):
        raise Unknown("texts are compared in another way")
    st = x.st
    m, n = (add(t[3], t[2], -1) for t in (l, r))
    got = x.eng.force(st, x.val)
    empty = st.need_is0(m), st.need_is0(n)
    differ = not st.need_is0(add(m, n, -1))
    if op == "eq":
        right = bool(x.eng.num(st, got)) == (not differ)
        if right and (differ or all(empty)):
            x.want(True, "")
            return
        x.want(False, "equality is decided without comparing the texts")
        return
    if not any(empty):
        x.want(False, "the order is decided without comparing the texts")
        return
    while got[0] == "A" and got[2]:
        got = x.eng.force(st, got[2][0])
    x.want(got[1] == 1 + (not empty[0]) - (not empty[1]), "the order is reported wrongly")


def compares(op):
    def fn(x):
        if "asked" not in x.st.gh:
            unasked(x, op)
            return
        g = x.st.gh["asked"][1]
        a, b = x.text(g[1]), x.text(g[2])
        l, r = x.text(x.arg(0)), x.text(x.arg(1))
        how = g[0][1]
        got = x.eng.force(x.st, x.val)
        res = x.eng.force(x.st, x.st.gh["res"][1][0])
        straight = same(x.eng, x.st, a, l) is True and same(x.eng, x.st, b, r) is True
        swapped = same(x.eng, x.st, a, r) is True and same(x.eng, x.st, b, l) is True
        if not x.want(straight or swapped, "other texts are compared"):
            return
        if op == "eq":
            if how not in ("eq", "ne"):
                raise Unknown("equality by %s" % how)
            g, w = x.eng.num(x.st, got), x.eng.num(x.st, res)
            x.want(bool(g) == (bool(w) == (how == "eq")), "equality is reported wrongly")
            return
        if how not in ("cmp", "partial_cmp"):
            raise Unknown("order by %s" % how)

        def order(v):
            while v[0] == "A" and v[2]:
                v = x.eng.force(x.st, v[2][0])
            return v
        o = order(res)
        if how == "partial_cmp" and res[0] == "A" and not res[2] and res[1] == 0 and "Option" in x.eng.tys[x.inst.ret].name:
            return      # str::partial_cmp never gives None
        if not x.want(got[0] == "A" and got[1] == 1 and len(got[2]) == 1, "two texts are reported not to be ordered"):
            return
        p = order(got)
        w = o if straight else ("A", 2 - o[1], ())
        x.want(p[1] == w[1], "the order is reported wrongly")
    return fn


def hashes(x):
    if "asked" not in x.st.gh:
        raise Unknown("a text is hashed without str::hash")
    g = x.st.gh["asked"][1]
    x.is_(x.text(g[1]), x.text(x.arg(0)), "another text is hashed")


def from_text(x):
    x.is_(x.text(x.val), x.text(x.arg(0)), "another text is kept")


# ------------------------------------------------------------------ configuration
CONFIG = ("allow_trailing_commas", "recursion_limit", "allow_all_types_at_root")


def config(**want):
    """The fields that are set; the others are those of the argument."""
    def fn(x):
        fs = [f[0] for f in x.eng.tys[x.inst.ret].d["variants"][0]["fields"]]
        if sorted(fs) != sorted(CONFIG):
            raise Unknown("the fields of ParseConfig")
        v = x.eng.force(x.st, x.val)
        base = x.eng.force(x.st, x.arg(0)) if x.inst.params else None
        for i, n in enumerate(fs):
            w = want.get(n, "same")
            if w == "same":
                w = base[2][i]
            elif callable(w):
                w = w(x)
            x.is_(v[2][i], w, "%s is not what was asked for" % n)
    return fn


SOME128 = ("A", 1, (128,))
NOTHING = ("A", 0, ())
STD = dict(allow_trailing_commas=0, recursion_limit=SOME128, allow_all_types_at_root=1)


def err_field(name):
    def fn(x):
        ty = elem(x.eng, x.inst.params[0])
        i = [f[0] for f in x.eng.tys[ty].d["variants"][0]["fields"]].index(name)
        if x.eng.tys[x.inst.ret].k == "ref":
            x.is_(x.val, x.place(0, i), "%s() is not the error's" % name)
        else:
            x.is_(x.val, x.eng.force(x.st, x.arg(0))[2][i], "%s() is not the error's" % name)
    return fn


INTS = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64".split()

VALUES = {
    "val_as_object": payload_ref("Object", "as_object()"), "val_as_object_mut": payload_ref("Object", "as_object_mut()"),
    "val_as_string": payload_ref("String", "as_string()"), "val_as_number": payload_ref("Number", "as_number()"),
    "val_as_bool": as_bool, "val_is_null": is_null, "val_as_array": as_array, "val_as_array_mut": as_array_mut,
    "val_as_str": (as_str, as_str_hook), "val_get_index": get_index, "val_get_index_mut": get_index,
    "val_index_usize": lambda x: get_index(x, True), "val_index_usize_mut": lambda x: get_index(x, True),
    "val_from_bool": wraps("Boolean"), "val_from_object": wraps("Object"), "val_from_vec": wraps("Array"), "val_from_jstr": wraps("String"),
    "val_from_str": (wraps("String", True), from_hook), "val_from_string": (wraps("String", True), from_hook),
    "entry_new": entry_new, "obj_new": empty, "obj_default": empty, "obj_with_capacity": empty, "obj_deref": deref_, "obj_deref_mut": deref_,
}
NUMBERS = {"num_source": source, "num_parse": (number("", True), number_hook)}
for _t in INTS:
    NUMBERS["num_as_" + _t] = (number(_t), number_hook)
    NUMBERS["val_as_" + _t] = (number(_t), number_hook)
TEXTS = {"any_as_str": same_text, "any_as_ref": same_text, "any_borrow": same_text, "any_deref": same_text,
         "any_eq": (compares("eq"), text_hook), "any_eq_str": (compares("eq"), text_hook), "any_eq_refstr": (compares("eq"), text_hook),
         "any_pcmp": (compares("cmp"), text_hook), "any_pcmp_str": (compares("cmp"), text_hook), "any_pcmp_refstr": (compares("cmp"), text_hook),
         "any_hash": (hashes, text_hook), "any_from_str": from_text, "any_from_string": from_text, "num_eq": (compares("eq"), text_hook)}
CONFIGS = {
    "cfg_new": config(**STD), "cfg_default": config(**STD), "cfg_strict": config(**dict(STD, allow_all_types_at_root=0)),
    "cfg_without_limit": config(recursion_limit=NOTHING), "cfg_with_limit": config(recursion_limit=lambda x: ("A", 1, (x.arg(1),))),
    "cfg_all_types": config(allow_all_types_at_root=lambda x: x.arg(1)), "cfg_trailing": config(allow_trailing_commas=1),
    "err_kind": err_field("kind"), "err_offset": err_field("offset"),
}


def table(prog, r, tab):
    for root, fn in tab.items():
        hook = None
        if type(fn) is tuple:
            fn, hook = fn
        sp = run(prog, root, fn, hook)
        sp.panics = root in ("val_index_usize", "val_index_usize_mut")
        r.merge(run_unit(prog, prog.roots[root], None, None, spec=sp))
