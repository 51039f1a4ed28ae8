"""Models of the standard-library operations the analysed code rests on."""
import re
from . import lin as L
from .lin import Lin, add, scale
from .engine import (Fork, Stop, Unknown, U, UNIT, CHAR_DOM, BYTE_DOM, ISIZE_MAX, USIZE_MAX, Text)

NONE = ("A", 0, ())


def some(v):
    return ("A", 1, (v,))


def ok(v):
    return ("A", 0, (v,))


def err(v):
    return ("A", 1, (v,))


LESS, EQUAL, GREATER = ("A", 0, ()), ("A", 1, ()), ("A", 2, ())

TABLE = {}
PATS = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATS.append((re.compile(rx), f))
        return f
    return deco


def lookup(inst):
    f = TABLE.get(inst.dfn)
    if f is not None:
        return f
    if inst.intrinsic:
        f = INTR.get(inst.intrinsic)
        if f is not None:
            return f
    for rx, f in PATS:
        if rx.search(inst.dfn):
            return f
    return None


# ------------------------------------------------------------------ hooks used by exec.py
def get_field(eng, st, v, e):
    if v[1] == "siter" and e == 0:
        return v            # Bytes(Copied { it: Iter }) are one value here
    if v[1] == "chars" and e == 0:
        return ("B", "siter", v[2], "r")
    if v[1] == "cindices" and e == 1:
        return chars_value(v[2])
    if v[1] == "cindices" and e == 0:
        return st.norm(add(v[2][2], v[3][1], -1))
    if v[1] == "vec":
        i = st.norm(e)
        if type(i) is int and 0 <= i < len(v[3][1]):
            return v[3][1][i]
    raise Unknown("field %s of %s" % (e, v[1]))


def set_field(eng, st, v, path, i, new):
    if v[1] == "siter" and all(e == 0 for e in path[i:]):
        return ("B", "siter", new[2], v[3]) if type(new) is tuple and new[0] == "B" and new[1] == "siter" else new
    if v[1] == "vec":
        k = st.norm(path[i])
        items = v[3][1]
        if type(k) is int and 0 <= k < len(items):
            return ("B", "vec", v[2], ("L", items[:k] + (eng.set_field(st, items[k], path, i + 1, new),) + items[k + 1:]))
    raise Unknown("write into %s" % v[1])


def index_place(eng, st, v, ix):
    if v[1] == "vslice":
        r = elem_ref(eng, st, v, ix)
        return ("M", r[1], r[2])
    return None


def length(eng, st, v):
    if v[1] == "vslice":
        return slen(eng, st, v)
    raise Unknown("length of %s" % (v[1],))


def rawptr(eng, st, vals):
    """(data pointer, length) -> slice."""
    p = eng.force(st, vals[0])
    n = vals[1]
    if type(n) is tuple and n == UNIT:
        return p
    if type(p) is tuple and p[0] == "C":
        return ("S", p[1], p[2], add(p[2], eng.num(st, n)))
    raise Unknown("raw slice")


def ptr_compare(eng, st, op, a, b):
    return None


def ptr_offset(eng, st, p, n):
    if p[0] == "C":
        return ("C", p[1], add(p[2], n))
    raise Unknown("pointer offset")


def metadata(eng, st, v):
    if v[0] == "S":
        return add(v[3], v[2], -1)
    if v[0] == "SL":
        return v[4]
    if v[0] == "B" and v[1] == "vslice":
        return slen(eng, st, v)
    raise Unknown("metadata of %s" % (v[0],))


def transmute(eng, st, v, fty, tty):
    raise Unknown("transmute %s -> %s" % (eng.tys[fty].name, eng.tys[tty].name))


def byte_of_chars(eng, st, tid, pos):
    """A byte of a text kept as characters (only single-byte characters are looked into)."""
    t = st.texts[tid]
    d = st.const_diff(pos, t.fpos)
    if d is not None and d >= 0:
        w = 0
        for cw, c in t.cells:
            if w < d < w + cw:
                return char_byte(eng, st, tid, pos, cw, d - w)
            w += cw
    ci, c, width = char_at(eng, st, tid, pos)
    if width == 1:
        return c
    return char_byte(eng, st, tid, pos, width, 0)


LEAD = {2: ((0xC2, 0xDF),), 3: ((0xE0, 0xEF),), 4: ((0xF0, 0xF4),)}


def char_byte(eng, st, tid, pos, width, i):
    """A byte of a multi-byte character: which one exactly is not tracked."""
    k = ("cb", tid, str(pos))
    b = st.exp.get(k)
    if b is None:
        b = eng.newsym(st, LEAD[width] if i == 0 else ((0x80, 0xBF),), "b")
        st.free.update(L.syms_of(b))
        st.exp[k] = b
    return b


# ------------------------------------------------------------------ helpers
def deref(eng, st, r):
    r = eng.force(st, r)
    loc = eng.deref(st, r, None)
    return eng.force(st, eng.load(st, loc))


def slen(eng, st, s):
    s = eng.force(st, s)
    if s[0] == "S":
        return st.norm(add(s[3], s[2], -1))
    if s[0] == "SL":
        return s[4]
    if s[0] == "B" and s[1] == "vslice":
        return st.norm(add(slen(eng, st, s[2]), s[3][4]))
    raise Unknown("length of %s" % (s[0],))


def elem_ref(eng, st, s, i):
    """Reference to element i (known in bounds) of a slice."""
    if s[0] == "S":
        if s[1][0] != "k" and st.texts[s[1]].kind == "v":
            return seq_elem(eng, st, s[1], st.norm(add(s[2], i)))
        return ("C", s[1], st.norm(add(s[2], i)))
    if s[0] == "SL":
        return ("R", s[1], s[2] + (st.norm(add(s[3], i)),))
    if s[0] == "B" and s[1] == "vslice":
        # an abstract sequence followed by what was pushed to it
        n = slen(eng, st, s[2])
        d = st.const_diff(i, n)
        if d is None and st.need_ge0(add(i, n, -1)):
            for d in range(s[3][4]):
                if st.need_is0(add(add(i, n, -1), -d)):
                    break
        if d is None or d < 0:
            return elem_ref(eng, st, s[2], i)
        return elem_ref(eng, st, s[3], d)
    raise Unknown("element of %s" % (s[0],))


def seq_elem(eng, st, tid, pos):
    """Reference to the element at `pos` of an abstract sequence of values."""
    t = st.texts[tid]
    d = st.const_diff(pos, t.fpos)
    far = st.gh.get("far")
    if far is not None and (d is None or d > 32) and st.need_ge0(add(pos, t.fpos, -1)):
        # an element out of order: it is one of those looked at, or remembered with its position
        for j, c in enumerate(t.cells):
            if st.need_is0(add(add(pos, t.fpos, -1), -j)):
                return c[1]
        for e in far[1]:
            if e[1] == 0 and e[2][0][1] == tid and st.need_is0(add(pos, e[2][1][1], -1)):
                return e[2][2]
        key = ("o", eng.newid())
        st.mem[key] = ("O", ("n", eng.newid()), t.eof)
        eng.objty[key] = t.eof
        r = ("R", key, ())
        st.gh["far"] = ("L", far[1] + (("A", 0, (("S", tid, 0, 0), ("P", pos), r)),))
        return r
    if d is None or d < 0:
        k = ("elt", tid, pos)
        r = st.exp.get(k)
        if r is None:
            key = ("o", eng.newid())
            st.mem[key] = ("O", ("el", tid, str(pos)), t.eof)
            eng.objty[key] = t.eof
            r = ("R", key, ())
            st.exp[k] = r
        return r
    while len(t.cells) <= d:
        if len(t.cells) > 32:
            raise Unknown("window too large")
        r = None
        for e in far[1] if far is not None else ():
            if e[1] == 0 and e[2][0][1] == tid and st.need_is0(add(add(t.fpos, len(t.cells)), e[2][1][1], -1)):
                r = e[2][2]
        if r is None:
            key = ("o", eng.newid())
            oid = ("n", eng.newid())
            st.mem[key] = ("O", oid, t.eof)
            eng.objty[key] = t.eof
            r = ("R", key, ())
        t = t.clone()
        t.nmon = len(t.cells) + 1
        t.cells = t.cells + ((1, r),)
        st.texts[tid] = t
    if t.last is None or (st.const_diff(pos, t.last) or 0) > 0 or st.const_diff(pos, t.last) is None:
        t = t.clone()
        t.last = pos
        st.texts[tid] = t
    return t.cells[d][1]


def seq_text(eng, st, tid, elemty, hi=ISIZE_MAX, lo=0):
    """Create an abstract sequence of values; returns its slice."""
    ln = eng.param(st, lo, hi, "n")
    t = Text("v", ln, 0)
    t.eof = elemty
    st.texts[tid] = t
    return ("S", tid, 0, ln)


def subslice(eng, st, s, a, b):
    if s[0] == "S":
        return ("S", s[1], st.norm(add(s[2], a)), st.norm(add(s[2], b)))
    return ("SL", s[1], s[2], st.norm(add(s[3], a)), st.norm(add(b, a, -1)))


def le(st, a, b):
    return st.need_ge0(add(b, a, -1))


def lt(st, a, b):
    return st.need_ge0(add(add(b, a, -1), -1))


def range_of(eng, st, name, v, n):
    """(start, end) of a range value over length n, or None when out of bounds."""
    v = eng.force(st, v)
    g = lambda i: eng.num(st, v[2][i])
    if "RangeFull" in name:
        return 0, n
    if "RangeFrom" in name:
        a, b = g(0), n
    elif "RangeToInclusive" in name:
        a, b = 0, add(g(0), 1)
    elif "RangeTo" in name:
        a, b = 0, g(0)
    elif "RangeInclusive" in name:
        a, b = g(0), add(g(1), 1)
    else:
        a, b = g(0), g(1)
    if not le(st, a, b) or not le(st, b, n):
        return None
    return a, b


def ref_write(eng, st, r, v):
    r = eng.force(st, r)
    eng.store(st, eng.deref(st, r, None), v)


def boundary(eng, st, s, pos):
    """Is `pos` (absolute) a character boundary of the string s?"""
    tid = s[1]
    if tid[0] == "k":
        p = st.norm(pos)
        if type(p) is int:
            b = tid[1]
            return p == len(b) or (p < len(b) and (b[p] & 0xC0) != 0x80)
        return None
    if st.is0(add(pos, s[2], -1)) or st.is0(add(pos, s[3], -1)):
        return True
    t = st.texts[tid]
    if t.kind == "c":
        d = st.const_diff(pos, t.fpos)
        if d is not None and d >= 0:
            w = 0
            for cw, _ in t.cells:
                if w == d:
                    return True
                w += cw
            return True if w == d else None
        for p, gm in t.marks:
            if st.const_diff(pos, p) == 0:
                return True
        return eng.spec.boundary(eng, st, s, pos) if hasattr(eng.spec, "boundary") else None
    m = eng.mark_at(st, tid, pos)
    if m is None:
        return None
    if t.gen is not None and hasattr(t.gen, "boundary"):
        return t.gen.boundary(m[0])
    if t.mon is not None and hasattr(t.mon, "boundary"):
        return t.mon.boundary(m[1])
    return None


# ------------------------------------------------------------------ slices
@model("core::slice::<impl [T]>::len", "core::str::<impl str>::len", "std::string::String::len")
def m_len(eng, st, inst, a):
    return slen(eng, st, as_slice(eng, st, a[0]))


@model("core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_is_empty(eng, st, inst, a):
    return int(st.need_is0(slen(eng, st, as_slice(eng, st, a[0]))))


@model("core::str::<impl str>::as_bytes", "core::str::<impl str>::as_ptr", "core::str::<impl str>::to_string_x",
       "<str as std::convert::AsRef<[u8]>>::as_ref", "<str as std::convert::AsRef<str>>::as_ref",
       "std::string::String::as_str", "std::string::String::as_bytes",
       "<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::borrow::Borrow<str>>::borrow",
       "<std::string::String as std::convert::AsRef<str>>::as_ref",
       "core::str::<impl str>::as_str", "core::str::<impl str>::trim_x")
def m_as_bytes(eng, st, inst, a):
    return as_slice(eng, st, a[0])


def vec_slice(r, v):
    """The contents of the vector v at place r as a slice."""
    n = len(v[3][1])
    if not n:
        return v[2]
    own = ("SL", r[1], r[2], 0, n)
    if v[2][1][0] == "k":
        return own
    return ("B", "vslice", v[2], own)


def as_slice(eng, st, r):
    """Slice value of &[T], &str, &Vec<T>, &String ..."""
    r = eng.force(st, r)
    if type(r) is tuple and (r[0] in ("S", "SL") or r[:2] == ("B", "vslice")):
        return r
    v = deref(eng, st, r)
    if type(v) is tuple:
        if v[0] in ("S", "SL") or v[:2] == ("B", "vslice"):
            return v
        if v[0] == "B" and v[1] == "vec":
            return vec_slice(r, v)
        if v[0] == "B" and v[1] == "string":
            return v[2]
        if v[0] == "V":
            return ("SL", r[1], r[2], 0, len(v[1]))
        if v[0] == "B" and hasattr(eng.spec, "slice_of"):
            return eng.spec.slice_of(eng, st, v)
    raise Unknown("slice of %s" % (str(v)[:60],))


def get_generic(eng, st, inst, s, ixv, checked=True):
    """s.get(ix): Some(ref or slice) or None, deciding by the index type."""
    ixv = eng.force(st, ixv)
    n = slen(eng, st, s)
    if type(ixv) in (int, Lin):
        if lt(st, ixv, n):
            return elem_ref(eng, st, s, ixv)
        return None
    name = ixname(eng, inst)
    r = range_of(eng, st, name, ixv, n)
    if r is None:
        return None
    return subslice(eng, st, s, r[0], r[1])


def ixname(eng, inst):
    for t in reversed(inst.args):
        if type(t) is int:
            nm = eng.tys[t].name
            if "Range" in nm:
                return nm
    if "Range" in inst.dfn:
        return inst.dfn
    raise Unknown("index type of %s" % inst.name)


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    r = get_generic(eng, st, inst, s, a[1])
    return NONE if r is None else some(r)


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def m_get_unchecked(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    r = get_generic(eng, st, inst, s, a[1])
    if r is None:
        eng.spec.on_unchecked(eng, st, "index", a[1])
        raise Stop()
    return r


@model("core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
       "<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       "core::array::<impl std::ops::Index<I> for [T; N]>::index",
       "std::array::<impl std::ops::Index<I> for [T; N]>::index")
def m_index(eng, st, inst, a):
    eng.oblige("panic:%s" % eng.where(st)[0])
    s = as_slice(eng, st, a[0])
    r = get_generic(eng, st, inst, s, a[1])
    if r is None:
        eng.panic(st, "index out of bounds")
        return "STOP"
    return r


def str_range(eng, st, inst, s, ixv):
    r = range_of(eng, st, ixname(eng, inst), ixv, slen(eng, st, s))
    if r is None:
        return None
    for p in r:
        b = boundary(eng, st, s, add(s[2], p))
        if b is None:
            raise Unknown("character boundary not established")
        elif not b:
            return None
    return subslice(eng, st, s, r[0], r[1])


@model("core::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index")
def m_str_index(eng, st, inst, a):
    eng.oblige("panic:%s" % eng.where(st)[0])
    r = str_range(eng, st, inst, as_slice(eng, st, a[0]), a[1])
    if r is None:
        eng.panic(st, "str index out of bounds or off a character boundary")
        return "STOP"
    return r


@model("core::str::<impl str>::get")
def m_str_get(eng, st, inst, a):
    r = str_range(eng, st, inst, as_slice(eng, st, a[0]), a[1])
    return NONE if r is None else some(r)


@model("core::str::<impl str>::get_unchecked")
def m_str_get_unchecked(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    r = range_of(eng, st, ixname(eng, inst), a[1], slen(eng, st, s))
    if r is None:
        eng.spec.on_unchecked(eng, st, "index", a[1])
        raise Stop()
    r = subslice(eng, st, s, r[0], r[1])
    eng.spec.on_unchecked(eng, st, "str", r)
    return r


@model("core::str::<impl str>::is_char_boundary")
def m_is_boundary(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    p = eng.num(st, a[1])
    if not le(st, p, slen(eng, st, s)):
        return 0
    b = boundary(eng, st, s, add(s[2], p))
    if b is None:
        raise Unknown("character boundary")
    return int(b)


def opt_elem(which):
    def f(eng, st, inst, a):
        s = as_slice(eng, st, a[0])
        n = slen(eng, st, s)
        if st.need_is0(n):
            return NONE
        return some(elem_ref(eng, st, s, 0 if which == "first" else add(n, -1)))
    return f


TABLE["core::slice::<impl [T]>::first"] = opt_elem("first")
TABLE["core::slice::<impl [T]>::last"] = opt_elem("last")
TABLE["core::slice::<impl [T]>::first_mut"] = opt_elem("first")
TABLE["core::slice::<impl [T]>::last_mut"] = opt_elem("last")


@model("core::slice::<impl [T]>::split_first")
def m_split_first(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    n = slen(eng, st, s)
    if st.need_is0(n):
        return NONE
    return some(("A", 0, (elem_ref(eng, st, s, 0), subslice(eng, st, s, 1, n))))


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut", "core::str::<impl str>::split_at")
def m_split_at(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    n = slen(eng, st, s)
    k = eng.num(st, a[1])
    if not le(st, k, n):
        eng.panic(st, "split_at out of bounds")
        return "STOP"
    if "str" in inst.dfn and boundary(eng, st, s, add(s[2], k)) is not True:
        raise Unknown("character boundary not established")
    return ("A", 0, (subslice(eng, st, s, 0, k), subslice(eng, st, s, k, n)))


@model("core::slice::<impl [T]>::starts_with")
def m_starts_with(eng, st, inst, a):
    s, p = as_slice(eng, st, a[0]), as_slice(eng, st, a[1])
    n, m = slen(eng, st, s), slen(eng, st, p)
    if not le(st, m, n):
        return 0
    return int(bytes_eq(eng, st, subslice(eng, st, s, 0, m), p))


def bytes_eq(eng, st, x, y):
    """Equality of two slices."""
    if x[0] == "S" and y[0] == "S" and x[1] == y[1] and st.is0(add(x[2], y[2], -1)) and st.is0(add(x[3], y[3], -1)):
        return True
    h = getattr(eng.spec, "str_eq", None)
    if h is not None:
        r = h(eng, st, x, y)
        if r is not None:
            return bool(r)
    n, m = slen(eng, st, x), slen(eng, st, y)
    if not st.need_is0(add(n, m, -1)):
        return False
    n = st.norm(n)
    m = st.norm(m)
    k = n if type(n) is int else m
    if type(k) is not int or k > 64:
        raise Unknown("comparison of two symbolic slices")
    for i in range(k):
        p = eng.num(st, load_elem(eng, st, x, i))
        q = eng.num(st, load_elem(eng, st, y, i))
        if not st.need_is0(add(p, q, -1)):
            return False
    return True


def load_elem(eng, st, s, i):
    r = elem_ref(eng, st, s, i)
    return eng.load(st, eng.deref(st, r, None))


@model("core::str::traits::<impl std::cmp::PartialEq for str>::eq",
       "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq",
       "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq",
       "std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq",
       "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq",
       "<std::string::String as std::cmp::PartialEq>::eq",
       "std::string::<impl std::cmp::PartialEq<str> for std::string::String>::eq",
       "std::string::<impl std::cmp::PartialEq<&'a str> for std::string::String>::eq",
       "std::string::<impl std::cmp::PartialEq<std::string::String> for str>::eq",
       "std::string::<impl std::cmp::PartialEq<std::string::String> for &'a str>::eq")
def m_str_eq(eng, st, inst, a):
    x, y = a
    sx = as_slice2(eng, st, x)
    sy = as_slice2(eng, st, y)
    return int(bytes_eq(eng, st, sx, sy))


def as_slice2(eng, st, r):
    r = eng.force(st, r)
    if r[0] == "R":
        v = deref(eng, st, r)
        if type(v) is tuple and v[0] in ("S", "SL"):
            return v
    return as_slice(eng, st, r)


@model("std::str::from_utf8", "core::str::from_utf8")
def m_from_utf8(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    r = eng.spec.from_utf8(eng, st, s) if hasattr(eng.spec, "from_utf8") else None
    if r is None:
        k = ("utf8?", s)
        r = st.exp.get(k)
        if r is None:
            raise Unknown("validity of a byte range not established")
    if r:
        return ok(s)
    return err(("B", "utf8error"))


@model("std::str::from_utf8_unchecked", "core::str::from_utf8_unchecked", "std::str::from_utf8_unchecked_mut")
def m_from_utf8_unchecked(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    eng.spec.on_unchecked(eng, st, "utf8", s)
    return s


# ------------------------------------------------------------------ characters and integers
@model("std::char::methods::<impl char>::from_u32", "std::char::from_u32", "std::char::convert::from_u32",
       "core::char::methods::<impl char>::from_u32")
def m_from_u32(eng, st, inst, a):
    v = eng.num(st, a[0])
    if lt(st, v, 0xD800):
        return some(v)
    if lt(st, v, 0xE000):
        return NONE
    if le(st, v, 0x10FFFF):
        return some(v)
    return NONE


@model("<char as std::convert::TryFrom<u32>>::try_from", "std::char::convert::<impl std::convert::TryFrom<u32> for char>::try_from")
def m_char_try_from(eng, st, inst, a):
    r = m_from_u32(eng, st, inst, a)
    return ok(r[2][0]) if r[1] == 1 else err(("B", "charerror"))


@model("std::char::methods::<impl char>::from_u32_unchecked", "std::char::from_u32_unchecked",
       "std::char::convert::from_u32_unchecked")
def m_from_u32_unchecked(eng, st, inst, a):
    v = eng.num(st, a[0])
    if lt(st, v, 0xD800):
        return v
    if lt(st, v, 0xE000) or not le(st, v, 0x10FFFF):
        eng.spec.on_unchecked(eng, st, "char", v)
        raise Stop()
    return v


@model("std::char::methods::<impl char>::len_utf8", "std::char::methods::len_utf8")
def m_len_utf8(eng, st, inst, a):
    return char_width(st, eng.num(st, a[0]))


def char_width(st, v):
    if lt(st, v, 0x80):
        return 1
    if lt(st, v, 0x800):
        return 2
    if lt(st, v, 0x10000):
        return 3
    return 4


@model("std::char::convert::<impl std::convert::TryFrom<char> for u8>::try_from")
def m_u8_try_from(eng, st, inst, a):
    v = eng.num(st, a[0])
    if le(st, v, 255):
        return ok(v)
    return err(("A", 0, (UNIT,)))


@model("std::char::convert::<impl std::convert::From<char> for u32>::from")
def m_u32_from_char(eng, st, inst, a):
    return eng.num(st, a[0])


INTRANGE = re.compile(r"core::num::<impl (\w+)>::(\w+)$")


def int_bounds(nm):
    bits = 64 if nm in ("usize", "isize") else int(nm[1:])
    if nm[0] == "u":
        return 0, (1 << bits) - 1
    return -(1 << (bits - 1)), (1 << (bits - 1)) - 1


@pattern(r"^core::num::<impl [ui]\w+>::(checked|saturating|wrapping|overflowing|unchecked|strict)_(add|sub|mul)$")
def m_int_arith(eng, st, inst, a):
    m = INTRANGE.match(inst.dfn)
    lo, hi = int_bounds(m.group(1))
    kind, op = m.group(2).split("_")
    x, y = eng.num(st, a[0]), eng.num(st, a[1])
    if op == "add":
        v = add(x, y)
    elif op == "sub":
        v = add(x, y, -1)
    else:
        v = eng.arith(st, "Mul", x, y, inst.ret)
    v = st.norm(v)
    under = not st.need_ge0(add(v, lo, -1))
    over = False if under else not st.need_ge0(add(hi, v, -1))
    bad = under or over
    if kind == "checked":
        return NONE if bad else some(v)
    if kind == "saturating":
        return lo if under else hi if over else v
    if kind == "wrapping":
        return eng.wrap(st, v, lo, hi) if bad else v
    if kind == "overflowing":
        return ("A", 0, (eng.wrap(st, v, lo, hi) if bad else v, int(bad)))
    if bad:
        eng.panic(st, "arithmetic overflow")
        return "STOP"
    return v


@pattern(r"^core::num::<impl [ui]\w+>::abs_diff$")
def m_abs_diff(eng, st, inst, a):
    x, y = eng.num(st, a[0]), eng.num(st, a[1])
    d = st.norm(add(x, y, -1))
    return d if st.need_ge0(d) else st.norm(add(y, x, -1))


@pattern(r"^core::num::<impl [ui]\w+>::pow$")
def m_pow(eng, st, inst, a):
    lo, hi = int_bounds(INTRANGE.match(inst.dfn).group(1))
    r = eng.pointwise(st, lambda x, y: x ** min(y, 200), eng.num(st, a[0]), eng.num(st, a[1]))
    if r is None:
        raise Unknown(inst.dfn)
    if not (st.need_ge0(add(hi, r, -1)) and st.need_ge0(add(r, lo, -1))):
        eng.panic(st, "arithmetic overflow")
        return "STOP"
    return st.norm(r)


@pattern(r"^std::cmp::(Ord::(min|max)|min|max|impls::<impl std::cmp::Ord for [ui]\w+>::(min|max))$")
def m_minmax(eng, st, inst, a):
    x, y = eng.num(st, a[0]), eng.num(st, a[1])
    mn = inst.dfn.endswith("min")
    if le(st, x, y):
        return x if mn else y
    return y if mn else x


@pattern(r"^std::cmp::impls::<impl std::cmp::(Partial)?Ord for (u\w+|i\w+|char|bool)>::(partial_)?cmp$")
def m_prim_cmp(eng, st, inst, a):
    x, y = eng.num(st, deref(eng, st, a[0])), eng.num(st, deref(eng, st, a[1]))
    if not le(st, x, y):
        r = GREATER
    elif st.need_is0(add(x, y, -1)):
        r = EQUAL
    else:
        r = LESS
    return some(r) if "partial_cmp" in inst.dfn else r


@pattern(r"^std::cmp::impls::<impl std::cmp::PartialOrd for (u\w+|i\w+|char|bool)>::(lt|le|gt|ge)$")
def m_prim_rel(eng, st, inst, a):
    x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[inst.dfn.rsplit("::", 1)[1]]
    return eng.binop(st, op, x, y, None)


@pattern(r"^std::cmp::impls::<impl std::cmp::PartialEq for (u\w+|i\w+|char|bool)>::(eq|ne)$")
def m_prim_eq(eng, st, inst, a):
    x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
    return eng.binop(st, "Eq" if inst.dfn.endswith("eq") and not inst.dfn.endswith("::ne") else "Ne", x, y, None)


@pattern(r"^core::num::<impl u8>::is_ascii(_\w+)?$|^std::char::methods::<impl char>::is_(ascii(_\w+)?|control)$")
def m_ascii(eng, st, inst, a):
    v = eng.num(st, deref(eng, st, a[0]) if type(eng.force(st, a[0])) is tuple else a[0])
    name = inst.dfn.rsplit("::", 1)[1]
    d = {"is_ascii": ((0, 127),), "is_ascii_digit": ((48, 57),),
         "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
         "is_ascii_alphabetic": ((65, 90), (97, 122)), "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
         "is_ascii_control": ((0, 31), (127, 127)), "is_control": ((0, 31), (127, 159)),
         "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)), "is_ascii_uppercase": ((65, 90),),
         "is_ascii_lowercase": ((97, 122),), "is_ascii_graphic": ((33, 126),),
         "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126))}.get(name)
    if d is None:
        raise Unknown(inst.dfn)
    return int(in_dom(eng, st, v, d))


def in_dom(eng, st, v, d):
    r = eng.pointwise(st, lambda x: int(L.d_has(d, x)), v)
    if r is not None:
        if type(r) is int:
            return bool(r)
        return not st.need_is0(r)
    if type(v) is Lin and len(v.t) == 1 and v.t[0][0][1] == 0 and v.t[0][1] == 1:
        s = v.t[0][0][0]
        sh = tuple((l - v.c, h - v.c) for l, h in d)
        y = L.d_and(st.dom[s], sh)
        n = L.d_sub(st.dom[s], sh)
        if not y:
            return False
        if not n:
            return True
        raise Fork([lambda x: x.restrict(s, y), lambda x: x.restrict(s, n)])
    for l, h in d:
        if st.need_ge0(add(v, -l)) and st.need_ge0(add(h, v, -1)):
            return True
    return False


@pattern(r"^core::num::<impl (u\w+)>::from_str_radix$")
def m_from_str_radix(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    radix = eng.num(st, a[1])
    n = st.norm(slen(eng, st, s))
    if type(n) is not int or n > 16 or type(radix) is not int:
        raise Unknown("from_str_radix of a symbolic length")
    bad = err(("B", "parseint"))
    if n == 0:
        return bad
    lo, hi = int_bounds(INTRANGE.match(inst.dfn).group(1))
    i = 0
    c0 = eng.num(st, load_elem(eng, st, s, 0))
    if n > 1 and st.need_is0(add(c0, -43)):
        i = 1
    elif n == 1 and (st.need_is0(add(c0, -43)) or st.need_is0(add(c0, -45))):
        return bad
    v = 0
    while i < n:
        c = eng.num(st, load_elem(eng, st, s, i))
        dom = ((48, 47 + min(radix, 10)),)
        if radix > 10:
            dom += ((65, 54 + radix), (97, 86 + radix))
        if not in_dom(eng, st, c, dom):
            return bad
        d = eng.pointwise(st, lambda x: int(chr(x), 36) if chr(x).isalnum() and x < 128 else 0, c)
        if d is None:
            raise Unknown("digit")
        v = add(scale(v, radix), d)
        i += 1
    v = st.norm(v)
    if not le(st, v, hi):
        return bad
    return ok(v)


# ------------------------------------------------------------------ chars
def char_at(eng, st, tid, pos):
    """(cell index, char value, width) of the character starting at pos (exists)."""
    if tid[0] == "k":
        p = st.norm(pos)
        if type(p) is not int:
            raise Unknown("character of a constant at a symbolic position")
        b = tid[1]
        n = 1 if b[p] < 0x80 else 2 if b[p] < 0xE0 else 3 if b[p] < 0xF0 else 4
        return None, ord(b[p:p + n].decode()), n
    t = st.texts[tid]
    if t.kind == "b":
        return byte_char(eng, st, tid, pos)
    d = st.const_diff(pos, t.fpos)
    if d is None or d < 0:
        raise Unknown("character outside the retained window")
    w = 0
    i = 0
    while i < len(t.cells):
        if w == d:
            break
        w += t.cells[i][0]
        i += 1
    if w != d:
        raise Unknown("inside a character")
    if i < len(t.cells):
        if t.nmon <= i:
            eng.monitor(st, tid)
            t = st.texts[tid]
        return i, t.cells[i][1], t.cells[i][0]
    # a new character: choose its encoded length
    dom = CHAR_DOM
    if t.gen is not None:
        g = eng.gen_state(st, t)
        okd = ()
        for dd, ns, _ in t.gen.classes(g):
            okd = L.d_or(okd, dd)
        dom = L.d_and(dom, okd)
    rest = st.norm(add(add(t.len, t.fpos, -1), -d))
    alts = []
    for width, rg in ((1, ((0, 0x7F),)), (2, ((0x80, 0x7FF),)), (3, ((0x800, 0xFFFF),)), (4, ((0x10000, 0x10FFFF),))):
        dd = L.d_and(dom, rg)
        if not dd:
            continue

        def alt(s2, width=width, dd=dd):
            # the encoded character lies within the text
            if not s2.add_fact(add(rest, -width)):
                return False
            v = eng.newsym(s2, dd, "c")
            t2 = s2.texts[tid].clone()
            t2.cells = t2.cells + ((width, v),)
            s2.texts[tid] = t2
            return True
        alts.append(alt)
    raise Fork(alts)


def byte_char(eng, st, tid, pos):
    """A character of a byte text: only ASCII characters are decoded."""
    b = eng.num(st, eng.get_byte(st, tid, pos))
    if lt(st, b, 0x80):
        return None, b, 1
    raise Unknown("multi-byte character of a byte text")


def touch(st, tid, pos):
    if tid[0] == "k":
        return
    t = st.texts[tid]
    if t.last is None or (st.const_diff(pos, t.last) or 0) > 0 or st.const_diff(pos, t.last) is None:
        t = t.clone()
        t.last = pos
        st.texts[tid] = t


def need_more(eng, st, tid, pos):
    """The text does not end where its grammar demands more."""
    if tid[0] == "k":
        return
    t = st.texts[tid]
    if t.gen is None or not hasattr(t.gen, "needs"):
        return
    end = eng.text_end(t)
    if st.const_diff(pos, end) != 0:
        return
    k = t.gen.needs(eng.gen_state(st, t))
    if k and not st.add_fact(add(add(t.len, end, -1), -k)):
        raise Stop()


def chars_value(s):
    return ("B", "chars", s)


def next_char(eng, st, s):
    """(char, rest slice) or None."""
    h = getattr(eng.spec, "alias_char", None)
    if h is not None:
        r = h(eng, st, s)
        if r is not False:
            return r
    need_more(eng, st, s[1], s[2])
    if not lt(st, s[2], s[3]):
        return None
    i, c, w = char_at(eng, st, s[1], s[2])
    touch(st, s[1], s[2])
    return c, ("S", s[1], st.norm(add(s[2], w)), s[3])


@model("core::str::<impl str>::chars")
def m_chars(eng, st, inst, a):
    return chars_value(as_slice(eng, st, a[0]))


@model("core::str::<impl str>::char_indices")
def m_char_indices(eng, st, inst, a):
    s = as_slice(eng, st, a[0])
    return ("B", "cindices", s, ("N", s[2]))


@model("<std::str::Chars<'a> as std::iter::Iterator>::next")
def m_chars_next(eng, st, inst, a):
    v = deref(eng, st, a[0])
    r = next_char(eng, st, v[2])
    if r is None:
        return NONE
    ref_write(eng, st, a[0], chars_value(r[1]))
    return some(r[0])


def cindices(st, v):
    """CharIndices, also as built by inlined library code."""
    if v[0] == "A" and len(v[2]) == 2 and v[2][1][:2] == ("B", "chars"):
        s = v[2][1][2]
        return ("B", "cindices", s, ("N", st.norm(add(s[2], v[2][0], -1))))
    return v


@model("<std::str::CharIndices<'a> as std::iter::Iterator>::next")
def m_cindices_next(eng, st, inst, a):
    v = cindices(st, deref(eng, st, a[0]))
    s, base = v[2], v[3][1]
    r = next_char(eng, st, s)
    if r is None:
        return NONE
    ref_write(eng, st, a[0], ("B", "cindices", r[1], v[3]))
    return some(("A", 0, (st.norm(add(s[2], base, -1)), r[0])))


@model("std::str::CharIndices::<'a>::offset")
def m_cindices_offset(eng, st, inst, a):
    v = cindices(st, deref(eng, st, a[0]))
    return st.norm(add(v[2][2], v[3][1], -1))


@model("std::str::Chars::<'a>::as_str", "std::str::CharIndices::<'a>::as_str")
def m_chars_as_str(eng, st, inst, a):
    return deref(eng, st, a[0])[2]


@model("<std::str::Chars<'a> as std::clone::Clone>::clone", "<std::str::CharIndices<'a> as std::clone::Clone>::clone",
       "<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::str::Bytes<'a> as std::clone::Clone>::clone",
       "<std::str::Bytes<'_> as std::clone::Clone>::clone")
def m_clone_iter(eng, st, inst, a):
    return deref(eng, st, a[0])


@model("<std::str::Chars<'a> as std::iter::Iterator>::size_hint", "<std::str::CharIndices<'a> as std::iter::Iterator>::size_hint")
def m_chars_hint(eng, st, inst, a):
    s = deref(eng, st, a[0])[2]
    n = slen(eng, st, s)
    # ((n + 3) / 4, Some(n))
    if type(st.norm(n)) is int:
        q = (st.norm(n) + 3) // 4
    else:
        q = eng.newsym(st, ((0, ISIZE_MAX),), "p")
        if not (st.add_fact(add(add(n, 3), scale(q, -4))) and st.add_fact(add(scale(q, 4), n, -1))):
            raise Stop()
    return ("A", 0, (q, some(n)))


@model("core::str::<impl str>::bytes")
def m_bytes(eng, st, inst, a):
    return ("B", "siter", as_slice(eng, st, a[0]), "v")


@model("<std::str::Bytes<'_> as std::iter::Iterator>::next", "<std::str::Bytes<'a> as std::iter::Iterator>::next")
def m_bytes_next(eng, st, inst, a):
    v = deref(eng, st, a[0])
    s = v[2]
    if not lt(st, s[2], s[3]):
        return NONE
    c = eng.get_byte(st, s[1], s[2])
    ref_write(eng, st, a[0], ("B", "siter", ("S", s[1], st.norm(add(s[2], 1)), s[3]), "v"))
    return some(c)


# ------------------------------------------------------------------ slice iterators
@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_iter(eng, st, inst, a):
    return ("B", "siter", as_slice(eng, st, a[0]), "r")


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def m_iter_next(eng, st, inst, a):
    v = deref(eng, st, a[0])
    s = v[2]
    n = slen(eng, st, s)
    if st.need_is0(n):
        return NONE
    r = elem_ref(eng, st, s, 0)
    ref_write(eng, st, a[0], ("B", "siter", subslice(eng, st, s, 1, n), "r"))
    return some(r)


@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def m_iter_next_back(eng, st, inst, a):
    v = deref(eng, st, a[0])
    s = v[2]
    n = slen(eng, st, s)
    if st.need_is0(n):
        return NONE
    r = elem_ref(eng, st, s, add(n, -1))
    ref_write(eng, st, a[0], ("B", "siter", subslice(eng, st, s, 0, add(n, -1)), "r"))
    return some(r)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::__iterator_get_unchecked", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::__iterator_get_unchecked")
def m_iter_get_unchecked(eng, st, inst, a):
    s = deref(eng, st, a[0])[2]
    i = eng.num(st, a[1])
    if not lt(st, i, slen(eng, st, s)):
        eng.spec.on_unchecked(eng, st, "index", i)
        raise Stop()
    return elem_ref(eng, st, s, i)


@model("<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len", "<std::slice::Iter<'a, T> as std::iter::Iterator>::count")
def m_iter_len(eng, st, inst, a):
    v = eng.force(st, a[0])
    if v[0] == "R":
        v = deref(eng, st, a[0])
    return slen(eng, st, v[2])


@model("std::slice::Iter::<'a, T>::as_slice")
def m_iter_as_slice(eng, st, inst, a):
    return deref(eng, st, a[0])[2]


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint")
def m_iter_hint(eng, st, inst, a):
    n = slen(eng, st, deref(eng, st, a[0])[2])
    return ("A", 0, (n, some(n)))


# ------------------------------------------------------------------ ranges
@model("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def m_range_next(eng, st, inst, a):
    v = deref(eng, st, a[0])
    s, e = eng.num(st, v[2][0]), eng.num(st, v[2][1])
    if not lt(st, s, e):
        return NONE
    ref_write(eng, st, a[0], ("A", 0, (st.norm(add(s, 1)), e)))
    return some(s)


@model("std::ops::RangeInclusive::<Idx>::new")
def m_ri_new(eng, st, inst, a):
    return ("A", 0, (a[0], a[1], 0))


@model("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains")
def m_contains(eng, st, inst, a):
    v = deref(eng, st, a[0])
    x = eng.num(st, deref(eng, st, a[1]))
    lo, hi = eng.force(st, v[2][0]), eng.force(st, v[2][1])
    if type(lo) is tuple:
        lo = deref(eng, st, lo)
    if type(hi) is tuple:
        hi = deref(eng, st, hi)
    lo, hi = eng.num(st, lo), eng.num(st, hi)
    if "Inclusive" not in inst.dfn:
        hi = add(hi, -1)
    if type(lo) is int and type(hi) is int:
        return int(in_dom(eng, st, x, ((lo, hi),)))
    return int(le(st, lo, x) and le(st, x, hi))


# ------------------------------------------------------------------ misc
@model("<&mut I as std::iter::Iterator>::next_x")
def m_none(eng, st, inst, a):
    return None


@model("std::mem::replace", "core::mem::replace")
def m_replace(eng, st, inst, a):
    v = deref(eng, st, a[0])
    ref_write(eng, st, a[0], a[1])
    return v


@model("std::mem::take")
def m_take(eng, st, inst, a):
    return None


@model("std::mem::swap")
def m_swap(eng, st, inst, a):
    x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
    ref_write(eng, st, a[0], y)
    ref_write(eng, st, a[1], x)
    return UNIT


@model("std::hint::unreachable_unchecked")
def m_unreachable(eng, st, inst, a):
    eng.spec.on_unchecked(eng, st, "unreachable", None)
    return "STOP"


@model("std::hint::black_box", "core::hint::black_box", "std::convert::identity")
def m_ident(eng, st, inst, a):
    return a[0]


@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_call(eng, st, inst, a):
    f = eng.force(st, a[0])
    if inst.has_body() and not (type(f) is tuple and f[0] in ("F", "FP")):
        return None
    if type(f) is tuple and f[0] in ("F", "FP"):
        tgt = eng.prog.insts[f[1] if f[0] == "FP" else eng.tys[f[1]].d["inst"]]
        tup = eng.force(st, a[1])
        return ("CALL", tgt, list(tup[2]))
    raise Unknown("call of %s" % (f,))


@model("<T as std::convert::From<T>>::from", "<T as std::convert::Into<U>>::into_x",
       "<I as std::iter::IntoIterator>::into_iter")
def m_id(eng, st, inst, a):
    return a[0]


@model("core::panicking::panic", "core::panicking::panic_fmt", "std::rt::begin_panic", "core::panicking::panic_nounwind",
       "core::panicking::panic_nounwind_fmt", "core::panicking::unreachable_display", "core::panicking::panic_display",
       "core::panicking::panic_explicit", "core::panicking::assert_failed",
       "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
       "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed")
def m_panic(eng, st, inst, a):
    eng.panic(st, inst.dfn)
    return "STOP"


@pattern(r"::precondition_check$")
def m_precond(eng, st, inst, a):
    return UNIT


def i_unit(eng, st, inst, a):
    return UNIT


def i_likely(eng, st, inst, a):
    return a[0]


def i_assume(eng, st, inst, a):
    v = eng.num(st, a[0])
    if type(v) is not int:
        v = 0 if st.need_is0(v) else 1
    if not v:
        eng.spec.on_unchecked(eng, st, "assume", None)
        raise Stop()
    return UNIT


def i_discr(eng, st, inst, a):
    v = deref(eng, st, a[0])
    ty = inst.args[0]
    return eng.discr(st, v, ty)


def i_pick(mn):
    def f(eng, st, inst, a):
        x, y = eng.num(st, a[0]), eng.num(st, a[1])
        if le(st, x, y):
            return x if mn else y
        return y if mn else x
    return f


def i_sat(op):
    def f(eng, st, inst, a):
        t = eng.tys[inst.args[0]]
        lo, hi = int_bounds(t.name)
        v = st.norm(add(eng.num(st, a[0]), eng.num(st, a[1]), op))
        if not st.need_ge0(add(v, lo, -1)):
            return lo
        return v if st.need_ge0(add(hi, v, -1)) else hi
    return f


def i_bits(f):
    """A function of the bits of one unsigned number (and constants)."""
    def g(eng, st, inst, a):
        lo, hi = int_bounds(eng.tys[inst.args[0]].name)
        n = (hi - lo + 1).bit_length() - 1
        r = eng.pointwise(st, lambda x, *y: f(x % (1 << n), n, *y), *[eng.num(st, x) for x in a])
        if r is None or lo < 0 and f in (b_swap, b_reverse, b_rotl, b_rotr):
            raise Unknown(inst.intrinsic)
        return r
    return g


def b_swap(x, n):
    return int.from_bytes(x.to_bytes(n // 8, "little"), "big")


def b_reverse(x, n):
    return int(bin(x)[2:].zfill(n)[::-1], 2)


def b_rotl(x, n, k):
    k %= n
    return (x << k | x >> (n - k)) % (1 << n)


def b_rotr(x, n, k):
    return b_rotl(x, n, n - k % n)


def b_ctlz(x, n):
    return n - x.bit_length()


def b_cttz(x, n):
    return n if x == 0 else (x & -x).bit_length() - 1


def b_ctpop(x, n):
    return bin(x).count("1")


def i_cmp3(eng, st, inst, a):
    x, y = eng.num(st, a[0]), eng.num(st, a[1])
    if not le(st, x, y):
        return GREATER
    return EQUAL if st.need_is0(add(x, y, -1)) else LESS


def i_select(eng, st, inst, a):
    c = eng.num(st, a[0])
    return a[2] if (c == 0 if type(c) is int else st.need_is0(c)) else a[1]


INTR = {"ctlz": i_bits(b_ctlz), "ctlz_nonzero": i_bits(b_ctlz), "cttz": i_bits(b_cttz), "cttz_nonzero": i_bits(b_cttz), "ctpop": i_bits(b_ctpop),
        "bswap": i_bits(b_swap), "bitreverse": i_bits(b_reverse), "rotate_left": i_bits(b_rotl), "rotate_right": i_bits(b_rotr),
        "three_way_compare": i_cmp3, "select_unpredictable": i_select, "is_val_statically_known": lambda eng, st, inst, a: 0,
        "integer_min": i_pick(True), "integer_max": i_pick(False), "saturating_add": i_sat(1), "saturating_sub": i_sat(-1), "cold_path": i_unit, "likely": i_likely, "unlikely": i_likely, "black_box": i_likely, "assume": i_assume,
        "assert_inhabited": i_unit, "discriminant_value": i_discr, "forget": i_unit}
