"""Contracts of single functions: arguments are arbitrary values of their types, the result is compared with
what the contract says in terms of them."""
import re

from ..spec import Spec
from ..engine import Fork, Stop, Unknown, Text, UNIT, State, USIZE_MAX
from ..lin import add, Lin
from .seqs import Vecs, find_vec, new_seq, pushed, vec_elem, EMPTY

CLONE = re.compile(r"^<std::string::String as std::clone::Clone>::clone$")
PARSE = re.compile(r"^justjson::parser::Parser::<.*>::(parse_json(_bytes)?(_with_config)?)$")
JEQ = re.compile(r"^<justjson::JsonString<.*> as std::cmp::PartialEq(<.*>)?>::(eq|ne)$")
JSTRING = re.compile(r"justjson::(JsonString|string::|AsJson)")
DELEGATE = re.compile(r"^<(.*) as justjson::parser::ParseDelegate<.*>>::(\w+)$")


def same(eng, st, a, b):
    """Are two values the same?  True | False | None."""
    a, b = eng.rv(st, a), eng.rv(st, b)
    if a == b:
        return True
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return st.is0(add(a, b, -1))
    if type(a) is not tuple or type(b) is not tuple:
        return False
    if a[0] == "O" or b[0] == "O":
        if a[0] == b[0]:
            return a[1] == b[1]
        try:
            return same(eng, st, eng.force(st, a), eng.force(st, b))
        except RecursionError:
            return None
    if a[0] != b[0]:
        return False
    if a[0] == "A":
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return False
        return every(same(eng, st, x, y) for x, y in zip(a[2], b[2]))
    if a[0] == "L" or a[0] == "V":
        return len(a[1]) == len(b[1]) and every(same(eng, st, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "S":
        if a[1] == b[1]:
            return every(st.is0(add(x, y, -1)) for x, y in zip(a[2:], b[2:]))
        return False
    if a[0] == "B":
        return a[1] == b[1] and len(a) == len(b) and every(same(eng, st, x, y) for x, y in zip(a[2:], b[2:]))
    return False


def settle(eng, st, a, b):
    """same(), where a difference of numbers that is not known is taken both ways."""
    a, b = eng.rv(st, a), eng.rv(st, b)
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        try:
            return st.need_is0(add(a, b, -1))
        except Unknown:
            return None
    if type(a) is tuple and type(b) is tuple and a[0] == b[0] == "A" and a[1] == b[1] and len(a[2]) == len(b[2]):
        return every(settle(eng, st, x, y) for x, y in zip(a[2], b[2]))
    return same(eng, st, a, b)


def every(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def variant(eng, ty, name, *fields):
    return ("A", eng.variant_named(ty, name), tuple(fields))


class Unit(Spec, Vecs):
    """setup(self, eng, st) -> arguments; check(self, eng, st, value)."""
    time_limit = 60
    max_steps = 400_000

    def __init__(self, setup, check, hook=None):
        self.setup = setup
        self.check = check
        self.hook = hook
        self.more = []

    def expand(self, eng, st, oid, ty):
        t = eng.tys[ty]
        r = self.expand_vec(eng, st, oid, ty)
        if r is None and t.name == "std::string::String":
            tid = ("t", oid)
            if tid not in st.texts:
                st.texts[tid] = Text("c", eng.param(st, 0, 1 << 40, "len"), 0)
            r = ("B", "string", ("S", tid, 0, st.texts[tid].len))
        return r

    def intercept(self, eng, st, inst, a):
        if self.hook is not None:
            r = self.hook(self, eng, st, inst, a)
            if r is not None:
                return r
        r = self.vec_call(eng, st, inst, a)
        if r is not None:
            return r
        if JEQ.match(inst.dfn):
            return self.either(eng, st, inst, a)
        if CLONE.match(inst.dfn):
            from ..builtins import deref
            v = deref(eng, st, a[0])
            if type(v) is tuple and v[0] == "B" and v[1] == "string":
                return v
        return None

    def either(self, eng, st, inst, a):
        """The comparison of two strings with arbitrary contents: both outcomes."""
        r = st.gh.pop("now", None)
        if r is not None:
            return r

        def alt(r):
            def f(s):
                s.gh["now"] = r
                return True
            return f
        raise Fork([alt(0), alt(1)])

    def inside_strings(self, st):
        """Is this inside code that relies on what JsonString keeps true about its text?  Arbitrary arguments do not have it."""
        return any(JSTRING.search(f.inst.dfn) for f in st.frames)

    def on_panic(self, eng, st, what, where):
        if self.inside_strings(st):
            eng.undecide("a panic inside a string's methods, given any string: %s" % what)
            return
        Spec.on_panic(self, eng, st, what, where)

    def on_unchecked(self, eng, st, what, val):
        if self.inside_strings(st):
            eng.undecide("an unchecked operation inside a string's methods, given any string")
            return
        Spec.on_unchecked(self, eng, st, what, val)

    def on_return(self, eng, st, val):
        """Checks the result; a contract of several calls goes on with the next: check returns (instance, arguments, check)."""
        i = st.gh.get("step", 0)
        nxt = (self.check if i == 0 else self.more[i - 1])(self, eng, st, val)
        if nxt is None:
            return
        inst, args, check = nxt
        self.more = self.more[:i] + [check]
        s = st.clone()
        s.frames = []
        eng.pop_locals(s, st.frames[-1])
        s.gh["step"] = i + 1
        eng.start(inst, s, args)
        eng.push(s)

    # ------------------------------------------------------------ helpers
    def value(self, eng, st, ty, name):
        return ("O", ("arg", name), ty)

    def obj(self, eng, st, ty, name, v=None):
        """A reference to a place of its own that holds v (or anything of the type)."""
        key = ("o", ("arg", name))
        st.mem[key] = self.value(eng, st, ty, name) if v is None else v
        eng.objty[key] = ty
        return ("R", key, ())

    def at(self, st, name):
        return st.mem[("o", ("arg", name))]

    def expect(self, eng, st, got, want, key, msg):
        r = same(eng, st, got, want)
        if r is None:
            r = settle(eng, st, got, want)
        eng.require(st, r, key, msg)
        return r


def run_unit(prog, inst, setup, check, hook=None, capacity=4, spec=None):
    from ..exec import Engine
    if spec is None:
        spec = Unit(setup, check, hook)
    setup = spec.setup
    spec.capacity = capacity
    spec.inst = inst
    eng = Engine(prog, spec)
    st = State()
    todo = [st]
    while todo:
        st = todo.pop()
        s = st.clone()
        try:
            args = setup(spec, eng, s)
        except Fork as f:
            for alt in f.alts:
                x = st.clone()
                if alt(x):
                    todo.append(x)
            continue
        except Stop:
            continue
        except Unknown as e:
            eng.undecide("%s: %s" % (inst.dfn, e))
            continue
        eng.start(inst, s, args)
        eng.push(s)
    eng.loop()
    return eng


def reachable(prog, root):
    seen, todo = set(), [root.id]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for b in prog.insts[i].blocks or ():
            t = b["t"]
            if t[0] == "call" and type(t[1]) is int:
                todo.append(t[1])
        if prog.insts[i].model is not None:
            todo.append(prog.insts[i].model)
    return [prog.insts[i] for i in sorted(seen)]


def delegate(prog, root):
    """The delegate methods an entry point parses with: name -> instance."""
    out = {}
    for x in reachable(prog, prog.roots[root]):
        m = DELEGATE.match(x.dfn)
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = x
    return out
