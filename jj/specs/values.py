"""Delegates that build values and documents, and the entry points that use them."""
from ..engine import Fork, Stop, Unknown, UNIT
from ..lin import add
from ..builtins import deref
from .seqs import find_vec, new_seq, pushed, vec_elem, vec_len, EMPTY
from .unit import run_unit, variant, same, every, delegate, PARSE

METHODS = ("null", "boolean", "number", "string", "begin_object", "object_key", "object_value", "object_is_empty", "end_object",
           "begin_array", "array_value", "array_is_empty", "end_array", "kind_of")
KINDS = ("Null", "Boolean", "Number", "String", "Object", "Array")


def elem(eng, ty):
    return eng.tys[ty].d["elem"]


def args_of(sp, eng, st, inst, fixed=None):
    """Arbitrary arguments of the parameter types; references point to places of their own."""
    out = []
    for i, ty in enumerate(inst.params):
        name = "a%d" % i
        if fixed and i in fixed:
            out.append(fixed[i])
        elif eng.tys[ty].k == "ref" and eng.tys[elem(eng, ty)].k not in ("str", "slice"):
            out.append(sp.obj(eng, st, elem(eng, ty), name))
        else:
            out.append(sp.value(eng, st, ty, name))
    return out


def okv(v):
    return ("A", 0, (v,))


def payload(sp, eng, st, val, key, what):
    """The payload of Ok, or None (reported)."""
    v = eng.force(st, val)
    if not eng.require(st, v[1] == 0, key, "%s fails" % what):
        return None
    return v[2][0]


def same_base(eng, st, v, base):
    """Is v the vector `base` with things pushed to it?"""
    return same(eng, st, v[2], base[2]) is True and len(pushed(v)) >= len(pushed(base)) and every(same(eng, st, x, y) for x, y in zip(pushed(v), pushed(base)))


# ------------------------------------------------------------------ values
def value_method(prog, inst, m, methods):
    """The contract of one method of the delegate that builds Value trees (object_key: with the object_value that follows)."""
    ret = inst.ret

    def arg(sp, i):
        return ("O", ("arg", "a%d" % i), inst.params[i])

    def setup(sp, eng, st):
        a = args_of(sp, eng, st, inst)
        if m in ("object_key", "array_value", "object_is_empty", "array_is_empty"):
            r = find_vec(eng, st, sp.at(st, "a1"))
            if r is None:
                raise Unknown("no vector in %s" % eng.tys[elem(eng, inst.params[1])].name)
            st.gh["before"] = r[1]
        return a

    def ok(eng, st, sp, val):
        return payload(sp, eng, st, val, "value:" + m, "the %s method of the delegate that builds values" % m)

    def valty(eng):
        t = eng.tys[ret]
        return t.d["variants"][0]["fields"][0][1]

    def check(sp, eng, st, val):
        key = "value:" + m
        if m == "kind_of":
            v = eng.force(st, sp.at(st, "a1"))
            want = eng.tys[elem(eng, inst.params[1])].d["variants"][v[1]]["name"]
            got = eng.tys[ret].d["variants"][eng.force(st, val)[1]]["name"]
            eng.require(st, got == want, key, "the kind of a %s value is given as %s" % (want, got))
            return
        if m.endswith("is_empty"):
            n = vec_len(st, find_vec(eng, st, sp.at(st, "a1"))[1])
            eng.require(st, bool(eng.num(st, val)) == bool(st.need_is0(n)), key, "a container's emptiness is reported wrongly")
            return
        v = ok(eng, st, sp, val)
        if v is None:
            return
        if m in ("null", "boolean", "number", "string", "end_object", "end_array"):
            name = {"end_object": "Object", "end_array": "Array"}.get(m, m.capitalize())
            want = variant(eng, valty(eng), name, *([arg(sp, 1)] if m != "null" else []))
            sp.expect(eng, st, v, want, key, "%s does not give the value it was called with" % m)
        elif m in ("begin_object", "begin_array"):
            r = find_vec(eng, st, v)
            if r is None:
                raise Unknown("no vector in what %s returns" % m)
            eng.require(st, st.is0(vec_len(st, r[1])), key, "a new container is not empty")
        elif m == "object_key":
            nxt = methods["object_value"]
            a = [("R", ("o", ("arg", "a0")), ()), ("R", ("o", ("arg", "a1")), ()), v, ("O", ("arg", "value"), nxt.params[3])]
            return nxt, a, member
        else:
            r = find_vec(eng, st, sp.at(st, "a1"))
            p = pushed(r[1])
            n = len(p) - len(pushed(st.gh["before"]))
            if eng.require(st, n == 1 and same_base(eng, st, r[1], st.gh["before"]), key, "the container does not get one more member at its end (%d are added)" % n):
                sp.expect(eng, st, p[-1], arg(sp, 2), key, "another value than the one given is added")

    def member(sp, eng, st, val):
        key = "value:object_value"
        if payload(sp, eng, st, val, key, "the object_value method of the delegate that builds values") is None:
            return
        r = find_vec(eng, st, sp.at(st, "a1"))
        p = pushed(r[1])
        n = len(p) - len(pushed(st.gh["before"]))
        if not eng.require(st, n == 1 and same_base(eng, st, r[1], st.gh["before"]), key, "the object does not get one more member at its end (%d are added)" % n):
            return
        e = eng.force(st, p[-1])
        fs = eng.tys[vec_elem_of(eng, inst.params[1])].d["variants"][0]["fields"]
        for x, (fname, fty) in zip(e[2], fs):
            want = {"key": arg(sp, 2), "value": ("O", ("arg", "value"), 0)}.get(fname)
            if want is not None:
                sp.expect(eng, st, x, want, key, "another %s than the one given is added" % fname)
    if m == "object_value":
        return None
    return run_unit(prog, inst, setup, check)


def vec_elem_of(eng, ty, depth=0):
    """Element type of the vector inside a type."""
    t = eng.tys[ty]
    if t.k == "ref":
        return vec_elem_of(eng, t.d["elem"], depth)
    e = vec_elem(eng, ty)
    if e:
        return e[0]
    if t.k == "adt" and t.d["adtkind"] == "struct" and depth < 4:
        for _, f in t.d["variants"][0]["fields"]:
            r = vec_elem_of(eng, f, depth + 1)
            if r is not None:
                return r
    return None


# ------------------------------------------------------------------ documents
def doc_method(prog, inst, m, methods, capacity):
    """The contract of one method of the delegate that records nodes.

    The vector holds `n` nodes; a container is the index of its node."""
    ret = inst.ret
    name = "node:" + m

    def place(sp, eng, st):
        """The delegate is a reference (possibly to a reference) to the nodes: their place."""
        t = inst.params[0]
        r = sp.obj(eng, st, elem(eng, t), "a0")
        while eng.tys[elem(eng, t)].k == "ref":
            t = elem(eng, t)
            q = sp.obj(eng, st, elem(eng, t), "nodes")
            st.mem[r[1]] = q
            r = q
        st.gh["nodes"] = r
        return ("R", ("o", ("arg", "a0")), ())

    def nodes(sp, eng, st):
        r = find_vec(eng, st, deref(eng, st, st.gh["nodes"]))
        if r is None:
            raise Unknown("no vector of nodes")
        return r[1]

    def setup(sp, eng, st):
        fixed = {0: place(sp, eng, st)}
        v = nodes(sp, eng, st)
        st.gh["before"] = v
        sp.elem = vec_elem_of(eng, eng.objty[st.gh["nodes"][1]])
        n = vec_len(st, v)
        if m in ("object_key", "object_is_empty", "end_object", "array_value", "array_is_empty", "end_array", "kind_of"):
            i = eng.param(st, 0, 1 << 40, "container")
            if not st.add_fact(add(add(n, i, -1), -1)):
                raise Stop()
            st.gh["idx"] = ("N", i)
            ty = elem(eng, inst.params[1]) if eng.tys[inst.params[1]].k == "ref" else inst.params[1]
            if eng.tys[ty].k != "uint":
                raise Unknown("containers are not indices")
            fixed[1] = sp.obj(eng, st, ty, "a1", i) if eng.tys[inst.params[1]].k == "ref" else i
            key = ("o", ("arg", "node"))
            if m == "kind_of":
                x = ("O", ("arg", "node"), sp.elem)
            else:
                n = eng.param(st, 0, 1 << 40, "length")
                st.gh["len"] = ("N", n)
                x = variant(eng, sp.elem, "Object" if "object" in m else "Array", n)
            st.mem[key] = x
            eng.objty[key] = sp.elem
            st.exp[("elt", v[2][1], i)] = ("R", key, ())
            t = st.texts[v[2][1]].clone()
            t.fpos = add(t.len, 0)      # no element is at a known place
            st.texts[v[2][1]] = t
        return args_of(sp, eng, st, inst, fixed)

    def arg(i):
        return ("O", ("arg", "a%d" % i), inst.params[i])

    def check(sp, eng, st, val):
        v = nodes(sp, eng, st)
        p = pushed(v)
        base = same_base(eng, st, v, st.gh["before"])
        if m == "kind_of":
            x = eng.force(st, st.mem[("o", ("arg", "node"))])
            want = eng.tys[sp.elem].d["variants"][x[1]]["name"]
            got = eng.tys[ret].d["variants"][eng.force(st, val)[1]]["name"]
            eng.require(st, got == want, name, "the kind of a %s node is given as %s" % (want, got))
            return
        if m.endswith("is_empty"):
            eng.require(st, bool(eng.num(st, val)) == bool(st.need_is0(st.gh["len"][1])), name, "a container's emptiness is reported wrongly")
            eng.require(st, base and not p, name, "asking for emptiness changes the nodes")
            return
        r = eng.force(st, val)
        pushes = m not in ("end_object", "array_value", "end_array")
        if pushes and capacity is not None:
            full = st.need_ge0(add(vec_len(st, st.gh["before"]), capacity, -1))
            if full:
                if eng.require(st, r[1] == 1, name + ":full", "a document that does not fit is accepted"):
                    e = eng.force(st, r[2][0])
                    got = eng.tys[eng.tys[ret].d["variants"][1]["fields"][0][1]].d["variants"][e[1]]["name"]
                    eng.require(st, got == "PaylodTooLarge", name + ":full", "a document that does not fit is refused with %s" % got)
                return
        if not eng.require(st, r[1] == 0, name, "%s fails" % m):
            return
        x = r[2][0]
        if pushes:
            if not eng.require(st, base and len(p) == 1, name, "%s adds %d nodes" % (m, len(p))):
                return
            kind = {"begin_object": "Object", "begin_array": "Array", "object_key": "String"}.get(m, m.capitalize())
            pay = {"null": [], "begin_object": [0], "begin_array": [0], "object_key": [arg(2)] if len(inst.params) > 2 else []}.get(m)
            if pay is None:
                pay = [arg(1)]
            sp.expect(eng, st, p[0], variant(eng, sp.elem, kind, *pay), name, "%s records another node" % m)
            if m != "object_key":
                eng.require(st, st.is0(add(eng.num(st, x), vec_len(st, st.gh["before"]), -1)), name, "%s returns the place of another node" % m)
        else:
            eng.require(st, base and not p, name, "%s adds nodes" % m)
        if m == "object_key":
            # the nodes of the member's value follow, then:
            nxt = methods["object_value"]
            j = eng.param(st, 0, 1 << 40, "value")
            a = [("R", ("o", ("arg", "a0")), ()), ("R", ("o", ("arg", "a1")), ()), x, j]
            return nxt, a, member
        if "idx" in st.gh:
            node = eng.force(st, st.mem[("o", ("arg", "node"))])
            want = variant(eng, sp.elem, "Object" if "object" in m else "Array", add(st.gh["len"][1], 1) if m == "array_value" else st.gh["len"][1])
            sp.expect(eng, st, node, want, name + ":length", "%s leaves a container with the wrong length" % m)
            if m.startswith("end_"):
                eng.require(st, st.is0(add(eng.num(st, x), st.gh["idx"][1], -1)), name, "%s returns the place of another node" % m)

    def member(sp, eng, st, val):
        r = eng.force(st, val)
        if not eng.require(st, r[1] == 0, "node:object_value", "object_value fails"):
            return
        v = nodes(sp, eng, st)
        eng.require(st, same_base(eng, st, v, st.gh["before"]) and len(pushed(v)) == 1, "node:object_value", "object_value adds nodes")
        node = eng.force(st, st.mem[("o", ("arg", "node"))])
        sp.expect(eng, st, node, variant(eng, sp.elem, "Object", add(st.gh["len"][1], 1)), "node:object_value:length", "a member leaves its object with the wrong length")
    if m == "object_value":
        return None
    return run_unit(prog, inst, setup, check, capacity=capacity or 0)


# ------------------------------------------------------------------ entry points
def default_config(prog):
    got = []

    def check(sp, eng, st, val):
        got.append(eng.force(st, val))
    run_unit(prog, prog.roots["cfg_default"], lambda sp, eng, st: [], check)
    return got[0] if len(got) == 1 else None


def entry(prog, root, default):
    """A function that parses its input with the given (or the default) configuration and returns the outcome."""
    inst = prog.roots[root]

    def hook(sp, eng, st, i, a):
        m = PARSE.match(i.dfn)
        if not m:
            return None
        if "call" in st.gh:
            eng.violation(st, "entry:twice", "the input is parsed twice")
            raise Stop()
        text = eng.force(st, a[0])
        if text[0] != "S":
            raise Unknown("the text that is parsed")
        op = m.group(1)
        cfg, d = (a[1], a[2]) if op.endswith("config") else (default, a[1])
        st.gh["call"] = ("A", 0, (int("bytes" in op), text, eng.force(st, cfg)))
        d = eng.rv(st, d)
        if type(d) is tuple and d[0] == "R":
            # the delegate is lent: what it holds was recorded by the parser
            r = find_vec(eng, st, deref(eng, st, d))
            if r is None:
                raise Unknown("a delegate without nodes")
            eng.require(st, st.is0(vec_len(st, r[1])), "entry:fresh", "parsing starts with nodes already recorded")
            e = vec_elem_of(eng, eng.objty.get(d[1]) or elem(eng, i.params[-1]))
            path, _ = r
            loc = eng.deref(st, d, None)
            eng.store(st, ("M", loc[1], loc[2] + path), new_seq(eng, st, ("nodes",), e))
        return ("O", ("result",), i.ret)

    def setup(sp, eng, st):
        a = args_of(sp, eng, st, inst)
        sp.args = a
        return a

    def check(sp, eng, st, val):
        if not eng.require(st, "call" in st.gh, "entry:parsed", "the input is not parsed"):
            return
        bytes_, text, cfg = st.gh["call"][2]
        want = eng.force(st, sp.args[0])
        if not eng.require(st, same(eng, st, text, want), "entry:input", "another text than the input is parsed"):
            return
        strin = eng.tys[elem(eng, inst.params[0])].k == "str"
        eng.require(st, strin or bytes_ == 1, "entry:utf8", "bytes are parsed as if they were known to be UTF-8")
        c = sp.args[1] if len(sp.args) > 1 else default
        eng.require(st, same(eng, st, cfg, c), "entry:config", "the input is parsed with another configuration")
        v = eng.force(st, val)
        r = eng.force(st, ("O", ("result",), 0))
        if not eng.require(st, v[1] == r[1], "entry:outcome", "success and failure are not reported as the parser does"):
            return
        if r[1] == 1:
            same_error(sp, eng, st, inst, v[2][0], r[2][0])
            return
        if ("nodes",) in st.texts:
            f = find_vec(eng, st, v[2][0])
            if f is None:
                raise Unknown("no nodes in the document")
            t = st.texts[("nodes",)]
            eng.require(st, same(eng, st, f[1][2], ("S", ("nodes",), 0, t.len)) is True and not pushed(f[1]), "entry:outcome", "the document does not consist of the nodes recorded")
        else:
            sp.expect(eng, st, v[2][0], r[2][0], "entry:outcome", "another value is returned than the parser gave")
    return run_unit(prog, inst, setup, check, hook)


def same_error(sp, eng, st, inst, got, want):
    """The same error, with a delegate's error (itself a kind) put in its place."""
    if same(eng, st, got, want) is True:
        eng.require(st, True, "entry:error", "")
        return
    g, w = eng.force(st, got), eng.force(st, want)
    tg = eng.tys[inst.ret].d["variants"][1]["fields"][0][1]
    fg = [f[0] for f in eng.tys[tg].d["variants"][0]["fields"]]
    if sorted(fg) != ["kind", "offset"]:
        raise Unknown("the fields of Error")
    k, o = fg.index("kind"), fg.index("offset")
    eng.require(st, same(eng, st, g[2][o], w[2][o]), "entry:error", "the error's offset is changed")
    kg, kw = eng.force(st, g[2][k]), eng.force(st, w[2][k])
    names = [x["name"] for x in eng.tys[eng.tys[tg].d["variants"][0]["fields"][k][1]].d["variants"]]
    if names[kw[1]] == "ErrorFromDelegate":
        sp.expect(eng, st, kg, kw[2][0], "entry:error", "a delegate's error is not reported as it is")
    else:
        eng.require(st, kg[1] == kw[1] and every(same(eng, st, x, y) for x, y in zip(kg[2], kw[2])), "entry:error",
                    "the error %s is reported as %s" % (names[kw[1]], names[kg[1]]))


# ------------------------------------------------------------------ one kind only
def only_method(prog, inst, m, own):
    """The contract of one method of the delegate that takes one kind of scalar and refuses everything else."""
    key = "only:%s:%s" % (own, m)

    def setup(sp, eng, st):
        return args_of(sp, eng, st, inst)

    def check(sp, eng, st, val):
        r = eng.force(st, val)
        if m == own:
            if eng.require(st, r[1] == 0, key, "a %s is refused" % own):
                sp.expect(eng, st, r[2][0], ("O", ("arg", "a1"), inst.params[1]), key, "not the %s that was read is given" % own)
            return
        if not eng.require(st, r[1] == 1, key, "something else than a %s is accepted (%s)" % (own, m)):
            return
        e = eng.force(st, r[2][0])
        got = eng.tys[eng.tys[inst.ret].d["variants"][1]["fields"][0][1]].d["variants"][e[1]]["name"]
        eng.require(st, got == "Expected" + own.capitalize(), key, "something else than a %s is refused with %s" % (own, got))
    return run_unit(prog, inst, setup, check)
