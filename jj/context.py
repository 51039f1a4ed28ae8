"""Recursion: functions of a cycle are analysed once per abstract calling context.

A context is the callee's view of the state at a recursive call: what is reachable
from its arguments, the text from the current window on, and the part of the
specification's state it can touch.  Its exits are collected and applied to every
caller; numbers are related through the anchors at its entry."""
from . import lin as L
from .lin import Lin, add, scale, sym as symlin
from .engine import Fork, Frame, Stop, Unknown, U, ISIZE_MAX, CHAR_DOM
from .walk import Walk
from .anchor import generalise


FROZEN = ("T", "frozen")


class Ctx:
    def __init__(self, cid, inst):
        self.cid = cid
        self.inst = inst
        self.pins = ()
        self.idents = ()
        self.syms = ()
        self.entries = {}      # ghost name -> symbol
        self.exits = []
        self.exitkeys = set()
        self.callers = []
        self.callerkeys = set()


class Ren:
    """Renames symbols, memory, opaques and texts in values."""

    def __init__(self, eng):
        self.eng = eng
        self.symmap = {}
        self.keymap = {}
        self.idmap = {}
        self.newsym = None
        self.newkey = None
        self.newid = None

    def num(self, v):
        if type(v) is int:
            return v
        c = v.c
        out = None
        r = {}
        for (s, t), k in v.t:
            m = self.symmap.get(s)
            if m is None and self.newsym is not None:
                m = self.symmap[s] = self.newsym(s)
            if m is None:
                r[(s, t)] = r.get((s, t), 0) + k
                continue
            if t == 0:
                out = scale(m, k) if out is None else add(out, m, k)
            elif type(m) is int:
                c += k * L.TABS[t][m]
            else:
                if len(m.t) != 1 or m.c or m.t[0][1] != 1 or m.t[0][0][1] != 0:
                    raise Unknown("renaming under a table")
                r[(m.t[0][0][0], t)] = r.get((m.t[0][0][0], t), 0) + k
        x = L.mk(c, r)
        return x if out is None else add(out, x)

    def key(self, k):
        m = self.keymap.get(k)
        if m is None:
            if self.newkey is None or k[0] == "g":
                return k, ()
            m = self.keymap[k] = (self.newkey(k), ())
        return m

    def ident(self, i):
        m = self.idmap.get(i)
        if m is None:
            if self.newid is None:
                return i
            m = self.idmap[i] = self.newid(i)
        return m

    def tid(self, t):
        if t[0] == "t":
            return ("t", self.ident(t[1]))
        return t

    def val(self, v):
        if type(v) is int or v is None or type(v) is str:
            return v
        if type(v) is Lin:
            return self.num(v)
        k = v[0]
        if k == "A":
            return ("A", v[1], tuple(self.val(x) for x in v[2]))
        if k == "V":
            return ("V", tuple(self.val(x) for x in v[1]))
        if k == "L":
            return ("L", tuple(self.val(x) for x in v[1]))
        if k == "R":
            nk, pre = self.key(v[1])
            return ("R", nk, pre + tuple(self.val(e) for e in v[2]))
        if k == "SL":
            nk, pre = self.key(v[1])
            return ("SL", nk, pre + tuple(self.val(e) for e in v[2]), self.val(v[3]), self.val(v[4]))
        if k == "S":
            return ("S", self.tid(v[1]), self.val(v[2]), self.val(v[3]))
        if k == "C":
            return ("C", self.tid(v[1]), self.val(v[2]))
        if k == "O":
            return ("O", self.ident(v[1]), v[2])
        if k == "N":
            return ("N", self.num(v[1]))
        if k == "P":
            return ("P", self.num(v[1]))
        if k == "ID":
            return ("ID", self.ident(v[1]))
        if k == "B":
            return ("B", v[1]) + tuple(self.val(x) for x in v[2:])
        return v

    def text(self, t):
        n = t.clone()
        n.len = self.num(t.len)
        n.fpos = self.num(t.fpos)
        n.cells = tuple((w, self.val(v)) for w, v in t.cells)
        n.gh = tuple(self.num(x) for x in t.gh)
        n.marks = tuple((self.num(p), m) for p, m in t.marks)
        n.last = None if t.last is None else self.num(t.last)
        return n


def call_ctx(eng, st, inst, args, dest, target):
    from .exec import State
    S = st
    C = S.clone()
    outer = S.ctx
    # ---- the memory reachable from the arguments gets names of its own
    fr = Frame(inst, eng.newid(), None, None)
    C.frames = [fr]
    C.ctx = None
    for i, a in enumerate(args):
        C.mem[(fr.fid, i + 1)] = a
    saved = eng.spec.enter(eng, C)
    w = Walk(eng, C)
    w.run()
    if w.stuck:
        raise Unknown(w.stuck)
    keys = [k for k in w.keyno if k[0] not in w.fidno and k[0] != "g"]
    ren = Ren(eng)
    back = []
    for i, k in enumerate(keys):
        ty = keyty(eng, S, k)
        nk = ("o", ("cx", i, ty))
        eng.objty[nk] = ty
        ren.keymap[k] = (nk, ())
        back.append((nk, k))
    mem = {}
    for k, v in C.mem.items():
        if k in w.keyno:
            mem[ren.key(k)[0]] = ren.val(full(eng, C, v))
    C.mem = mem
    C.gh = {k: ren.val(v) for k, v in C.gh.items()}
    C.texts = {t: x for t, x in C.texts.items() if t in w.textno or x.mon is not None}
    ctx = Ctx(len(eng.ctxlist), inst)
    ctx.pins = tuple(nk for nk, _ in back)
    C.ctx = ctx
    C.exp = dict(C.exp)
    # ---- abstract
    w = Walk(eng, C)
    w.run()
    eng.gc_cells(C, w)
    before = {g: C.gh[g][1] for g in eng.spec.entry_anchors(C)}
    groups = eng.spec.anchors(eng, C)
    if groups is not None:
        generalise(eng, C, groups, eng.spec.counters(eng, C))
    w = Walk(eng, C)
    w.run()
    key = (inst.id, w.exact_key(), C.lossy)
    entry = {g: C.gh[g][1] for g in eng.spec.entry_anchors(C)}
    old = eng.ctxs.get(key)
    fresh = old is None
    if fresh:
        eng.ctxs[key] = ctx
        eng.ctxlist.append(ctx)
        eng.stat["contexts"] += 1
        ctx.idents = tuple(sorted(w.idno, key=w.idno.get))
        ctx.syms = tuple(sorted(w.symno, key=w.symno.get))
        C.mem = {k: v for k, v in C.mem.items() if k in w.keyno}
        fr.root = ctx
    else:
        ctx = old
    idents = tuple(sorted(w.idno, key=w.idno.get))
    syms = tuple(sorted(w.symno, key=w.symno.get))
    # ---- the caller
    wc = Walk(eng, S)
    wc.run()
    ck = (tuple((f.inst.id, f.bb) for f in S.frames), outer.cid if outer else None, wc.exact_key(), S.lossy, str(dest), target,
          tuple(wc.keyno.get(k, k) for _, k in back))
    if ck in ctx.callerkeys:
        return False
    ctx.callerkeys.add(ck)
    caller = (S.clone(), saved, tuple(back), idents, syms, before, dest, target)
    ctx.callers.append(caller)
    if fresh:
        eng.push(C)
    for E in list(ctx.exits):
        apply(eng, ctx, caller, E)
    return False


def keyty(eng, S, k):
    if k[0] == "o":
        return eng.objty.get(k)
    for f in S.frames:
        if f.fid == k[0]:
            return f.inst.locals[k[1]]
    return None


def full(eng, st, v):
    """Resolve expanded opaques throughout."""
    v = eng.rv(st, v)
    if type(v) is tuple:
        if v[0] == "A":
            return ("A", v[1], tuple(full(eng, st, x) for x in v[2]))
        if v[0] == "V":
            return ("V", tuple(full(eng, st, x) for x in v[1]))
    return v


def ctx_exit(eng, st, fr, v):
    bb = fr.bb
    try:
        return ctx_exit0(eng, st, fr, v)
    except Fork:
        # the return is executed again in each case
        fr.bb = bb
        raise


def ctx_exit0(eng, st, fr, v):
    ctx = fr.root
    eng.stat["ctxexits"] = eng.stat.get("ctxexits", 0) + 1
    fr.bb = -1
    st.mem[(fr.fid, 0)] = v
    eng.spec.at_exit(eng, st)
    for k in ctx.pins:
        if eng.spec.frozen(eng, eng.objty[k]):
            st.mem[k] = FROZEN
    w = Walk(eng, st)
    w.run()
    eng.gc_cells(st, w)
    groups = eng.spec.anchors(eng, st)
    if groups is not None:
        generalise(eng, st, groups, eng.spec.counters(eng, st))
        bound = eng.spec.vague(st)
        if bound is not None:
            safe = set()
            bounded(st, full(eng, st, st.mem[(fr.fid, 0)]), bound, safe)
            st.facts = ()
            for x in L.syms_of(st.texts[("in",)].fpos) | L.syms_of(st.texts[("in",)].len):
                if x in st.relaxed:
                    st.dom[x] = ((0, ISIZE_MAX),)
            st.mem[(fr.fid, 0)] = vague(eng, st, full(eng, st, st.mem[(fr.fid, 0)]), fr.inst.locals[0], bound, safe)
    w = Walk(eng, st)
    w.run()
    key = (w.exact_key(), st.lossy)
    if key in ctx.exitkeys:
        return False
    ctx.exitkeys.add(key)
    if len(ctx.exitkeys) > 4000:
        raise Unknown("too many exits of %s" % ctx.inst.name)
    ret = st.mem[(fr.fid, 0)]
    ids = set(w.idno)
    st.mem = {k: x for k, x in st.mem.items() if k in w.keyno}
    E = (st, fr.fid, tuple(sorted(w.symno, key=w.symno.get)))
    ctx.exits.append(E)
    for c in list(ctx.callers):
        apply(eng, ctx, c, E)
    return False


def bounded(st, v, bound, acc):
    if type(v) is Lin:
        if st.lower(add(bound, v, -1)) >= 0 and st.lower(v) >= 0:
            acc.add(v)
    elif type(v) is tuple and v[0] == "A":
        for x in v[2]:
            bounded(st, x, bound, acc)


def vague(eng, st, v, ty, bound, safe):
    """v with its numbers forgotten, but for being at most bound."""
    if type(v) is Lin:
        t = eng.tys[ty]
        if t.k not in ("uint", "char", "bool"):
            return v
        if t.k == "uint" and t.d["bits"] > 8:
            if v in safe:
                pass
            elif st.lower(add(bound, v, -1)) < 0 or st.lower(v) < 0:
                return v
            n = eng.newsym(st, ((0, ISIZE_MAX),), "d")
            st.free.update(L.syms_of(n))
            st.relaxed.update(L.syms_of(n))
            if not fact(st, add(bound, n, -1)):
                raise Stop()
            return n
        n = eng.newsym(st, (CHAR_DOM if t.k == "char" else ((0, 1 if t.k == "bool" else 255),)), "c")
        st.free.update(L.syms_of(n))
        st.relaxed.update(L.syms_of(n))
        return n
    if type(v) is tuple and v[0] == "A":
        return ("A", v[1], tuple(vague(eng, st, x, eng.field_ty(ty, v[1], i), bound, safe) for i, x in enumerate(v[2])))
    return v


def apply(eng, ctx, caller, exit_):
    S, saved, back, idents, syms, before, dest, target = caller
    E, fid, esyms = exit_
    R = S.clone()
    try:
        # ---- rename the exit
        ren = Ren(eng)
        free = E.free

        def newsym(s):
            d = E.dom[s]
            n = eng.newsym(R, d, eng.symkind[s])
            ns = n.t[0][0][0]
            if s in E.relaxed:
                E.relaxed.add(ns)
            if s in free:
                free.add(ns)
            return n
        ren.newsym = newsym
        # constants of the entry keep their meaning
        for a, b in zip(ctx.syms, syms):
            if a not in E.relaxed and b in R.dom:
                ren.symmap[a] = symlin(b)
                if a in E.dom:
                    if not R.restrict(b, E.dom[a]):
                        return
        for g in eng.spec.entry_anchors(E):
            v = E.norm(E.gh[g][1])
            bv = R.norm(before[g])
            if type(v) is int:
                if not R.add_eq(bv, v):
                    return
            elif len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0][1] == 0:
                s = v.t[0][0][0]
                val = add(bv, -v.c)
                if s in ren.symmap:
                    if not R.add_eq(val, ren.symmap[s]):
                        return
                else:
                    ren.symmap[s] = val
                    lo, hi = E.dom[s][0][0], E.dom[s][-1][1]
                    if not fact(R, add(val, -lo)):
                        return
                    if hi < (1 << 62) and not fact(R, add(hi, val, -1)):
                        return
            else:
                raise Unknown("entry anchor")
        bk = {nk: k for nk, k in back}
        for a, b in zip(ctx.idents, idents):
            ren.idmap[a] = b
        ren.newid = lambda i: ("n", eng.newid())
        for nk, k in back:
            ren.keymap[nk] = (k, ())

        def newkey(k):
            if k[0] == "o":
                n = ("o", ("n", eng.newid()))
                eng.objty[n] = eng.objty.get(k)
                return n
            raise Unknown("reference to a local of the callee")
        ren.newkey = newkey
        RK = ("o", ("ret", 0))
        R.mem[RK] = ren.val(full(eng, E, E.mem[(fid, 0)]))
        for k, v in E.mem.items():
            if k[0] == fid or k[0] == "g":
                continue
            nk = ren.key(k)[0]
            if v != FROZEN:
                R.mem[nk] = ren.val(full(eng, E, v))
        gh = {k: ren.val(v) for k, v in E.gh.items()}
        R.gh = gh
        eng.spec.leave(eng, saved, R)
        texts = dict(R.texts)
        for tid, t in E.texts.items():
            nt = ren.text(t)
            ntid = ren.tid(tid)
            o = texts.get(ntid)
            texts[ntid] = nt
            if o is not None and o.mon is not None or (o is not None and tid[0] == "in"):
                if not unify_len(eng, R, o.len, nt.len, texts, ren):
                    return
                nt = texts[ntid]
        R.texts = texts
        for f in E.facts:
            if not R.add_fact(ren.num(f)):
                return
        R.lossy = R.lossy or E.lossy
        if E.soft:
            R.soft = E.soft
        R.trace = E.trace
        R.hist = (("cell?", "(nested value)"), S.hist)
        R.steps = 0
        finish(eng, R, dest, target, R.mem.pop(RK))
    except Stop:
        return


def finish(eng, R, dest, target, v):
    Q = R.clone()
    try:
        eng.finish_call(Q, dest, target, v)
        # the return from a recursive call is a cut point as well
        w = Walk(eng, Q)
        w.run()
        eng.gc_cells(Q, w)
        groups = eng.spec.anchors(eng, Q)
        if groups is not None:
            generalise(eng, Q, groups, eng.spec.counters(eng, Q))
        w = Walk(eng, Q)
        w.run()
        key = (tuple((f.inst.id, f.bb) for f in Q.frames), Q.ctx.cid if Q.ctx else None, w.exact_key(), Q.lossy)
        if key in eng.retkeys:
            return
        eng.retkeys.add(key)
        eng.push(Q)
    except Fork as f:
        for alt in f.alts:
            Q = R.clone()
            try:
                if alt(Q) is not False:
                    finish(eng, Q, dest, target, v)
            except Stop:
                pass


def fact(R, v):
    v = R.norm(v)
    if type(v) is int:
        return v >= 0
    return R.add_fact(v)


def unify_len(eng, R, old, new, texts, ren):
    """The length of a text seen from both sides is one number."""
    old, new = R.norm(old), R.norm(new)
    d = R.norm(add(new, old, -1))
    if type(d) is int:
        return d == 0
    # solve for a symbol of the caller's length that the new length does not mention
    for src, sign in ((old, 1), (new, -1)):
        for (s, t), k in sorted(src.t if type(src) is Lin else (), key=lambda x: -x[0][0]):
            if t != 0 or k != 1:
                continue
            c = dict(d.t).get((s, 0), 0)
            if c not in (1, -1):
                continue
            # d == 0  =>  s = expression
            rest = add(d, symlin(s), -c)
            val = scale(rest, -c)
            dom = R.dom[s]
            sub = Ren(eng)
            sub.symmap[s] = val
            subst(R, sub)
            for tid in list(texts):
                texts[tid] = sub.text(texts[tid])
            for s2 in list(ren.symmap):
                ren.symmap[s2] = sub.num(ren.symmap[s2])
            ren.symmap.setdefault(s, val)
            if not fact(R, add(val, -dom[0][0])):
                return False
            if dom[-1][1] < (1 << 62) and not fact(R, add(dom[-1][1], val, -1)):
                return False
            return True
    return R.add_eq(old, new)


def subst(R, sub):
    R.mem = {k: sub.val(v) for k, v in R.mem.items()}
    R.gh = {k: sub.val(v) for k, v in R.gh.items()}
    R.exp = {k: sub.val(v) for k, v in R.exp.items()}
    fs = R.facts
    R.facts = ()
    for f in fs:
        if not R.add_fact(sub.num(f)):
            raise Stop()
