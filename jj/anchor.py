"""Anchor abstraction of loop-head states.

At a loop head every unbounded number is re-expressed relative to a small set of
anchors named by the specification: positions in a text (ordered), its end, and
counters.  The distances between anchors become fresh non-negative symbols, so
the states at a loop head form a finite set and the exploration is a fixpoint.
The original state is always contained in the abstract one; distances are free
because every longer input reaches the same head.  Decisions that relate several
of those distances to each other mark the state as lossy (no alarm from there).
"""
from . import lin as L
from .lin import add, scale
from .engine import Stop, ISIZE_MAX
from .walk import Walk

NEAR = 9


class Group:
    """Anchors of one text, farthest first: (position, counter or None); the window start is the last anchor.

    A counter (value, k) counts part of what lies between its position and the next
    anchor (or the last byte looked at): next - position - k = value + slack."""

    coarse = False      # distances only matter as zero or not
    apart = False       # constant integers of the program are counts, not positions
    follow = False      # the program's constants may be one further than an anchor
    tie = None          # another text that goes along with this one: same positions, and a length that depends on this text's in no other way than its own
    origin = False      # a first anchor at position 0 stays there

    def __init__(self, tid, segs, derived=(), near=1):
        self.near = near
        self.tid = tid
        self.segs = segs
        self.derived = derived        # [(value, counter index, position index)]: value = counter + seen end - position


def generalise(eng, st, groups, counters=(), at=None):
    """Rewrite st in terms of the anchors of `groups`."""
    norm = st.norm
    ints = None
    for g in groups:
        for p, cnt in g.segs:
            v = norm(cnt[0]) if cnt else 0
            if type(v) is int and v > 0:
                # a constant counter the code does not (yet) agree with: keep the state as it is
                if ints is None:
                    w = Walk(eng, st)
                    w.run()
                    ints = [norm(x) for x, ty in w.slots[w.nghost:w.ntext]]
                if v not in ints:
                    return
    pairs = []            # (old value, new value, kind)
    elim = set()

    def fresh(lo, hi=eng.spec.text_max):
        s = eng.newsym(st, ((lo, hi),), "d")
        st.relaxed.update(L.syms_of(s))
        return s

    def unrelated(v):
        st.free.update(L.syms_of(v))
        return v

    def kill(v):
        if type(v) is not int:
            elim.update(s for s in L.syms_of(v) if eng.symkind[s] != "c")

    apart = any(g.apart for g in groups)
    coarse = any(g.coarse for g in groups)
    follow = any(g.follow for g in groups)
    moved = {}
    ends = {}
    first = {}
    done = set()
    taken = {norm(p) for g in groups for p in [x for x, _ in g.segs] + [st.texts[g.tid].fpos] if type(norm(p)) is int} if coarse else ()
    sums = [v for v in counters if type(v) is tuple]
    counters = [v for v in counters if type(v) is not tuple]
    if coarse and ints is None and any(type(norm(v)) is int and norm(v) > 0 for v in counters):
        w = Walk(eng, st)
        w.run()
        ints = {norm(x) for x, ty in w.slots[w.nghost:w.ntext]}
    for v in counters:
        v = norm(v)
        if coarse and type(v) is int and v > 0 and v not in ints and (v == 1 or v - 1 in ints):
            continue                # the code's own count is about to follow
        if v in done or (type(v) is int and (v < (1 if coarse else 2) or coarse and v in taken)):
            continue
        done.add(v)
        lv = st.lower(v)
        kill(v)
        pairs.append((v, fresh(min(max(lv, 0), 1 if coarse else 2), eng.spec.count_max), "cnt"))
    for a, b, k in sums:
        # what the two counters make together (or k more)
        to = {o: n for o, n, k in pairs}
        a, b = norm(a), norm(b)
        x, y = (v if type(v) is int and v not in to else to[v] for v in (a, b))
        pairs.append((norm(add(add(a, b), k)), add(add(x, y), k), "cnt"))
    for g in groups:
        t = st.texts[g.tid]
        end = norm(t.fpos)
        seen = sum(c[0] for c in t.cells[:t.nmon])
        width = sum(c[0] for c in t.cells)
        rest = norm(add(add(t.len, end, -1), -width))
        chain = [norm(p) for p, _ in g.segs] + [end]
        tied = None
        if g.tie in moved and st.const_diff(chain[0], first[g.tie][0]) == 0:
            more = norm(add(t.len, first[g.tie][1], -1))
            if type(more) is int or not (set(L.syms_of(more)) & elim):
                tied = more
        for v in chain + ([norm(t.len)] if tied is None else []):
            kill(v)
        cur = first[g.tie][2] if tied is not None else 0 if g.origin and chain[0] == 0 else fresh(0)
        new = [cur]
        for i, (p, cnt) in enumerate(g.segs):
            d = norm(add(chain[i + 1], chain[i], -1))
            m = seen if i + 1 == len(g.segs) else 0
            if cnt is not None:
                val, k = norm(cnt[0]), cnt[1]
                kill(val)
            if type(d) is int and d <= (0 if coarse and i == 0 else 1 if cnt is not None else g.near):
                nd = d
                if cnt is not None:
                    pairs.append((val, val if type(val) is int else fresh(0), "cnt"))
            elif cnt is None:
                lo = st.lower(d)
                nd = fresh(0 if coarse else min(max(lo, 0), 2))
            else:
                x = norm(add(add(d, val, -1), m - k))
                lv = st.lower(val)
                nv = val if type(val) is int and val <= 0 else fresh(1 if lv >= 1 else 0)
                nd = add(nv, k - m)
                if x != 0:
                    lx = st.lower(x)
                    if lx < 0:
                        st.lossy = True
                    nd = add(nd, fresh(1 if lx >= 1 else 0))
                pairs.append((val, nv, "cnt"))
            cur = add(cur, nd)
            new.append(cur)
        nend = new[-1]
        if tied is not None:
            nrest = norm(add(add(first[g.tie][3], tied), add(nend, width), -1))
        elif coarse and rest != 0:
            nrest = fresh(0)
        elif type(rest) is int:
            nrest = rest
        else:
            lo = st.lower(rest)
            nrest = eng.newsym(st, ((min(max(lo, 0), 4), ISIZE_MAX),), "p")
        nlen = add(add(nend, width), nrest)
        first[g.tid] = (chain[0], norm(t.len), new[0], nlen)
        for o, n in zip(chain, new):
            pairs.append((o, n, "pos"))
        pairs.append((norm(t.len), nlen, "len"))
        for val, ci, pi in g.derived:
            val = norm(val)
            kill(val)
            o, n = [(x, y) for x, y, k in pairs if k == "cnt"][ci]
            d = norm(add(val, add(o, add(end, chain[pi], -1)), -1))
            if type(d) is int:
                pairs.append((val, add(add(n, add(nend, new[pi], -1)), d), "cnt"))
        moved[g.tid] = (nend, nlen)
        ends[g.tid] = end

    w = Walk(eng, st)
    w.run()
    # the same slots the last time around this loop
    past = st.past.get(at) if at is not None else None
    if past is not None and (past[0] != hash(tuple(w.tok)) or len(past[1]) != len(w.slots)):
        past = None
    before = [n for n in past[2]] if past is not None and len(past[2]) == len(pairs) else None
    constpos = all(type(o) is int for o, n, k in pairs if k == "pos")
    out = []
    bounds = []
    factsyms = set()
    for f in st.facts:
        x = L.syms_of(f)
        if x & elim:
            factsyms |= x - elim

    kept = []

    def bound(v, r):
        for tid, e in ends.items():
            ln = st.texts[tid].len
            if st.lower(add(e, v, -1)) >= 0:
                bounds.append((moved[tid][0], r))
                kept.append(add(e, v, -1))
            elif st.lower(add(ln, v, -1)) >= 0:
                bounds.append((moved[tid][1], r))
                kept.append(add(ln, v, -1))
    # the slots of the texts themselves come last, in dotext order: handle by value as well
    for i, (v, ty) in enumerate(w.slots):
        v = norm(v)
        if v == 0 and i in w.los:
            out.append(0)
            continue
        if type(v) is not int and eng.spec.blur and L.syms_of(v) & eng.spec.blur:
            r = unrelated(eng.newsym(st, ((0, eng.spec.blur_max),), "p"))
            eng.spec.blur.update(L.syms_of(r))
            out.append(r)
            continue
        fixed = False
        if past is not None and type(v) is int and v > 2 and ty is not None and constpos:
            d = st.const_diff(v, past[1][i])
            fixed = d == 0 and (before is None or any(o != b for (o, n, k), b in zip(pairs, before) if k == "pos"))
            if d is not None and d < 0:
                # counts down as a position goes up
                for j, (o, n, k) in enumerate(pairs):
                    if k == "pos" and (d == -1 if before is None else st.const_diff(o, before[j]) == -d):
                        out.append(add(v + o, n, -1))
                        bounds.append((v + o, n))
                        fixed = None
                        break
        if fixed is None:
            continue
        r = match(st, v, pairs, constpos and not fixed and i not in w.counts and not (apart and ty is not None), coarse, follow)
        if r is None and type(v) is not int and eng.spec.tails:
            r = beyond(v, pairs, elim)
        if r is None:
            if type(v) is int or not (L.syms_of(v) & elim):
                r = v
                if type(v) is not int and L.syms_of(v) & factsyms:
                    bound(v, r)
            elif (b := behind(st, v, moved, ends)) is not None:
                r = add(b, unrelated(fresh(0)), -1)
            else:
                lo, hi = st.rng(v)
                lo = max(lo, min(st.lower(v), 1 << 62))
                r = unrelated(eng.newsym(st, ((lo if lo >= 0 else -(1 << 130), hi),), "d"))
                bound(v, r)
        out.append(r)
    if at is not None:
        st.past = {**st.past, at: (hash(tuple(w.tok)), out, [n for o, n, k in pairs])}
    facts = []
    for f in st.facts:
        x = L.syms_of(f)
        if not (x & elim):
            facts.append(f)
        elif x - elim and not any(type(norm(add(f, k, -1))) is int for k in kept):
            st.free.update(x - elim)        # how these relate to the text is forgotten
    signs = [r for r, (v, ty) in zip(out, w.slots) if type(r) is not int]
    w.rewrite(out)
    for tid, (e, ln) in moved.items():
        if tid in st.texts:
            t = st.texts[tid].clone()
            if t.last is not None:
                d = st.const_diff(t.last, t.fpos)
                t.last = add(e, d) if d is not None else None
            t.fpos = e
            t.len = ln
            st.texts[tid] = t
    st.facts = tuple(facts)
    for b, r in bounds:
        v = norm(add(b, r, -1))
        if type(v) is int:
            if v < 0:
                raise Stop()
        elif not st.add_fact(v):
            raise Stop()
    for r in signs:
        # slots are non-negative (sizes and positions; signed types keep their own range)
        r = norm(r)
        if type(r) is not int and st.rng(r)[0] < 0 and all(s in st.relaxed for s in L.syms_of(r)):
            if not st.add_fact(r):
                raise Stop()


def beyond(v, pairs, elim):
    """v is the length of a text and a rest that has nothing to do with the anchors."""
    for o, n, k in pairs:
        if k == "len" and type(o) is not int:
            d = add(v, o, -1)
            if type(d) is int or not (L.syms_of(d) & elim):
                return add(n, d)
    return None


def behind(st, v, moved, ends):
    """The window start of a text that v cannot exceed."""
    for tid, e in ends.items():
        if (set(L.syms_of(v)) & set(L.syms_of(e))) and st.lower(add(e, v, -1)) >= 0:
            return moved[tid][0]
    return None


def match(st, v, pairs, constpos, coarse, follow):
    best = None
    if type(v) is int:
        for o, n, k in pairs:
            if type(o) is int and o == v and (k == "cnt" or (k == "pos" and constpos)):
                if k == "cnt" and n == 0:
                    return v
                return n
        if follow and constpos:
            for o, n, k in pairs:
                if k == "pos" and o == v - 1:
                    return add(n, 1)
        return None
    cand = []
    for i, (o, n, k) in enumerate(pairs):
        d = st.const_diff(v, o)
        if d == 0:
            return n
        if k == "len" and d is not None and d < -2 and constpos:
            # what is left after a position
            for o2, n2, k2 in pairs:
                if k2 == "pos" and type(o2) is int and o2 == -d:
                    return add(n, n2, -1)
        if d is not None and (0 < d <= 1 if coarse and k != "cnt" else abs(d) <= NEAR):
            cand.append((abs(d), i, add(n, d)))
    if cand:
        return min(cand)[2]
    for i, (o1, n1, k1) in enumerate(pairs):
        for j, (o2, n2, k2) in enumerate(pairs):
            if i == j:
                continue
            d = st.const_diff(v, add(o1, o2, -1))
            if d is not None and abs(d) <= NEAR:
                cand.append((abs(d), i, j, add(add(n1, n2, -1), d)))
    if cand:
        return min(cand)[3]
    for i, (o1, n1, k1) in enumerate(pairs):
        if k1 != "cnt":
            continue
        for j, (o2, n2, k2) in enumerate(pairs):
            for l, (o3, n3, k3) in enumerate(pairs):
                if len({i, j, l}) < 3:
                    continue
                d = st.const_diff(v, add(add(o1, o2), o3, -1))
                if d is not None and abs(d) <= NEAR:
                    cand.append((abs(d), i, j, l, add(add(add(n1, n2), n3, -1), d)))
    if cand:
        return min(cand)[4]
    return None
