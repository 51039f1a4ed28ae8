"""Values of the numeric domain.

A numeric value is a Python int or a Lin: c + sum(coef * f(sym)) where f is the
identity (table 0) or a 256-entry table applied to a symbol whose domain lies in
0..255.  The domain of a symbol is a sorted tuple of disjoint closed intervals.
"""

TABS = [None]
_TABIX = {}


def intern_tab(t):
    t = tuple(t)
    i = _TABIX.get(t)
    if i is None:
        i = len(TABS)
        TABS.append(t)
        _TABIX[t] = i
    return i


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        s = []
        for (sym, tab), k in self.t:
            n = "s%d" % sym if tab == 0 else "T%d(s%d)" % (tab, sym)
            s.append(n if k == 1 else "%d*%s" % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return "{" + "+".join(s) + "}"


def mk(c, d):
    t = tuple(sorted((a, k) for a, k in d.items() if k))
    if not t:
        return c
    return Lin(c, t)


def sym(s):
    return Lin(0, (((s, 0), 1),))


def add(a, b, kb=1):
    """a + kb*b"""
    if type(a) is int:
        if type(b) is int:
            return a + kb * b
        if kb == 1:
            return Lin(a + b.c, b.t)
        return mk(a + kb * b.c, {x: kb * k for x, k in b.t})
    if type(b) is int:
        return Lin(a.c + kb * b, a.t)
    s, t = a.t, b.t
    if s == t:
        if kb == -1:
            return a.c - b.c
        if kb == 1:
            return Lin(a.c + b.c, tuple([(x, k + k) for x, k in s]))
    out = []
    i = j = 0
    n, m = len(s), len(t)
    while i < n and j < m:
        x, k = s[i]
        y, l = t[j]
        if x == y:
            k += kb * l
            if k:
                out.append((x, k))
            i += 1
            j += 1
        elif x < y:
            out.append(s[i])
            i += 1
        else:
            out.append((y, kb * l))
            j += 1
    if i < n:
        out.extend(s[i:])
    while j < m:
        y, l = t[j]
        out.append((y, kb * l))
        j += 1
    if not out:
        return a.c + kb * b.c
    return Lin(a.c + kb * b.c, tuple(out))


def scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((x, k * v) for x, v in a.t))


def syms_of(a):
    if type(a) is int:
        return ()
    return {x[0] for x, _ in a.t}


# ------------------------------------------------------------------- domains
def d_size(d):
    return sum(h - l + 1 for l, h in d)


def d_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        l = max(a[i][0], b[j][0])
        h = min(a[i][1], b[j][1])
        if l <= h:
            out.append((l, h))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def d_sub(a, b):
    out = []
    for l, h in a:
        cur = l
        for bl, bh in b:
            if bh < cur:
                continue
            if bl > h:
                break
            if bl > cur:
                out.append((cur, bl - 1))
            cur = max(cur, bh + 1)
            if cur > h:
                break
        if cur <= h:
            out.append((cur, h))
    return tuple(out)


def d_or(a, b):
    xs = sorted(list(a) + list(b))
    out = []
    for l, h in xs:
        if out and l <= out[-1][1] + 1:
            if h > out[-1][1]:
                out[-1] = (out[-1][0], h)
        else:
            out.append((l, h))
    return tuple(out)


def d_vals(d):
    for l, h in d:
        for v in range(l, h + 1):
            yield v


def d_from(vals):
    out = []
    for v in sorted(vals):
        if out and v == out[-1][1] + 1:
            out[-1] = (out[-1][0], v)
        else:
            out.append((v, v))
    return tuple(out)


def d_has(d, v):
    for l, h in d:
        if l <= v <= h:
            return True
    return False
