"""The lexical grammar of JSON (RFC 8259) and of UTF-8 as automata."""
from . import lin as L


def dset(*items):
    vals = []
    for x in items:
        if type(x) is str:
            vals += [ord(c) for c in x]
        elif type(x) is tuple:
            vals += list(range(x[0], x[1] + 1))
        else:
            vals.append(x)
    return L.d_from(set(vals))


WS = dset(" \t\r\n")
DIG = dset("0123456789")
DIG19 = dset("123456789")
HEX = dset("0123456789abcdefABCDEF")
ALL = ((0, 255),)
CONT = ((0x80, 0xBF),)


# ---------------------------------------------------------------- UTF-8
def utf8_classes(u):
    """[(bytes, next)] of the UTF-8 well-formedness automaton; 0 is a boundary."""
    if u == 0:
        return [(((0, 0x7F),), 0), (((0xC2, 0xDF),), 1), (((0xE0, 0xE0),), 2), (((0xE1, 0xEC), (0xEE, 0xEF)), 3),
                (((0xED, 0xED),), 4), (((0xF0, 0xF0),), 5), (((0xF1, 0xF3),), 6), (((0xF4, 0xF4),), 7)]
    return {1: [(CONT, 0)], 2: [(((0xA0, 0xBF),), 1)], 3: [(CONT, 1)], 4: [(((0x80, 0x9F),), 1)],
            5: [(((0x90, 0xBF),), 3)], 6: [(CONT, 3)], 7: [(((0x80, 0x8F),), 3)]}[u]


class Utf8Gen:
    """Possible contents of a &str."""
    start = 0
    dead = None

    def classes(self, g):
        return [(d, n, ()) for d, n in utf8_classes(g)]

    def boundary(self, g):
        return g == 0

    def ghosts(self):
        return ()


class Utf8Mon:
    """Tracks where a byte text stops being UTF-8."""
    start = 0
    dead = "X"

    def classes(self, m):
        if m == "X":
            return [(ALL, "X", ())]
        out = []
        rest = ALL
        for d, n in utf8_classes(m):
            out.append((d, n, ()))
            rest = L.d_sub(rest, d)
        if rest:
            out.append((rest, "X", ()))
        return out

    def boundary(self, m):
        return None if m == "X" else m == 0

    def ghosts(self):
        return ()


# ---------------------------------------------------------------- tokens
# states: ("ws",) ("bad",) ("s",E,u) ("e",E) ("h",E,name) ("n",name) ("l",word,i)
PUNCT = {"{": "Obj", "}": "ObjEnd", "[": "Arr", "]": "ArrEnd", ":": "Colon", ",": "Comma"}
LITS = {"t": "true", "f": "false", "n": "null"}
BAD = ("bad", "")
WSS = ("ws",)

NUM = {
    "-": [(dset("0"), "0"), (DIG19, "i")],
    "0": [(dset("."), "."), (dset("eE"), "e")],
    "i": [(DIG, "i"), (dset("."), "."), (dset("eE"), "e")],
    ".": [(DIG, "f")],
    "f": [(DIG, "f"), (dset("eE"), "e")],
    "e": [(dset("+-"), "E"), (DIG, "x")],
    "E": [(DIG, "x")],
    "x": [(DIG, "x")],
}
NUM_ACC = ("0", "i", "f", "x")

# the states after n hex digits keep the value of the digits in one interval each,
# also for rejected values: ("bad", tag) remembers on which side the value lies
LOW = ("bad", "lone low")
LT = ("bad", "low<")
GT = ("bad", "low>")
HX = {
    "0": [(dset("0"), "1z"), (dset("123456789abcABC"), "1x"), (dset("efEF"), "1y"), (dset("dD"), "1d")],
    "1z": [(dset("0"), "2z"), (dset("1234567"), "2b"), (dset("89abcdefABCDEF"), "2c")],
    "1x": [(HEX, "2c")],
    "1y": [(HEX, "2e")],
    "1d": [(dset("01234567"), "2c"), (dset("89abAB"), "2hi"), (dset("cdefCDEF"), LOW)],
    "2z": [(dset("01234567"), "3a"), (dset("89abcdefABCDEF"), "3b")],
    "2b": [(HEX, "3b")],
    "2c": [(HEX, "3c")],
    "2e": [(HEX, "3e")],
    "2hi": [(HEX, "3hi")],
    "3a": [(HEX, ("done", 1))],
    "3b": [(HEX, ("done", 2))],
    "3c": [(HEX, ("done", 3))],
    "3e": [(HEX, ("done", 3))],
    "3hi": [(HEX, "hi\\")],
    "hi\\": [(dset("\\"), "hiu")],
    "hiu": [(dset("u"), "l0")],
    "l0": [(dset("dD"), "l1"), (dset("0123456789abcABC"), LT), (dset("efEF"), GT)],
    "l1": [(dset("cdefCDEF"), "l2"), (dset("0123456789abAB"), LT)],
    "l2": [(HEX, "l3")],
    "l3": [(HEX, ("done", 4))],
}


def lex_classes(state, strmode):
    """[(bytes, next state, action)]: what each byte does in a lexical state.

    action: None | ("tok", kind) token complete with this byte | ("start",) first byte of a
    longer token | ("count", k) | ("over",) the byte is not part of the (complete) number."""
    k = state[0]
    out = []
    if k == "bad":
        return [(ALL, state, None)]
    if k == "ws":
        out.append((WS, WSS, None))
        for ch, kind in PUNCT.items():
            out.append((dset(ch), WSS, ("tok", kind)))
        out.append((dset('"'), ("s", 0, 0), ("start", "Str")))
        out.append((dset("-"), ("n", "-"), ("start", "Num")))
        out.append((dset("0"), ("n", "0"), ("start", "Num")))
        out.append((DIG19, ("n", "i"), ("start", "Num")))
        for ch, w in LITS.items():
            out.append((dset(ch), ("l", w, 1), ("start", "Lit" + w)))
    elif k == "s":
        E, u = state[1], state[2]
        if u == 0:
            out.append((dset('"'), WSS, ("tok", "Str")))
            out.append((dset("\\"), ("e", E), None))
            if strmode:
                # the input is a str: its bytes are known to be UTF-8
                plain = L.d_sub(((0x20, 0xFF),), dset('"\\'))
                out.append((plain, state, ("count", 1)))
            else:
                out.append((L.d_sub(((0x20, 0x7F),), dset('"\\')), state, ("count", 1)))
                for d, n in utf8_classes(0)[1:]:
                    out.append((d, ("s", E, n), ("count", 1)))
        else:
            for d, n in utf8_classes(u):
                out.append((d, ("s", E, n), ("count", 1)))
    elif k == "e":
        out.append((dset('"\\/bfnrt'), ("s", 1, 0), ("count", 1)))
        out.append((dset("u"), ("h", "0"), None))
    elif k == "h":
        for d, n in HX[state[1]]:
            if type(n) is tuple and n[0] == "bad":
                out.append((d, n, None))
            elif type(n) is tuple:
                out.append((d, ("s", 1, 0), ("count", n[1])))
            else:
                out.append((d, ("h", n), None))
    elif k == "n":
        for d, n in NUM[state[1]]:
            out.append((d, ("n", n), None))
        if state[1] in NUM_ACC:
            rest = ALL
            for d, _, _ in out:
                rest = L.d_sub(rest, d)
            out.append((rest, WSS, ("over",)))
    elif k == "l":
        w, i = state[1], state[2]
        if i + 1 == len(w):
            out.append((dset(w[i]), WSS, ("tok", w)))
        else:
            out.append((dset(w[i]), ("l", w, i + 1), None))
    rest = ALL
    for d, _, _ in out:
        rest = L.d_sub(rest, d)
    if rest:
        out.append((rest, BAD, None))
    return out


_CACHE = {}
# representative bytes: within strings, numbers and literals only these are considered
LITE = {"s": dset('"z', 0x01), "n": dset(" ,]}0123456789-"), "l": dset("truefalsn", "!")}


def lex_cached(state, strmode, lite=False):
    r = _CACHE.get((state, strmode, lite))
    if r is None:
        r = lex_classes(state, strmode)
        if lite and state[0] in LITE:
            keep = LITE[state[0]]
            r = [(L.d_and(d, keep), n, a) for d, n, a in r]
            r = [x for x in r if x[0]]
        _CACHE[(state, strmode, lite)] = r
    return r


def choose(eng, st, v, classes):
    """Index of the class v belongs to, forking (value sets) until it is unique."""
    from .engine import Fork, Stop, Unknown
    v = st.norm(v)
    if type(v) is int:
        for i, c in enumerate(classes):
            if L.d_has(c[0], v):
                return i
        raise Unknown("value outside every class")
    if len(v.t) != 1 or v.t[0][0][1] != 0 or v.t[0][1] != 1 or v.c != 0:
        raise Unknown("cell value")
    s = v.t[0][0][0]
    hits = []
    for i, c in enumerate(classes):
        x = L.d_and(st.dom[s], c[0])
        if x:
            hits.append((i, x))
    if not hits:
        raise Stop()
    if len(hits) == 1 and hits[0][1] == st.dom[s]:
        return hits[0][0]
    raise Fork([(lambda x, d=d: x.restrict(s, d)) for _, d in hits])
