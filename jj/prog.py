"""The resolved program: loads the JSON dump written by the driver."""
import json


class Inst:
    __slots__ = ("id", "name", "dfn", "kind", "args", "intrinsic", "ret", "params", "span", "vidx", "model",
                 "leaf", "nobody", "locals", "argc", "spread", "vars", "blocks", "loops", "_heads", "key")

    def __init__(self, i, d):
        self.id = i
        self.name = d["name"]
        self.dfn = d["def"]
        self.kind = d["kind"]
        self.args = d.get("args", [])
        self.intrinsic = d.get("intrinsic")
        self.ret = d.get("ret")
        self.params = d.get("params", [])
        self.span = d.get("span")
        self.vidx = d.get("vidx")
        self.model = d.get("model")
        self.leaf = bool(d.get("leaf"))
        self.nobody = bool(d.get("nobody"))
        self.locals = d.get("locals")
        self.argc = d.get("argc", 0)
        self.spread = d.get("spread")
        self.vars = {int(k): v for k, v in d.get("vars", {}).items()}
        self.blocks = d.get("blocks")
        self._heads = None

    def has_body(self):
        return self.blocks is not None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[5]] if t[5] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def heads(self):
        """Loop heads: targets of back edges of a DFS from the entry block."""
        if self._heads is None:
            color = {}
            heads = set()
            stack = [(0, iter(self.succs(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                nxt = next(it, None)
                if nxt is None:
                    color[b] = 2
                    stack.pop()
                    continue
                c = color.get(nxt)
                if c == 1:
                    heads.add(nxt)
                elif c is None:
                    color[nxt] = 1
                    stack.append((nxt, iter(self.succs(nxt))))
            self._heads = heads
        return self._heads


class Ty:
    __slots__ = ("id", "name", "k", "d")

    def __init__(self, i, d):
        self.id = i
        self.name = d["name"]
        self.k = d.get("k", "other")
        self.d = d

    def __repr__(self):
        return "Ty<%s>" % self.name


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.tys = [Ty(i, t) for i, t in enumerate(d["types"])]
        self.insts = [Inst(i, x) for i, x in enumerate(d["insts"])]
        self.roots = {k.split("::")[-1]: self.insts[v] for k, v in d["roots"].items()}
        self.allocs = d["allocs"]
        for x in self.insts:
            # signatures may mention associated types; the body's locals have the types themselves
            if x.locals and x.argc == len(x.params):
                x.params = [x.locals[i + 1] if self.projected(t) else t for i, t in enumerate(x.params)]
                if x.ret is not None and self.projected(x.ret):
                    x.ret = x.locals[0]
        self.by_name = {}
        for x in self.insts:
            self.by_name.setdefault(x.dfn, []).append(x)

    def projected(self, t):
        return " as " in self.tys[t].name

    def span(self, sp):
        if not sp:
            return "?"
        return "%s:%d" % (self.files[sp[0]], sp[1])

    # ------------------------------------------------------------------ print
    def p_place(self, p):
        if isinstance(p, int):
            return "_%d" % p
        s = "_%d" % p[0]
        for e in p[1:]:
            if e == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s += ".%d" % e[1]
            elif e[0] == "i":
                s += "[_%d]" % e[1]
            elif e[0] == "d":
                s = "(%s as v%d)" % (s, e[1])
            else:
                s += str(e)
        return s

    def p_op(self, o):
        if "cp" in o:
            return self.p_place(o["cp"])
        if "mv" in o:
            return "move " + self.p_place(o["mv"])
        if "rt" in o:
            return "rt:" + o["rt"]
        t = self.tys[o["c"]]
        if "a" in o:
            return "const %s:%s" % (o["a"]["bytes"] + ("@%s" % o["a"]["prov"] if o["a"]["prov"] else ""), t.name)
        return "const<%s>" % t.name

    def p_rv(self, r):
        k = r[0]
        if k == "use":
            return self.p_op(r[1])
        if k in ("bin", "cbin"):
            return "%s%s(%s, %s)" % (r[1], "?" if k == "cbin" else "", self.p_op(r[2]), self.p_op(r[3]))
        if k == "un":
            return "%s(%s)" % (r[1], self.p_op(r[2]))
        if k == "cast":
            return "%s as %s [%s]" % (self.p_op(r[2]), self.tys[r[3]].name, r[1])
        if k == "agg":
            nm = r[1][0]
            if nm in ("adt", "closure", "array", "rawptr"):
                nm = self.tys[r[1][1]].name + ("#%d" % r[1][2] if nm == "adt" else "")
            return "%s{%s}" % (nm, ", ".join(self.p_op(x) for x in r[2]))
        if k == "ref":
            return "&%s%s" % ("mut " if r[1] else "", self.p_place(r[2]))
        if k in ("disc", "len"):
            return "%s(%s)" % (k, self.p_place(r[1]))
        if k == "addr":
            return "&raw %s" % self.p_place(r[2])
        return str(r)

    def dump_inst(self, x):
        out = ["fn #%d %s -> %s  @%s" % (x.id, x.name, self.tys[x.ret].name if x.ret is not None else "?", self.span(x.span))]
        if x.blocks is None:
            out.append("  (no body) leaf=%s model=%s intrinsic=%s kind=%s" % (x.leaf, x.model, x.intrinsic, x.kind))
            return "\n".join(out)
        for i, t in enumerate(x.locals):
            out.append("  let _%d: %s%s" % (i, self.tys[t].name, "  // " + x.vars[i] if i in x.vars else ""))
        for bi, b in enumerate(x.blocks):
            out.append(" bb%d:%s" % (bi, " (head)" if bi in x.heads() else ""))
            for s in b["s"]:
                if s[0] == "=":
                    out.append("    %s = %s" % (self.p_place(s[1]), self.p_rv(s[2])))
                else:
                    out.append("    %s" % (s[:-1],))
            t = b["t"]
            if t[0] == "call":
                f = self.insts[t[1]].name if isinstance(t[1], int) else (t[1] or self.p_op(t[2]))
                out.append("    %s = call %s(%s) -> %s" % (self.p_place(t[4]), f, ", ".join(self.p_op(o) for o in t[3]), t[5]))
            elif t[0] == "sw":
                out.append("    switch %s %s else %s" % (self.p_op(t[1]), t[2], t[3]))
            elif t[0] == "assert":
                out.append("    assert(%s == %s, %s) -> %s" % (self.p_op(t[1]), t[2], t[3], t[5]))
            elif t[0] == "drop":
                out.append("    drop %s -> %s" % (self.p_place(t[1]), t[2]))
            else:
                out.append("    %s" % (t[:-1],))
        return "\n".join(out)


if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1])
    for x in p.insts:
        if any(a in x.name for a in sys.argv[2:]):
            print(p.dump_inst(x))
            print()
