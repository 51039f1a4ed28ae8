"""The analyses.  Each job runs one (or a few) entry points in product with a
specification and reports obligations, violations and what stayed undecided."""
import time
from .prog import Program

JOBS = {}


def job(name):
    def reg(f):
        JOBS[name] = f
        return f
    return reg


class Result:
    def __init__(self, name):
        self.name = name
        self.violations = {}      # key -> dict
        self.candidates = {}
        self.undecided = {}
        self.obligations = {}
        self.stat = {}
        self.functions = {}       # repo function -> [blocks visited, blocks]
        self.notes = []
        self.wall = 0.0

    def merge(self, eng, prefix=""):
        for k, v in eng.violations.items():
            if v["lossy"]:
                self.candidates.setdefault(prefix + k, v["msg"])
            else:
                self.violations.setdefault(prefix + k, v)
        for k, v in eng.candidates.items():
            if prefix + k not in self.violations:
                self.candidates.setdefault(prefix + k, v)
        for k, v in eng.undecided.items():
            self.undecided.setdefault(prefix + k, v)
        for k, n in eng.obligations.items():
            self.obligations[prefix + k] = self.obligations.get(prefix + k, 0) + n
        for k, n in eng.stat.items():
            self.stat[k] = self.stat.get(k, 0) + n
        for i, bl in eng.covered.items():
            inst = eng.prog.insts[i]
            if eng.is_repo(inst):
                c = self.functions.setdefault(inst.name, [set(), len(inst.blocks)])
                c[0] |= bl


def run_job(name, dump, tier):
    t = time.time()
    prog = Program(dump)
    r = Result(name)
    JOBS[name](prog, r, tier)
    r.wall = time.time() - t
    for k, (s, n) in list(r.functions.items()):
        r.functions[k] = [len(s), n]
    return r


# ------------------------------------------------------------------ tokenizer
@job("tok.bytes")
def tok_bytes(prog, r, tier):
    from .specs import lexing
    r.merge(lexing.run_tok(prog, False))


@job("tok.str")
def tok_str(prog, r, tier):
    from .specs import lexing
    r.merge(lexing.run_tok(prog, True))


# ------------------------------------------------------------------ parser
def parse_job(name, root, strmode, cfg, delegate, limited=True, commas=None):
    def run(prog, r, tier):
        from .specs import parsing
        r.merge(parsing.run_parse(prog, root, strmode, cfg, delegate=delegate, limited=(limited,), commas=commas))
    JOBS[name] = run


PARSE, VALIDATE = [], []
for _kind, _del, _acc in (("parse", "del", PARSE), ("validate", "unit", VALIDATE)):
    for _src, _sm in (("bytes", False), ("str", True)):
        _n = "%s.%s" % (_kind, _src)
        parse_job(_n, "%s_%s" % (_kind, _src), _sm, False, _del)
        _acc.append(_n)
        for _l in (True, False):
            for _c in (1, 0):
                _m = "%s.cfg.%s.%s" % (_n, "limit" if _l else "nolimit", "commas" if _c else "nocommas")
                parse_job(_m, "%s_%s_cfg" % (_kind, _src), _sm, True, _del, _l, _c)
                _acc.append(_m)


# ------------------------------------------------------------------ strings
def _strings(what, roots):
    def run(prog, r, tier):
        from .specs import strings as S
        for root in roots:
            for k in S.KINDS:
                r.merge(S.run(prog, S.StrSpec(k, what), root, (False, True)))
    return run


JOBS["str.decode"] = _strings("decode", ["js_decode_all", "js_display", "js_decoded_display"])
JOBS["str.escape"] = _strings("escape", ["js_asjson_all", "js_asjson_display"])


def _table(prog):
    from .specs import strings as S
    sp = S.StrSpec("raw", "escape")
    S.run(prog, sp, "js_asjson_all")
    return S.escape_table(sp)


@job("str.hint")
def str_hint(prog, r, tier):
    from .specs import strings as S
    t = _table(prog)
    if t is None:
        r.undecided["table"] = "characters have no fixed escaped length (see C14)"
        return
    for k in S.KINDS:
        r.merge(S.run(prog, S.HintSpec(k, "decode", t), "js_decoded_hint"))
        r.merge(S.run(prog, S.HintSpec(k, "escape", t), "js_asjson_hint"))


@job("str.from")
def str_from(prog, r, tier):
    from .specs import strings as S
    t = _table(prog)
    if t is None:
        r.undecided["table"] = "characters have no fixed escaped length (see C14)"
        return
    for o in (False, True):
        r.merge(S.run_from(prog, t, o))


@job("str.acc")
def str_acc(prog, r, tier):
    from .specs import strings as S
    for k in S.KINDS:
        for root in ("js_len", "js_decoded_len", "js_is_empty", "js_as_str", "js_as_json_str"):
            r.merge(S.run(prog, S.AccSpec(k), root, (False, True)))


@job("str.need")
def str_need(prog, r, tier):
    from .specs import strings as S
    for what in ("decode", "escape"):
        for k in S.KINDS:
            r.merge(S.run(prog, S.IfNeededSpec(k, what), "js_%s_if_needed" % what, (False, True)))


def _pairs(roots):
    def run(prog, r, tier):
        from .specs import strings as S, strcmp as C
        for root, what in roots:
            for a in S.KINDS:
                for b in (("str",) if root.endswith("str") else S.KINDS):
                    r.merge(C.run_pair(prog, root, what, (a, b)))
    return run


JOBS["str.eq"] = _pairs([("js_eq", "eq"), ("js_ne", "ne"), ("js_eq_str", "eq"), ("js_eq_refstr", "eq")])
JOBS["str.cmp"] = _pairs([("js_cmp", "cmp"), ("js_pcmp", "pcmp"), ("js_pcmp_str", "pcmp"), ("js_pcmp_refstr", "pcmp")])


@job("str.hash")
def str_hash(prog, r, tier):
    from .specs import strings as S, strcmp as C
    for k in S.KINDS:
        r.merge(C.run_hash(prog, "js_hash", k))


# ------------------------------------------------------------------ values and documents
def _delegate(r, prog, root, pick, run, names=None):
    """The contract of every method of the delegate an entry point parses with."""
    from .specs import unit as U, values as V
    ds = {k: v for k, v in U.delegate(prog, root).items() if pick(k)}
    if len(ds) != 1:
        r.undecided["delegate:" + root] = "%d delegates are reachable from %s" % (len(ds), root)
        return
    methods = next(iter(ds.values()))
    for m in names or V.METHODS:
        if m not in methods:
            r.undecided["method:%s:%s" % (root, m)] = "no method %s" % m
            continue
        e = run(prog, methods[m], m, methods)
        if e is not None:
            r.merge(e)


@job("val.delegate")
def val_delegate(prog, r, tier):
    from .specs import values as V
    _delegate(r, prog, "value_from_json_cfg", lambda k: True, V.value_method)


@job("val.entry")
def val_entry(prog, r, tier):
    from .specs import values as V
    d = V.default_config(prog)
    for root in ("value_from_json", "value_from_json_cfg", "value_from_bytes", "value_from_bytes_cfg"):
        r.merge(V.entry(prog, root, d))


@job("doc.delegate")
def doc_delegate(prog, r, tier):
    from .specs import values as V
    _delegate(r, prog, "doc_from_json_cfg", lambda k: True, lambda p, i, m, ms: V.doc_method(p, i, m, ms, None))
    _delegate(r, prog, "hdoc_from_json_cfg", lambda k: True, lambda p, i, m, ms: V.doc_method(p, i, m, ms, 4))


@job("doc.entry")
def doc_entry(prog, r, tier):
    from .specs import values as V
    d = V.default_config(prog)
    for k in ("doc", "hdoc"):
        for root in ("from_json", "from_json_cfg", "from_bytes", "from_bytes_cfg"):
            r.merge(V.entry(prog, "%s_%s" % (k, root), d))


@job("obj.lookup")
def obj_lookup(prog, r, tier):
    from .specs import lookup as K
    for root, what in (("obj_get", "value"), ("obj_get_mut", "value"), ("obj_get_entry_mut", "entry"), ("val_get", "value"), ("val_get_mut", "value")):
        r.merge(K.lookup(prog, root, what, False))
    for root in ("val_index_str", "val_index_str_mut"):
        r.merge(K.lookup(prog, root, "value", True))


def _access(name):
    def run(prog, r, tier):
        from .specs import access as A
        A.table(prog, r, getattr(A, name))
    return run


JOBS["access.values"] = _access("VALUES")
JOBS["access.numbers"] = _access("NUMBERS")
JOBS["access.texts"] = _access("TEXTS")
JOBS["access.config"] = _access("CONFIGS")


@job("only.delegate")
def only_delegate(prog, r, tier):
    from .specs import values as V
    for root, own in (("jstr_from_json", "string"), ("jnum_from_json", "number")):
        _delegate(r, prog, root, lambda k: True, lambda p, i, m, ms: V.only_method(p, i, m, own),
                  ("null", "boolean", "number", "string", "begin_object", "begin_array"))


@job("only.entry")
def only_entry(prog, r, tier):
    from .specs import values as V
    d = V.default_config(prog)
    for root in ("jstr_from_json", "jnum_from_json"):
        r.merge(V.entry(prog, root, d))


@job("doc.read")
def doc_read(prog, r, tier):
    from .specs import docs as D
    for root in ("doc_iter", "doc_into_iter", "hdoc_iter"):
        r.merge(D.iterate(prog, root))
    for root, mode in (("diter_next", "node"), ("diter_next_value", "next"), ("diter_skip", "skip"), ("doc_into_value", "value"), ("hdoc_into_value", "value")):
        r.merge(D.hydrate(prog, root, mode))


@job("val.write")
def val_write(prog, r, tier):
    from .specs import writer as W
    for root, layout in (("val_write", False), ("val_to_json", False), ("val_write_pretty", True), ("val_to_json_pretty", True), ("val_display", "alternate"),
                         ("val_write_pretty_custom", "custom"), ("val_to_json_pretty_custom", "custom")):
        r.merge(W.write(prog, root, layout))


@job("obj.collect")
def obj_collect(prog, r, tier):
    from .specs import collect as K
    r.merge(K.collect(prog, "obj_from_pairs", True))
    r.merge(K.collect(prog, "obj_from_entries", False))


@job("val.equal")
def val_equal(prog, r, tier):
    from .specs import equal as Q
    for root in ("val_eq", "obj_eq"):
        r.merge(Q.equal(prog, root))
        r.merge(Q.small(prog, root))
