"""Base class of the specifications the interpreter runs in product with the code."""


class Spec:
    anchored = False
    max_visits = 24
    count_max = (1 << 63) - 1
    text_max = (1 << 63) - 1
    blur = frozenset()      # symbols of sums nothing depends on
    blur_max = 0
    tails = False           # lengths may be a text's length and an independent rest
    unroll = 6
    exact_visits = 3
    unroll_outer = 2
    max_steps = 3_000_000

    def leaf(self, eng, st, inst, args, retty):
        """A call to an instance without a body.  Return a value, raise Fork, or return None if not handled."""
        return None

    def intercept(self, eng, st, inst, args):
        """Called for every call; return a value to replace the call."""
        return None

    def expand(self, eng, st, oid, ty):
        return None

    def on_cell(self, eng, st, tid, pos, v, width):
        pass

    def anchors(self, eng, st):
        """Groups of anchors at a loop head, or None to keep the state as it is."""
        return None

    def marks(self, eng, st, tid):
        """Positions before the window whose automaton states are known: [(pos, (gst, mst))]."""
        return ()

    def on_return(self, eng, st, val):
        pass

    def on_panic(self, eng, st, what, where):
        eng.violation(st, "panic:%s" % where[0], "panic reachable: %s at %s" % (what, where[1]))

    def on_unchecked(self, eng, st, what, val):
        """An operation that skips a check: `char` and `index` are only reported when they are wrong."""
        w = eng.where(st)
        if what in ("char", "index"):
            eng.violation(st, "unchecked-%s" % what, "unchecked %s operation on an invalid value in %s (%s)" % ((what,) + w))
        elif what == "str" and eng.B.boundary(eng, st, val, val[2]) and eng.B.boundary(eng, st, val, val[3]):
            pass
        elif val[1][0] != "k":
            eng.undecide("unchecked %s conversion in %s (%s)" % ((what,) + w))

    def keep(self, eng, st, tid):
        """Cells of a text from this position on are still of use."""
        return None

    def counters(self, eng, st):
        """Ghost counters the code may keep as well."""
        return ()

    def enter(self, eng, st):
        """A recursive call: st.gh becomes the callee's ghost state; returns what the caller keeps."""
        return None

    def leave(self, eng, saved, st):
        """Back in the caller: st.gh is the callee's, and becomes the caller's again."""

    def at_exit(self, eng, st):
        """The callee is about to return."""

    def frozen(self, eng, ty):
        """Memory of this type does not change during a call, and what the callee learned about it is of no use."""
        return False

    def entry_anchors(self, st):
        """[(ghost name)] of numbers whose entry value is remembered (a symbol of its own)."""
        return ()

    def vague(self, st):
        """In a state where returned numbers need not be told apart: a bound that is kept."""
        return None
