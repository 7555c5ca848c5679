"""C01: fault points of every injectable operation."""
from ..run import Prop, Job
from ..flow import Rule
from ..model import *

PURE = {"getpid", "strcmp", "strlen", "memcpy", "memset", "malloc", "calloc", "free", "clock_gettime", "fuse_get_context", "strdup",
        "strerror", "__errno_location", "printf", "strcasestr", "memmove"}


def is_effect(m, ev):
    """an effect of the operation itself: a call to the backing file system or a change of shared state"""
    if ev[0] == "ext":
        n = ev[1]
        return n not in PURE and not n.startswith("spdlog") and not n.startswith("std::") and not n.startswith("fmt")
    if ev[0] in ("mut", "store"):
        f = pfield(ev[1])
        return f in m.cache_state and not is_local(ev[1])
    return False


class TriggerRule(Rule):
    """before-faults precede every effect; after-faults follow every effect on every successful return"""
    name = "fault-points"
    # (crash before, clear before, crash after, clear after)
    init = (0, 0, 0, 0)

    def __init__(self, op):
        self.op = op
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers

    def on(self, e, st, cx, node, ev):
        a = st.auto
        if ev[0] == "opaque" and ev[1] is not None and ev[1].id in self.m.triggers:
            args = ev[3]
            op, tim = sval(args[0]), sval(args[1])
            if op is None or tim is None:
                raise AnalysisBroken("fault trigger with unresolved operation or timing in %s" % cx.fn.q)
            if op != self.op:
                return
            kind = self.m.triggers[ev[1].id]
            idx = (0 if kind == "crash" else 1) + (0 if tim == "before" else 2)
            if tim not in ("before", "after"):
                e.report(cx, node, "fault trigger for %s with timing '%s'" % (op, tim), st)
                return
            self.count.setdefault("fault points", set()).add("%s %s %s" % (op, tim, kind))
            want = [mk("param", i, e.root.fn.ps[i]["n"]) for i in range(2 if op in TWO_PATH else 1)]
            for i, w in enumerate(want):
                got = args[2 + i]
                if got is not w and resolved(got):
                    e.report(cx, node, "%s %s trigger of '%s' is given %s where the operation's path is %s" %
                             (kind, tim, op, show(got), show(w)), st)
            if a[idx] >= 1:
                e.report(cx, node, "%s faults with timing '%s' consulted twice for one '%s'" % (kind, tim, op), st)
            st.auto = tuple(min(2, x + 1) if i == idx else x for i, x in enumerate(a))
            return
        if is_effect(self.m, ev):
            what = ev[1] if ev[0] == "ext" else pfield(ev[1]).split("::")[-1]
            if a[0] == 0 or a[1] == 0:
                e.report(cx, node, "'%s' takes effect (%s) before its %s faults with timing 'before' are consulted" %
                         (self.op, what, "crash" if a[0] == 0 else "clear"), st)
                st.auto = (1, 1, a[2], a[3])
            elif a[2] or a[3]:
                e.report(cx, node, "'%s' takes effect (%s) after its faults with timing 'after' were consulted" % (self.op, what), st)
        elif ev[0] == "exit":
            if a[0] == 0 or a[1] == 0:
                e.report(cx, node, "'%s' can return without consulting its %s faults with timing 'before'" %
                         (self.op, "crash" if a[0] == 0 else "clear"), st)
            if (a[2] == 0 or a[3] == 0) and not negative(e, st, ev[1]):
                e.report(cx, node, "'%s' can succeed without consulting its %s faults with timing 'after'" %
                         (self.op, "crash" if a[2] == 0 else "clear"), st)
            self.count["returns"] = self.count.get("returns", 0) + 1


def resolved(t):
    return t.k in ("k", "param")


class C01(Prop):
    minimum = {"fault points": 22}
    rule_text = ("For each fault-injectable operation: an automaton over the interprocedural flow graph of its FUSE handler; both fault triggers "
                 "with this operation, timing 'before' and the operation's own path arguments occur exactly once before the first effect on every "
                 "path, both 'after' triggers exactly once after the last effect on every path that does not return an error.")

    def jobs(self, m, tier):
        miss = [o for o in TRIGGER_OPS if o not in m.handlers]
        if miss:
            raise AnalysisBroken("no handler for %s" % miss)
        return [Job(o, (lambda o=o: TriggerRule(o)), m.handlers[o]) for o in TRIGGER_OPS]


PROPS = {"C01": C01()}
