"""C23: descriptors, directory streams and buffers obtained during an operation are released exactly once."""
from ..run import Prop, Job
from ..flow import Rule
from ..model import *
from .p_ops import fh_term, sub

MAKES = {"open": "fd", "openat": "fd", "creat": "fd", "dup": "fd", "open64": "fd", "opendir": "dir", "fdopendir": "dir", "fopen": "file",
         "malloc": "mem", "calloc": "mem"}
ENDS = {"close": "fd", "closedir": "dir", "fclose": "file", "free": "mem"}
WORDS = {"fd": "descriptor", "dir": "directory stream", "file": "stream", "mem": "buffer"}
TESTED = {"opendir", "fdopendir", "fopen", "open", "openat", "creat", "dup", "open64"}


class Owned(Rule):
    """every resource obtained is released exactly once or handed to the application"""
    name = "resource-ownership"
    # open, released, handed to the application: sets of (site, kind, line); the request's descriptor was closed
    init = (frozenset(), frozenset(), False, frozenset())

    def __init__(self, op):
        self.op = op
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or (fn.id != e.root.fn.id and fn.id in injectors(self.m))

    def forks(self, e, st, cx, node, name, av):
        return name in TESTED

    def find(self, t, states, kind=None):
        """the resource a value is"""
        for s in states:
            if t.k == "ext" and t.a[0] == s[0] and (s[1] == kind or kind is None and s[1] != "failed"):
                return s
        return None

    def inside(self, t, states):
        out = [s for s in states if any(x.k == "ext" and x.a[0] == s[0] for x in sub(t))]
        return out

    def got(self, e, st, cx, node, name):
        kind = MAKES[name]
        o, r, x, h = st.auto
        s = ((cx.id, node), kind, "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
        self.count.setdefault("resources obtained", set()).add("%s in %s" % (name, cx.fn.name))
        if s in o:
            e.report(cx, node, "'%s' obtains a %s while the one obtained here before is still open" % (self.op, WORDS[kind]), st)
        st.auto = (o | {s}, r - {s}, x, h)

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        o, r, x, h = st.auto
        if k == "ext":
            name, av = ev[1], ev[2]
            if name in MAKES and name not in TESTED:
                self.got(e, st, cx, node, name)
            elif name in ENDS and av:
                t = av[0]
                kind = ENDS[name]
                s = self.find(t, o | h, kind)
                self.count.setdefault("releases", set()).add("%s in %s" % (name, cx.fn.name))
                if s is not None:
                    st.auto = (o - {s}, r | {s}, x, h - {s})
                    return
                s = self.find(t, r, kind)
                if s is not None:
                    e.report(cx, node, "'%s' releases a %s twice (obtained at %s)" % (self.op, WORDS[kind], s[2]), st)
                elif name == "close" and fh_term(t):
                    if self.op != "release":
                        e.report(cx, node, "'%s' closes the application's descriptor" % self.op, st)
                    elif x:
                        e.report(cx, node, "the application's descriptor is closed twice", st)
                    st.auto = (o, r, True, h)
                elif t.k in ("phi", "stale"):
                    # one of several resources; which one is not known
                    st.auto = (frozenset(s for s in o if s[1] != kind), r, x, frozenset())
            elif name == "fdopendir" and av:
                s = self.find(av[0], o, "fd")
                if s is not None:
                    st.auto = (o - {s}, r, x, h)
            elif name not in ENDS:
                for a in av:
                    if a.k == "ext":
                        s = self.find(a, r)
                        if s is not None and s[1] not in ("mem", "failed"):
                            e.report(cx, node, "'%s' uses a %s after releasing it (%s on the one from %s)" % (self.op, WORDS[s[1]], name, s[2]), st)
        elif k == "extres" and ev[1] in TESTED:
            if not ev[4]:
                self.got(e, st, cx, node, ev[1])
            elif cx.fn is e.root.fn:
                # keeps the failed outcome apart until it is handled
                st.auto = (o, r | {((cx.id, node), "failed", "")}, x, h)
        elif k == "store":
            P = ev[1]
            if P.k == "P.fld" and not is_local(P):
                for s in self.inside(ev[2], o):
                    # kept in an object that outlives the operation (the request's file, a pending write)
                    self.count.setdefault("handed over", set()).add("%s in %s" % (P.a[1].split("::")[-1], cx.fn.name))
                    o, h = o - {s}, h | {s}
                st.auto = (o, r, x, h)
        elif k == "ret":
            if cx.fn is e.root.fn and self.op in ("open", "create") and h and negative(e, st, ev[1]):
                # the application never closes what a failed operation stored
                st.auto = (o | h, r, x, frozenset())
        elif k == "leave":
            # what the returning function released cannot be named any more
            if any(y[0][0] == cx.id for y in r):
                st.auto = (o, frozenset(y for y in r if y[0][0] != cx.id), x, h)
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            for s in sorted(o):
                e.report(cx, node, "'%s' returns without releasing the %s obtained at %s" % (self.op, WORDS[s[1]], s[2]), st)
            if self.op == "release" and not x:
                e.report(cx, node, "'release' returns without closing the application's descriptor", st)




def injectors(m):
    """functions that inject torn writes: they are analysed on their own"""
    v = getattr(m, "_injectors", None)
    if v is None:
        v = m._injectors = {f.id: f for f in m.p.fns.values() if f.body is not None and f.id not in m.handler_ids and f.id not in m.triggers and
                            f.id != m.worker.id and any(x.get("f") in (m.f["faults"], m.f["pending"]) for x in walk(f.body)) and
                            any(str(x.get("q", "")) in ("open", "pwrite", "close") for x in walk(f.body))}
    return v


class C23(Prop):
    minimum = {"resources obtained": 8, "releases": 7, "returns": 20}
    rule_text = ("Ownership (typestate) analysis over the interprocedural flow graph of every handler: the outcomes of each open are followed "
                 "separately; a descriptor, directory stream or buffer obtained on a path is closed exactly once before the path returns or is stored in "
                 "the request's file handle; nothing is released twice or used after its release; only release closes the application's descriptor.")

    def jobs(self, m, tier):
        j = [Job(o, (lambda o=o: Owned(o)), f) for o, f in sorted(m.handlers.items())]
        j += [Job(f.q.split("::")[-1], (lambda f=f: Owned(f.q.split("::")[-1])), f) for f in injectors(m).values()]
        return j


PROPS = {"C23": C23()}
