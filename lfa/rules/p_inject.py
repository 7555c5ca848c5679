"""C15: crash and clear faults fire exactly when they match.  C20: torn writes."""
from collections import namedtuple
from ..run import Prop, Job, PyJob
from ..flow import Rule
from ..model import *
from .p_ops import sub
from .p_cmds import origin, PUSH

ENDERS = {"kill", "raise", "abort", "exit", "_exit", "quick_exit", "std::terminate", "std::abort", "std::exit", "std::_Exit", "std::quick_exit", "_Exit", "tgkill",
          "pthread_kill", "killpg", "sigqueue", "execve", "execv", "execl", "execvp", "pthread_exit"}


class Vals:
    """sets of valuations of a few named conditions"""
    def __init__(self, names):
        self.names = tuple(names)
        self.bit = {n: 1 << i for i, n in enumerate(self.names)}
        self.all = frozenset(range(1 << len(self.names)))

    def on(self, v, n):
        return bool(v & self.bit[n])

    def forget(self, vals, names):
        m = 0
        for n in names:
            m |= self.bit[n]
        rest = {v & ~m for v in vals}
        return frozenset(v for v in self.all if (v & ~m) in rest)

    def truth(self, t, v, atom):
        """value of the condition t under v, None if it is not determined"""
        if isk(t):
            return bool(kval(t))
        if t.k == "not":
            x = self.truth(t.a[0], v, atom)
            return None if x is None else not x
        if t.k in ("and", "or"):
            xs = [self.truth(x, v, atom) for x in t.a]
            stop = t.k == "or"
            if stop in xs:
                return stop
            return None if None in xs else not stop
        if t.k == "ite":
            c = self.truth(t.a[0], v, atom)
            if c is None:
                x, y = self.truth(t.a[1], v, atom), self.truth(t.a[2], v, atom)
                return x if x == y else None
            return self.truth(t.a[1 if c else 2], v, atom)
        a = atom(t)
        if a is not None:
            n, pos = a
            return self.on(v, n) == pos
        if t.k == "eq" and isk(t.a[1]) and kval(t.a[1]) in (0, 1) and not isinstance(kval(t.a[1]), str):
            x = self.truth(t.a[0], v, atom)
            return None if x is None else x == bool(kval(t.a[1]))
        return None

    def filter(self, vals, t, val, atom):
        return frozenset(v for v in vals if self.truth(t, v, atom) is not (not val))


def is_param(t, i):
    return t is not None and t.k == "param" and t.a[0] == i


def flat(t):
    """parts of a string concatenation"""
    while t.k == "lib" and (t.a[0] == "ctor" or "regex" in t.a[0]) and len(t.a) >= 2:
        t = t.a[1]
    if t.k == "op" and t.a[0] == "strcat":
        return flat(t.a[1]) + flat(t.a[2])
    return [t]


def elem_part(t, it):
    """0/1: the key or the value of the element the iterator stands at"""
    if t.k == "ikey" and t.a[0] is it:
        return 0
    if t.k == "at" and t.a[1].k == "ikey" and t.a[1].a[0] is it:
        return 1
    if t.k == "get" and any(x is it for x in sub(t)):
        return t.a[0]
    return None


def solve(t, occ):
    """x, where t says that occ equals x"""
    x, y = t.a[0], t.a[1]
    if x is occ:
        return y
    if y is occ:
        return x
    for z in (padd(y, padd(x, occ, -1), -1), padd(padd(x, occ, 1), y, -1)):
        if not any(w is occ for w in sub(z)):
            return z
    return None


def is_element(t, it):
    """t is the element of the sequence at the iterator or index"""
    return t.k == "kvit" and t.a[0] is it or t.k in ("at", "idx") and len(t.a) > 1 and t.a[1] is it


F = namedtuple("F", "vals stage inc new done it")


class Fire(Rule):
    """one of the two functions that consult installed faults"""

    def __init__(self):
        self.count = {}

    @property
    def init(self):
        return F(self.V.all, 0, 0, None, 0, None)

    def opaque(self, e, fn):
        return fn.id in (self.report.id, self.clear.id)

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def now(self, st):
        """the automaton with the iterator of the running search in place of its loop"""
        a = st.auto
        if a.it is None:
            return a
        return a._replace(it=next((l[3] for l in st.loops if (l[0], l[1]) == a.it), None))

    def put(self, st, **kw):
        st.auto = st.auto._replace(**kw)

    def all(self, vals, f):
        return all(f(v) for v in vals)

    def where(self, cx, node):
        return "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l)

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        a = self.now(st)
        if not a.vals and k != "exit":
            st.dead = True
            return
        if k == "iter":
            w = self.source(e, st, a, ev[2])
            if w:
                self.hit("loops", self.where(cx, node))
                self.put(st, vals=self.V.forget(a.vals, self.ELEM), stage=0, inc=0, new=None, it=(cx.id, ev[1]))
        elif k == "branch":
            vals = self.V.filter(a.vals, ev[1], ev[2], lambda t: self.atom(e, st, a, t))
            if not vals:
                st.dead = True
            done = a.done
            for t, val in atoms(ev[1], ev[2]):
                if self.nothing(e, st, a, t, val):
                    done = 1
            self.put(st, vals=vals, done=done)
        elif k == "store" and ev[1].k == "P.fld" and self.COUNTER and ev[1].a[1] == self.COUNTER:
            self.counted(e, st, cx, node, ev, a)
        elif k == "opaque" and ev[1] is not None and ev[1].id == self.report.id:
            self.hit("firings", self.where(cx, node))
            if a.it is None or not self.all(a.vals, lambda v: self.fires(v)):
                e.report(cx, node, "a fault can fire that does not match the operation, its timing, its paths or its occurrence", st)
            self.put(st, stage=1)
        elif k == "opaque" and ev[1] is not None and ev[1].id == self.clear.id:
            if a.stage != 1 or not self.CLEAR:
                e.report(cx, node, "the cache is cleared by a fault that has not fired", st)
            elif not self.all(a.vals, lambda v: not self.V.on(v, "crash")):
                e.report(cx, node, "a fault clears the cache where it was to crash", st)
            self.put(st, stage=2)
        elif k == "ext" and ev[1] in ENDERS:
            if ev[1] not in ("kill", "raise"):
                e.report(cx, node, "a fault ends the process with %s instead of SIGKILL" % ev[1], st)
            elif ev[1] == "kill" and not (ev[2][0].k == "ext" and ev[2][0].a[0][0] == "getpid" if False else "getpid" in show(ev[2][0])):
                e.report(cx, node, "a fault kills another process", st)
            elif not (isk(ev[2][-1]) and kval(ev[2][-1]) == 9):
                e.report(cx, node, "a fault sends a signal other than SIGKILL", st)
            if a.stage != 1:
                e.report(cx, node, "the process is killed by a fault that has not fired, or before its report", st)
            elif self.CLEAR and not self.all(a.vals, lambda v: self.V.on(v, "crash")):
                e.report(cx, node, "a fault kills the process where it was only to clear the cache", st)
            self.hit("kills", self.where(cx, node))
            st.dead = True
        elif k in ("iterend", "loopbreak") or k == "exit" and st.auto.it is not None:
            if k != "exit" and a.it != (cx.id, ev[1]):
                return
            early = k != "iterend"
            if early and not (self.CLEAR and self.all(a.vals, lambda v: self.V.on(v, "isclear"))):
                # a file has at most one clear fault (C16), nothing of the kind follows it
                e.report(cx, node, "the search through the installed faults ends before the last of them", st)
            if a.stage == 1:
                e.report(cx, node, "a fault that matches is reported but has no effect", st)
            elif a.stage == 0 and any(self.fires(v) for v in a.vals):
                e.report(cx, node, "a fault that matches can be passed over", st)
            if self.COUNTER and a.inc == 0 and any(self.counts(v) for v in a.vals):
                e.report(cx, node, "an operation that a fault names can go uncounted", st)
            self.put(st, vals=self.V.forget(a.vals, self.ELEM), stage=0, inc=0, new=None, it=None, done=1 if early else a.done)
            if k == "exit":
                self.count["returns"] = self.count.get("returns", 0) + 1
        elif k == "loopdone":
            if self.source(e, st, a, ev[2]):
                self.put(st, done=1, it=None, stage=0, inc=0, new=None, vals=self.V.forget(a.vals, self.ELEM))
        elif k == "exit":
            if not a.done and a.vals:
                e.report(cx, node, "the installed faults may not be consulted", st)
            self.count["returns"] = self.count.get("returns", 0) + 1

    def counted(self, e, st, cx, node, ev, a):
        pass

    def nothing(self, e, st, a, t, val):
        return False


class CrashFire(Fire):
    name = "crash-firing"
    V = Vals(("before", "multi", "from", "tonone", "to"))
    ELEM = ("from", "tonone", "to")
    COUNTER = None
    CLEAR = False

    def fires(self, v):
        on = self.V.on
        return on(v, "from") and (not on(v, "multi") or on(v, "tonone") or on(v, "to"))

    def source(self, e, st, a, c):
        if c is None or c.k != "at" or not is_param(c.a[1], 0):
            return None
        o = origin(c.a[0])
        if o not in (self.m.f["crash_before"], self.m.f["crash_after"]):
            return None
        b = o == self.m.f["crash_before"]
        if not all(self.V.on(v, "before") == b for v in a.vals):
            return None
        return "table"

    def nothing(self, e, st, a, t, val):
        return t.k == "empty" and val and self.source(e, st, a, t.a[0]) is not None

    def atom(self, e, st, a, t):
        if t.k == "eq":
            x, y = t.a[0], t.a[1]
            if not isk(y):
                x, y = y, x
            if is_param(x, 1) and isk(y) and kval(y) in ("before", "after"):
                return ("before", kval(y) == "before")
            if a.it is not None and isk(y) and kval(y) == "none" and elem_part(x, a.it) == 1:
                return ("tonone", True)
        elif t.k == "has" and origin(t.a[0]) is not None and origin(t.a[0]).endswith("::fs_op_multi_path") and is_param(t.a[1], 0):
            return ("multi", True)
        elif t.k == "lib" and t.a[0].split("::")[-1] in ("regex_match", "regex_search") and a.it is not None and len(t.a) >= 3:
            s, r = t.a[1], t.a[2]
            if is_param(s, 2) and elem_part(r, a.it) == 0:
                return ("from", True)
            if is_param(s, 3):
                p = flat(r)
                if t.a[0].endswith("regex_match") and len(p) == 3 and all(isk(x) and kval(x) == ".*" for x in (p[0], p[2])) and elem_part(p[1], a.it) == 1:
                    return ("to", True)
                if t.a[0].endswith("regex_search") and len(p) == 1 and elem_part(p[0], a.it) == 1:
                    return ("to", True)
        return None


class ClearFire(Fire):
    name = "clear-firing"
    V = Vals(("before", "multi", "isclear", "op", "to", "fbefore", "occ", "crash"))
    ELEM = ("isclear", "op", "to", "fbefore", "occ", "crash")
    COUNTER = "faults::ClearF::counter"
    CLEAR = True

    def match(self, v):
        on = self.V.on
        return on(v, "isclear") and on(v, "op") and (not on(v, "multi") or on(v, "to"))

    def counts(self, v):
        return self.match(v) and self.V.on(v, "before")

    def fires(self, v):
        on = self.V.on
        return self.match(v) and on(v, "before") == on(v, "fbefore") and on(v, "occ")

    def source(self, e, st, a, c):
        if c is not None and c.k == "at" and is_param(c.a[1], 2) and self.table(c.a[0]):
            return "table"
        return None

    def nothing(self, e, st, a, t, val):
        return t.k == "has" and not val and self.table(t.a[0]) and is_param(t.a[1], 2)

    def table(self, t):
        return any(x.k == "ld" and x.a[1] == self.m.f["faults"] for x in sub(t))

    def elem(self, a, t):
        """t is the fault under the iterator seen as a clear fault"""
        return t.k == "op" and t.a[0] == "dyncast" and is_element(t.a[1], a.it) and "ClearF" in show(t.a[2])

    def field(self, a, t, name):
        return t.k in ("ld", "proj") and t.a[1] == "faults::ClearF::" + name and self.elem(a, t.a[0])

    def atom(self, e, st, a, t):
        if t.k == "has":
            if origin(t.a[0]) is not None and origin(t.a[0]).endswith("::fs_op_multi_path") and is_param(t.a[1], 0):
                return ("multi", True)
            return None
        if t.k == "eq":
            x, y = t.a[0], t.a[1]
            if isk(x):
                x, y = y, x
            if is_param(x, 1) and isk(y) and kval(y) in ("before", "after"):
                return ("before", kval(y) == "before")
            if a.it is None:
                return None
            if y.k == "null" or isk(y) and kval(y) in (None, 0) or show(y) == "null":
                if self.elem(a, x):
                    return ("isclear", False)
            if self.field(a, y, "op") or self.field(a, y, "to") or self.field(a, y, "timing"):
                x, y = y, x
            if self.field(a, x, "op") and is_param(y, 0):
                return ("op", True)
            if self.field(a, x, "to") and is_param(y, 3):
                return ("to", True)
            if self.field(a, x, "timing") and isk(y):
                return ("fbefore", kval(y) == "before")
            if self.field(a, x, "timing") and is_param(y, 1):
                b = {self.V.on(v, "before") for v in a.vals}
                if len(b) == 1:
                    return ("fbefore", b.pop())
                return None
            if self.field(a, x, "crash") and isk(y):
                return ("crash", bool(kval(y)))
            f = next((z.a[0] for z in sub(t) if z.k in ("ld", "proj") and z.a[1] == "faults::ClearF::occurrence" and self.elem(a, z.a[0])), None)
            if f is not None:
                # the new count where this consultation counted, the present one where it came with timing 'after'
                occ = next(z for z in sub(t) if z.k in ("ld", "proj") and z.a[1] == "faults::ClearF::occurrence" and self.elem(a, z.a[0]))
                x = solve(t, occ)
                if x is None:
                    return None
                if a.inc:
                    one = padd(x, K(1), -1)
                    good = one.k == "stale" and e.klass(st, one) == "cnt" or x is a.new or e.klass(st, x) == "new"
                else:
                    good = e.klass(st, x) == "cnt" and all(not self.V.on(v, "before") for v in a.vals)
                if good:
                    return ("occ", True)
            return None
        if a.it is not None and self.field(a, t, "crash"):
            return ("crash", True)
        return None

    def cls(self, e, st, t):
        if t.k == "ld" and t.a[1] == self.COUNTER and st.auto.it is not None:
            return "new" if st.auto.inc else "cnt"
        return None

    def counted(self, e, st, cx, node, ev, a):
        if a.it is None:
            e.report(cx, node, "a fault's count changes outside the search for it", st)
            return
        if padd(ev[2], ev[3], -1) is not K(1):
            e.report(cx, node, "an operation is not counted as one by a clear fault", st)
        if not self.all(a.vals, self.counts):
            e.report(cx, node, "a clear fault counts an operation it does not name, or counts it with timing 'after' too", st)
        if a.inc:
            e.report(cx, node, "a clear fault counts an operation twice", st)
        self.hit("counts", self.where(cx, node))
        self.put(st, inc=1, new=ev[2])


def reachable(m, roots, stop=()):
    seen = {}
    todo = [(r, None) for r in roots]
    while todo:
        f, frm = todo.pop()
        if f.id in seen or f.id in stop or f.body is None:
            continue
        seen[f.id] = frm
        for x in walk(f.body):
            for key in ("f", "d", "id"):
                g = m.p.fns.get(x.get(key)) if isinstance(x.get(key), str) else None
                if g is not None:
                    todo.append((g, f))
    return seen


def enders(m, o):
    """nothing but a fault, or the crash of a torn write through it, ends the process while operations and commands run"""
    stop = set(m.triggers)
    roots = [f for f in m.handlers.values()] + [m.worker]
    seen = reachable(m, roots, stop)
    for fid in seen:
        f = m.p.fns[fid]
        o.fns.add(f.q)
        for x in walk(f.body):
            q = str(x.get("q", ""))
            if x.get("k") == "call" and (q in ENDERS or q.split("::")[-1] in ENDERS and q.startswith("std::")) and not q.startswith("pthread_exit"):
                o.report("process-end", m.p.rel(f.file), x.get("l", f.line), f.q, "%s ends the process outside the two fault triggers" % q)
    o.hit("functions searched", len(seen))


# ------------------------------------------------------------------------------------------------ torn writes
RF, SF = "faults::ReorderF::", "faults::SplitWriteF::"


def is_fld(t, q):
    return t is not None and hasattr(t, "k") and t.k in ("ld", "proj") and t.a[1] == q


def len_of(t):
    """the container whose size t is"""
    return t.a[0] if t.k == "size" else None


class Torn(Rule):
    """common to the two functions that inject torn writes: the search for the fault, its counter, the crash"""
    PARAMS = ("path", "buf", "size", "offset")

    def __init__(self):
        self.count = {}

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def where(self, cx, node):
        return "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l)

    def opaque(self, e, fn):
        return fn.id == self.adder.id

    def put(self, st, **kw):
        st.auto = st.auto._replace(**kw)

    def table(self, c):
        return c is not None and c.k == "at" and is_param(c.a[1], 0) and any(is_fld(x, self.m.f["faults"]) for x in sub(c.a[0]))

    def search(self, st):
        """the iterator of the running search"""
        return next((l[3] for l in st.loops if self.table(l[2])), None)

    def cast(self, t, st):
        it = self.search(st)
        return t.k == "op" and t.a[0] == "dyncast" and it is not None and is_element(t.a[1], it) and self.CLS in show(t.a[2])

    def cls(self, e, st, t):
        if is_fld(t, self.COUNTER):
            return "new" if st.auto.inc else "cnt"
        return None

    def counter(self, e, st, t):
        """t is the number of this write"""
        if e.klass(st, t) == "new":
            return bool(st.auto.inc) and (t.k != "ld" or e.read(st, mk("P.fld", t.a[0], self.COUNTER)) is t)
        if t.k != "poly" and t.k != "stale" and not st.auto.inc:
            return False
        one = padd(t, K(1), -1)
        return bool(st.auto.inc) and (e.klass(st, one) == "cnt" or is_fld(one, self.COUNTER) and e.read(st, mk("P.fld", one.a[0], self.COUNTER)) is t)

    def every(self, st, f):
        return all(f(v) for v in st.auto.vals)

    def some(self, st, f):
        return any(f(v) for v in st.auto.vals)

    def on_(self, v, n):
        return self.V.on(v, n)

    def counted(self, e, st, cx, node, ev):
        if padd(ev[2], ev[3], -1) is not K(1):
            e.report(cx, node, "a write is not counted as one by its torn-write fault", st)
        if st.auto.cur:
            e.report(cx, node, "a write is counted twice by its torn-write fault", st)
        if not self.every(st, self.counts):
            e.report(cx, node, "a torn-write fault counts a write it does not name", st)
        self.hit("counts", self.where(cx, node))
        self.put(st, inc=1, cur=1)

    def crash(self, e, st, cx, node, ev):
        a = ev[3]
        if [sval(x) for x in a[:2]] != ["after", "write"] or not is_param(a[2], 0) or sval(a[3]) not in ("none", ""):
            e.report(cx, node, "the crash set up by a torn write is not the one after this write", st)
        self.hit("crashes", self.where(cx, node))

    def opened(self, st, fd):
        return next((p for f, p in st.auto.fds if f is fd), None)

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        if not st.auto.vals:
            if k != "exit":
                st.dead = True
            return
        if k == "branch":
            vals = self.V.filter(st.auto.vals, ev[1], ev[2], lambda t: self.atom(e, st, t))
            if not vals:
                st.dead = True
            self.put(st, vals=vals)
        elif k == "iter" and self.table(ev[2]):
            self.hit("loops", self.where(cx, node))
            self.put(st, vals=self.V.forget(st.auto.vals, self.ELEM) & self.START, cur=0)
        elif k == "ext" and ev[1] in ("open", "openat"):
            self.put(st, fds=st.auto.fds + ((ev[3], ev[2][0]),))
        elif k == "opaque" and ev[1] is not None and ev[1].id == self.adder.id:
            self.crash(e, st, cx, node, ev)
        elif k == "store" and ev[1].k == "P.fld" and ev[1].a[1] == self.COUNTER:
            self.counted(e, st, cx, node, ev)
        else:
            self.more(e, st, cx, node, ev)
        if k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1

    def params(self, *ts):
        """which of the given terms is not the parameter of its position"""
        return next((self.PARAMS[i] for i, t in ts if not is_param(t, i)), None)


SEQ = Vals(("is", "op", "c1", "c2", "inp", "grp", "pend", "single", "last", "nul"))
Q = namedtuple("Q", "vals inc cur fds grp pend one two crash ret new")


class Seq(Torn):
    """persist_write: the writes of a sequence that are persisted"""
    name = "torn-seq"
    CLS = "ReorderF"
    COUNTER = RF + "counter"
    V = SEQ
    ELEM = ("is", "op")
    START = frozenset(v for v in SEQ.all if not (SEQ.on(v, "c1") and SEQ.on(v, "c2")))
    init = Q(START, 0, 0, (), 0, "", 0, 0, 0, None, ())

    def counts(self, v):
        return self.on_(v, "is") and self.on_(v, "op")

    def atom(self, e, st, t):
        if t.k == "has" and origin(t.a[0]) == RF + "persist" and self.counter(e, st, t.a[1]):
            return ("inp", True)
        if t.k != "eq":
            return None
        x, y = t.a[0], t.a[1]
        if isk(x):
            x, y = y, x
        null = isk(y) and kval(y) is None
        if null and self.cast(x, st):
            return ("is", False)
        if null and is_fld(x, self.m.f["pending"]):
            return ("pend", False)
        if null:
            return ("nul", True)
        if is_fld(y, RF + "op"):
            x, y = y, x
        if is_fld(x, RF + "op") and (isk(y) and kval(y) == "write"):
            return ("op", True)
        if len_of(x) is not None and origin(len_of(x)) == RF + "persist" and isk(y) and kval(y) == 1:
            return ("single", True)
        back = next((z for z in sub(t) if z.k == "lib" and z.a[0] == "back" and origin(z.a[1]) == RF + "persist"), None)
        if back is not None:
            w = solve(t, back)
            return ("last", True) if w is not None and self.counter(e, st, w) else None
        occ = next((z for z in sub(t) if is_fld(z, RF + "occurrence")), None)
        if occ is not None:
            w = solve(t, occ)
            if w is None or st.auto.grp == 0 and self.some(st, lambda v: self.on_(v, "c2")):
                return None
            one = padd(w, K(1), -1)
            if is_fld(w, RF + "group_counter") and not (st.auto.grp and False) or st.auto.grp and one.k in ("stale", "ld"):
                return ("grp", True)
            return None
        for n in (1, 2):
            w = solve_const(t, n)
            if w is not None and self.counter(e, st, w):
                return ("c%d" % n, True)
        return None

    def more(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        on = self.on_
        if k == "store" and ev[1].k == "P.fld":
            f = ev[1].a[1]
            if f == RF + "group_counter":
                if padd(ev[2], ev[3], -1) is not K(1) or a.grp:
                    e.report(cx, node, "a sequence of writes is not counted as one", st)
                if not self.every(st, lambda v: on(v, "c2")):
                    e.report(cx, node, "a sequence is counted at another write than its second", st)
                self.put(st, grp=1)
            elif f == self.m.f["pending"]:
                v = ev[2]
                if isk(v) and kval(v) is None:
                    if a.pend == "" and self.some(st, lambda v: on(v, "pend") and on(v, "grp")) and not a.one:
                        e.report(cx, node, "the first write of the chosen sequence is dropped without being persisted", st)
                    self.put(st, pend="null")
                else:
                    if not self.every(st, lambda v: on(v, "c1") and on(v, "inp")):
                        e.report(cx, node, "a write is kept for later that is not a selected first write of its sequence", st)
                    if v.k == "new":
                        got = dict(a.new)
                        for name, i in (("path", 0), ("size", 2), ("offset", 3)):
                            if name in got and not is_param(got[name], i):
                                e.report(cx, node, "the first write of a sequence is kept with another %s" % name, st)
                    self.hit("kept writes", self.where(cx, node))
                    self.put(st, pend="new")
            elif f.startswith("lazyfs::Write::") and ev[1].a[0].k == "new":
                self.put(st, new=tuple(sorted([x for x in a.new if x[0] != f.split("::")[-1]] + [(f.split("::")[-1], ev[2])], key=lambda x: x[0])))
        elif k == "ext" and ev[1] in ("pwrite", "pwrite64", "write"):
            self.hit("writes", self.where(cx, node))
            if ev[1] == "write":
                e.report(cx, node, "a torn write is persisted without its offset", st)
                return
            fd, b, n, o = ev[2][:4]
            p = self.opened(st, fd)
            if is_fld(b, "lazyfs::Write::buf"):
                if not self.every(st, lambda v: on(v, "pend") and on(v, "grp")):
                    e.report(cx, node, "the first write of a sequence can be persisted that is not the chosen one", st)
                if not (is_fld(n, "lazyfs::Write::size") and is_fld(o, "lazyfs::Write::offset")) or p is not None and not is_fld(p, "lazyfs::Write::path"):
                    e.report(cx, node, "the first write of a sequence is not persisted as it was made", st)
                if a.one:
                    e.report(cx, node, "a selected write is persisted twice", st)
                self.put(st, one=1, ret=(1, ev[3], n))
            else:
                bad = self.params((1, b), (2, n), (3, o))
                if bad or p is not None and not is_param(p, 0):
                    e.report(cx, node, "a selected write is persisted with another %s than it was made with" % (bad or "path"), st)
                if not self.every(st, lambda v: on(v, "inp") and not on(v, "c1") and on(v, "grp")):
                    e.report(cx, node, "a write can be persisted that is not selected, or whose sequence is not the chosen one", st)
                if a.two:
                    e.report(cx, node, "a selected write is persisted twice", st)
                self.put(st, two=1, ret=(2, ev[3], n))
        elif k == "opaque":
            pass
        elif k == "iterend" and self.table(ev[2]):
            if not a.cur and self.some(st, self.counts):
                e.report(cx, node, "a write that a torn-seq fault names can go uncounted", st)
        elif k == "exit":
            if a.inc and not a.crash:
                # this write belongs to a fault
                if not a.grp and self.some(st, lambda v: on(v, "c2")):
                    e.report(cx, node, "the second write of a sequence can leave the sequence uncounted", st)
                if not a.one and self.some(st, lambda v: on(v, "pend") and on(v, "grp")):
                    e.report(cx, node, "the selected first write of the chosen sequence may not be persisted", st)
                if a.pend == "" and self.some(st, lambda v: on(v, "pend")):
                    e.report(cx, node, "a kept first write outlives the write that follows it", st)
                if a.pend != "new" and self.some(st, lambda v: on(v, "c1") and on(v, "inp")):
                    e.report(cx, node, "a selected first write may not be kept", st)
                if not a.two and self.some(st, lambda v: not on(v, "c1") and on(v, "inp") and on(v, "grp")):
                    e.report(cx, node, "a selected write of the chosen sequence may not be persisted", st)
                full = a.ret is not None and e.entail(st, EQ(a.ret[1], a.ret[2])) is True
                if full and (a.ret[0] == 2 and self.some(st, lambda v: on(v, "last")) or a.ret[0] == 1 and self.some(st, lambda v: on(v, "single"))):
                    e.report(cx, node, "the last selected write is persisted without a crash being set up", st)

    def crash(self, e, st, cx, node, ev):
        Torn.crash(self, e, st, cx, node, ev)
        a = st.auto
        full = a.ret is not None and e.entail(st, EQ(a.ret[1], a.ret[2])) is True
        if not full:
            e.report(cx, node, "a crash is set up although the selected write may not have been persisted completely", st)
        elif not (a.ret[0] == 2 and self.every(st, lambda v: self.on_(v, "last")) or a.ret[0] == 1 and self.every(st, lambda v: self.on_(v, "single"))):
            e.report(cx, node, "a crash is set up before the last selected write of the sequence", st)
        self.put(st, crash=1)


def solve_const(t, n):
    """x, where t says that x equals the constant n"""
    x, y = t.a[0], t.a[1]
    if isk(x):
        x, y = y, x
    if not isnum(y):
        return None
    # x == y  <=>  x + (n - y) == n, or -x + (n + y) == n
    return padd(x, K(n - kval(y)))


P3 = namedtuple("P3", "vals inc cur fds crash vecs acc must bef pushed wrote bad done ret")


class Split(Torn):
    """split_write: the parts of a write that are persisted"""
    name = "torn-op"
    CLS = "SplitWriteF"
    COUNTER = SF + "counter"
    V = Vals(("is", "occ", "bytes", "last", "rem", "sum"))
    ELEM = ("is", "occ", "bytes", "last", "rem", "sum")
    START = V.all
    init = P3(V.all, 0, 0, (), 0, (), (), None, None, 0, 0, 0, 0, None)

    def counts(self, v):
        return self.on_(v, "is")

    def cls(self, e, st, t):
        if t.k in ("op", "poly"):
            ops = {x.a[0] for x in sub(t) if x.k == "op" and x.a[0] in ("/", "%") and is_param(x.a[1], 2)}
            if ops and not any(is_param(x, 3) for x in sub(t)):
                return "len" + "".join(sorted(ops))
        return Torn.cls(self, e, st, t)

    def persist_it(self, st):
        return next((l for l in reversed(st.loops) if l[2] is not None and origin(l[2]) == SF + "persist"), None)

    def part(self, t, l):
        """t is the number of the part the persist loop is at"""
        return is_element(t, l[3])

    def part_term(self, t, l):
        return next((x for x in sub(t) if self.part(x, l)), None)

    def atom(self, e, st, t):
        l = self.persist_it(st)
        if t.k == "lt0":
            r = [x for x in sub(t) if x.k == "op" and x.a[0] == "%" and is_param(x.a[1], 2)]
            if r and LT(r[0], K(1)) is t:
                return ("rem", False)
            return None
        if t.k != "eq":
            return None
        x, y = t.a[0], t.a[1]
        if isk(x):
            x, y = y, x
        if isk(y) and kval(y) is None and self.cast(x, st):
            return ("is", False)
        if isk(y) and is_fld(x, SF + "parts") and kval(y) == -1:
            return ("bytes", True)
        if isk(y) and kval(y) == 0 and x.k == "op" and x.a[0] == "%" and is_param(x.a[1], 2):
            return ("rem", False)
        occ = next((z for z in sub(t) if is_fld(z, SF + "occurrence")), None)
        if occ is not None:
            w = solve(t, occ)
            return ("occ", True) if w is not None and self.counter(e, st, w) else None
        parts = next((z for z in sub(t) if is_fld(z, SF + "parts")), None)
        if parts is not None and l is not None:
            w = solve(t, parts)
            return ("last", True) if w is not None and self.part(w, l) else None
        size = next((z for z in sub(t) if is_param(z, 2)), None)
        if size is not None and any(l[2] is not None and origin(l[2]) == SF + "persist" for l in st.loops):
            w = solve(t, size)
            if w is not None and not any(z.k == "ext" for z in sub(w)):
                return ("sum", True)
        return None

    def triple(self, e, st, cx, node, boff, n, foff):
        l = self.persist_it(st)
        on = self.on_
        if not self.every(st, lambda v: on(v, "is") and on(v, "occ")):
            e.report(cx, node, "a part of a write can be persisted that is not the fault's occurrence", st)
        if l is None:
            return
        if padd(foff, boff, -1).k != "opq" and padd(foff, boff, -1) is not mk("param", 3, self.pname(e, 3)):
            e.report(cx, node, "a part goes to another place of the file than it has in the write", st)
        if self.every(st, lambda v: on(v, "bytes")):
            if not self.every(st, lambda v: on(v, "sum")):
                e.report(cx, node, "a part is persisted although the parts may not add up to the write", st)
            p = self.part_term(n, l)
            if n.k == "at" and origin(n.a[0]) == SF + "parts_bytes":
                if p is None or n.a[1] is not padd(p, K(1), -1):
                    e.report(cx, node, "a part is persisted with the length of another", st)
            elif n.k not in ("phi", "opq", "stale"):
                e.report(cx, node, "a part is persisted with another length than given", st)
            var = next((x for (c, x), v in st.env.items() if v is boff and any(y[0] == x for y in st.auto.acc)), None)
            must = st.auto.must
            if var is not None and ((var, "all") in st.auto.acc or must is not None and var not in must):
                e.report(cx, node, "the place of a part is not the sum of the lengths of the parts before it", st)
        elif self.every(st, lambda v: not on(v, "bytes")):
            q = next((x for x in sub(n) if x.k == "op" and x.a[0] == "/" and is_param(x.a[1], 2) and is_fld(x.a[2], SF + "parts")), None)
            p = self.part_term(boff, l)
            if n.k in ("phi", "opq", "stale"):
                pass
            elif q is None:
                e.report(cx, node, "a part has another length than the write divided by the number of parts", st)
            else:
                r = mk("op", "%", q.a[1], q.a[2])
                if n is q:
                    if not self.every(st, lambda v: not (on(v, "last") and on(v, "rem"))):
                        e.report(cx, node, "the last part is persisted without the remainder", st)
                elif n is padd(q, r):
                    if not self.every(st, lambda v: on(v, "last")):
                        e.report(cx, node, "the remainder is persisted with another part than the last", st)
                else:
                    e.report(cx, node, "a part has another length than the write divided by the number of parts", st)
            if q is not None and boff.k not in ("phi", "opq", "stale") and (p is None or boff is not padd(pmul(p, q), q, -1)):
                e.report(cx, node, "a part is not taken from its own place in the write", st)
        self.hit("parts", self.where(cx, node))

    def pname(self, e, i):
        return e.root.fn.ps[i]["n"]

    def on(self, e, st, cx, node, ev):
        Torn.on(self, e, st, cx, node, ev)
        r = st.auto.ret
        if ev[0] == "branch" and not st.dead and r is not None and r is not True and e.entail(st, EQ(r[0], r[1])) is True:
            self.put(st, ret=True)
        if ev[0] == "branch" and not st.dead and st.loops:
            l, i = self.persist_it(st), st.loops[-1]
            if l is not None and i[2] is not None and origin(i[2]) == SF + "parts_bytes":
                b = self.before(e, st, i[3], l)
                if b is not None:
                    self.put(st, bef=b)

    def more(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        on = self.on_
        l = self.persist_it(st)
        if k == "iter" and ev[2] is not None and origin(ev[2]) == SF + "persist":
            self.put(st, vals=self.V.forget(a.vals, ("last", "sum")), pushed=0, acc=(), must=None)
        elif k == "iter" and self.out_loop(e, st, (cx.id, ev[1], ev[2], ev[3])):
            self.put(st, ret=None)
        elif k == "iter" and l is not None and ev[2] is not None and origin(ev[2]) == SF + "parts_bytes":
            self.put(st, acc=tuple(x for x in a.acc if x[1] != "now"), bef=None)
        elif k == "mut" and ev[2] in PUSH and ev[1].k == "P.var" and l is not None:
            t = ev[3][0] if len(ev[3]) == 1 else mk("tup", *ev[3])
            if hasattr(t, "k") and t.k in ("tup", "il") and len(t.a) == 3:
                self.triple(e, st, cx, node, *t.a)
                self.put(st, vecs=tuple(sorted(set(a.vecs) | {ev[1]}, key=str)), pushed=min(2, a.pushed + 1))
            elif hasattr(t, "k") and t.k in ("opq", "agg", "phi", "new", "stale"):
                self.put(st, vecs=tuple(sorted(set(a.vecs) | {ev[1]}, key=str)), pushed=min(2, a.pushed + 1))
        elif k == "setvar" and l is not None:
            v = ev[2]
            if hasattr(v, "k") and ev[1].k == "P.var":
                pb = next((x for x in sub(v) if x.k == "at" and origin(x.a[0]) == SF + "parts_bytes"), None)
                inner = st.loops[-1]
                if pb is not None and inner is not l and inner[3] is pb.a[1]:
                    before = self.before(e, st, pb.a[1], l)
                    x = ev[1].a[1]
                    self.put(st, acc=tuple(sorted(set(a.acc) | {(x, "some" if before is True else "all"), (x, "now")})))
        elif k == "iterend" and l is not None and ev[2] is not None and origin(ev[2]) == SF + "parts_bytes":
            if a.bef is not False:
                now = frozenset(x for x, y in a.acc if y == "now")
                self.put(st, must=now if a.must is None else a.must & now)
        elif k == "ext" and ev[1] in ("pwrite", "pwrite64", "write"):
            self.hit("writes", self.where(cx, node))
            if ev[1] == "write":
                e.report(cx, node, "a part is persisted without its offset", st)
                return
            fd, b, n, o = ev[2][:4]
            p = self.opened(st, fd)
            if p is not None and not is_param(p, 0):
                e.report(cx, node, "a part of a write is persisted to another file", st)
            if not self.every(st, lambda v: on(v, "is") and on(v, "occ")):
                e.report(cx, node, "a part of a write can be persisted that is not the fault's occurrence", st)
            buf = mk("param", 1, self.pname(e, 1))
            boff = padd(b, buf, -1)
            out = next((x for x in reversed(st.loops) if self.out_loop(e, st, x)), None)
            if out is not None and out is not l:
                want = [elem_part(x, out[3]) for x in (boff, n, o)]
                if None not in want and want != [0, 1, 2]:
                    e.report(cx, node, "a part is persisted from, to or with the length of something else", st)
            elif l is not None:
                self.triple(e, st, cx, node, boff, n, o)
                self.put(st, pushed=min(2, a.pushed + 1))
            self.put(st, ret=(ev[3], n), wrote=1)
        elif k in ("iterend", "loopbreak"):
            if ev[2] is not None and origin(ev[2]) == SF + "persist":
                if k == "iterend" and a.pushed != 1:
                    e.report(cx, node, "a selected part is not persisted exactly once", st)
                if k == "loopbreak":
                    e.report(cx, node, "not all selected parts are persisted", st)
                self.full(e, st)
            elif self.out_loop(e, st, (cx.id, ev[1], ev[2], ev[3])):
                if st.auto.ret is None:
                    e.report(cx, node, "a selected part can be left out", st)
                if k == "loopbreak":
                    self.put(st, bad=1)
                self.full(e, st)
            elif self.table(ev[2]):
                if not a.cur and self.some(st, self.counts):
                    e.report(cx, node, "a write that a torn-op fault names can go uncounted", st)
                self.final(e, st, cx, node)
        elif k == "loopdone":
            if self.out_loop(e, st, (cx.id, ev[1], ev[2], ev[3])) or (a.wrote or not a.vecs) and ev[2] is not None and origin(ev[2]) == SF + "persist":
                self.put(st, done=1)
        elif k == "exit":
            self.final(e, st, cx, node)

    def out_loop(self, e, st, l):
        """the loop over what the persist loop gathered"""
        if l[3] is not None and any(P in st.auto.vecs for P in places_in(l[3])):
            return True
        return l[2] is not None and any(e.read(st, P) is l[2] for P in st.auto.vecs)

    def full(self, e, st):
        a = st.auto
        if a.ret is not None and a.ret is not True:
            self.put(st, bad=1)
        self.put(st, ret=None)

    def before(self, e, st, ix, l):
        """the running part comes before the selected one"""
        p = next((x for x in self.elems(st, l)), None)
        if p is None:
            return None
        return e.entail(st, LT(ix, padd(p, K(1), -1)))

    def elems(self, st, l):
        it = l[3]
        return [mk("kvit", it), mk("at", l[2], it)]

    def final(self, e, st, cx, node):
        a = st.auto
        on = self.on_
        if a.inc and not a.crash and not a.bad and self.some(st, lambda v: on(v, "is") and on(v, "occ") and (on(v, "sum") or not on(v, "bytes"))):
            if a.ret is not None and a.ret is not True:
                return
            e.report(cx, node, "the fault's occurrence can pass without its parts being persisted and a crash set up", st)

    def crash(self, e, st, cx, node, ev):
        Torn.crash(self, e, st, cx, node, ev)
        a = st.auto
        if not self.every(st, lambda v: self.on_(v, "is") and self.on_(v, "occ")):
            e.report(cx, node, "a crash is set up for a write that is not the fault's occurrence", st)
        elif a.bad or not a.done:
            e.report(cx, node, "a crash is set up although a selected part may not have been persisted completely", st)
        self.put(st, crash=1)


def places_in(t):
    return [x for x in sub(t) if x.k.startswith("P.")]


AK = namedtuple("AK", "seq split injected late")


class Asked(Rule):
    """the write handler hands every write to both kinds of torn faults"""
    name = "torn-consulted"
    init = AK(0, 0, 0, 0)
    NAMES = ("path", "buffer", "size", "offset")

    def __init__(self):
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or fn.id in (self.seq.id, self.spl.id)

    def on(self, e, st, cx, node, ev):
        a = st.auto
        k = ev[0]
        if k == "opaque" and ev[1] is not None:
            if ev[1].id in (self.seq.id, self.spl.id):
                for i, n in enumerate(self.NAMES):
                    if not is_param(ev[3][i], i) and ev[3][i].k != "opq":
                        e.report(cx, node, "torn-write faults are consulted with another %s than the write's" % n, st)
                which = "seq" if ev[1].id == self.seq.id else "split"
                self.count.setdefault("consultations", set()).add("%s %s" % (cx.fn.name, which))
                if getattr(a, which):
                    e.report(cx, node, "torn-write faults are consulted twice for one write", st)
                st.auto = a._replace(**{which: 1})
            elif ev[1].id in self.m.triggers and sval(ev[3][1]) == "after":
                if not a.late and not (a.seq and (a.split or a.injected)):
                    e.report(cx, node, "a write can reach its faults with timing 'after' without consulting the torn-write faults", st)
                st.auto = a._replace(late=1)
        elif k == "branch" and a.seq and not a.split:
            for t, val in atoms(ev[1], ev[2]):
                while t.k == "eq" and isk(t.a[1]) and kval(t.a[1]) == 0:
                    t, val = t.a[0], not val
                if t.k == "call" and val:
                    st.auto = a._replace(injected=1)
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if not negative(e, st, ev[1]) and not (a.seq and (a.split or a.injected)):
                e.report(cx, node, "a write can succeed without consulting the torn-write faults", st)


class Ends(Rule):
    """a sync ends the running sequence of writes"""
    name = "sequence-end"
    V = Vals(("is", "op", "pend", "same"))
    init = (V.all, 0, 0, 0, 0)      # valuations, table searched, counter of this fault reset, pending forgotten, reset in this iteration

    def __init__(self):
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers

    def table(self, c):
        return c is not None and c.k == "at" and is_param(c.a[1], 0) and any(is_fld(x, self.m.f["faults"]) for x in sub(c.a[0]))

    def atom(self, st, t):
        if t.k == "eq":
            x, y = t.a[0], t.a[1]
            if isk(x):
                x, y = y, x
            null = isk(y) and kval(y) is None
            it = next((l[3] for l in st.loops if self.table(l[2])), None)
            if null and x.k == "op" and x.a[0] == "dyncast" and it is not None and is_element(x.a[1], it) and "ReorderF" in show(x.a[2]):
                return ("is", False)
            if null and is_fld(x, self.m.f["pending"]):
                return ("pend", False)
            if is_fld(x, RF + "op") and isk(y) and kval(y) == "write":
                return ("op", True)
            for p, q in ((x, y), (y, x)):
                if is_fld(p, "lazyfs::Write::path") and is_param(q, 0):
                    return ("same", True)
            if isk(y) and kval(y) == 0 and self.cmp(x):
                return ("same", True)
        return None

    def cmp(self, t):
        return t.k in ("ext", "lib") and "strcmp" in show(t) and any(is_fld(z, "lazyfs::Write::path") for z in sub(t)) and any(is_param(z, 0) for z in sub(t))

    def on(self, e, st, cx, node, ev):
        vals, done, now, gone, _ = st.auto
        k = ev[0]
        V = self.V
        if not vals:
            st.dead = True
            return
        if k == "iter" and self.table(ev[2]):
            vals, now = V.forget(vals, ("is", "op")), 0
        elif k == "branch":
            vals = V.filter(vals, ev[1], ev[2], lambda t: self.atom(st, t))
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "has" and not val and is_param(t.a[1], 0) and any(is_fld(x, self.m.f["faults"]) for x in sub(t.a[0])):
                    done = 1
            if not vals:
                st.dead = True
        elif k == "store" and ev[1].k == "P.fld":
            f = ev[1].a[1]
            if f == RF + "counter":
                self.count.setdefault("restarts", set()).add("%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if not (isk(ev[2]) and kval(ev[2]) == 0):
                    e.report(cx, node, "a sync does not restart the count of writes at zero", st)
                if not all(V.on(v, "is") and V.on(v, "op") for v in vals):
                    e.report(cx, node, "a sync restarts the count of a fault that counts something else", st)
                now = 1
            elif f in (RF + "group_counter", SF + "counter", "faults::ClearF::counter"):
                e.report(cx, node, "a sync changes the count of %s" % ("sequences" if "group" in f else "another fault"), st)
            elif f == self.m.f["pending"]:
                if not (isk(ev[2]) and kval(ev[2]) is None):
                    e.report(cx, node, "a sync keeps a write for later", st)
                if not all(V.on(v, "pend") and V.on(v, "same") or not V.on(v, "pend") for v in vals):
                    e.report(cx, node, "a sync forgets the kept write of another file", st)
                gone = 1
        elif k in ("iterend", "loopbreak") and self.table(ev[2]):
            if not now and any(V.on(v, "is") and V.on(v, "op") for v in vals):
                e.report(cx, node, "a sync can leave the count of writes of its file running", st)
            if k == "loopbreak" and not now:
                e.report(cx, node, "a sync stops looking for the faults of its file", st)
            if k == "loopbreak":
                done = 1
            vals, now = V.forget(vals, ("is", "op")), 0
        elif k == "loopdone" and self.table(ev[2]):
            done = 1
        elif k == "exit" and not negative(e, st, ev[1]):
            self.count["syncs"] = self.count.get("syncs", 0) + 1
            if not done:
                e.report(cx, node, "a sync can succeed without restarting the count of writes of its file", st)
            if not gone and any(V.on(v, "pend") and V.on(v, "same") for v in vals):
                e.report(cx, node, "a sync can succeed with the kept first write of its file still kept", st)
        st.auto = (vals, done, now, gone, 0)


def owners(m, o):
    """the counts of torn faults and the kept write change only in the functions judged here"""
    fields = {RF + "counter", RF + "group_counter", SF + "counter", m.f["pending"]}
    seen = reachable(m, [f for n, f in m.handlers.items() if n not in ("write", "fsync")] + [m.worker, m.crash_trigger, m.clear_trigger],
                     stop={m.handlers["write"].id, m.handlers["fsync"].id})
    for f in (m.p.fns[i] for i in seen):
        o.fns.add(f.q)
        own = (f.cls or "").split("::")[-1]
        if own and f.name in (own, "~" + own):
            continue
        for x in walk(f.body):
            q = str(x.get("q", ""))
            if x.get("k") == "call" and ("atomic" in q or "__atomic" in q) and q.split("::")[-1] in ("store", "fetch_add", "fetch_sub", "exchange", "operator++", "operator=", "operator+=", "operator--", "operator-="):
                if any(y.get("f") in fields for y in walk(x)):
                    o.report("torn-owners", m.p.rel(f.file), x.get("l", f.line), f.q, "the count of a torn-write fault changes outside writes and syncs")
            elif x.get("k") in ("bin", "assign") and x.get("op", "") == "=" and isinstance(x.get("l"), dict) and x["l"].get("f") in fields:
                o.report("torn-owners", m.p.rel(f.file), f.line, f.q, "the kept write changes outside writes and syncs")
    o.hit("functions searched", len(seen))



class C15(Prop):
    minimum = {"loops": 2, "firings": 2, "returns": 2}
    rule_text = ("Every path of the two functions that consult installed faults, as an automaton over the set of valuations (fault matches operation, timing, paths, occurrence) that the "
                 "branches taken leave possible: a fault fires only where all of them make it match, is passed over only where none does, counts each matching operation "
                 "exactly once with timing 'before', and firing is report, then SIGKILL to this process or clearing; the search visits every installed fault. No other "
                 "function reachable from operations or commands ends the process.")

    def jobs(self, m, tier):
        rep = m.command("command_unsynced_data_report", "report_unsynced_data")
        clr = m.command("command_fault_clear_cache", "clear_all_cache")
        CrashFire.report = ClearFire.report = rep
        CrashFire.clear = ClearFire.clear = clr
        return [Job("crash faults", CrashFire, m.crash_trigger), Job("clear faults", ClearFire, m.clear_trigger), PyJob("process end", enders)]


class C20(Prop):
    minimum = {"counts": 2, "writes": 2, "crashes": 2, "returns": 2, "consultations": 2, "restarts": 1, "syncs": 1}
    rule_text = ("Every path of the two functions that inject torn writes, as automata over the valuations of the conditions involved (fault found, occurrence reached, write "
                 "selected, first, second, last, sequence chosen, write kept) that the branches taken leave possible: each write is counted once; exactly the selected "
                 "parts or writes are persisted, at the occurrence only, with symbolic agreement of buffer, length and offset; the crash is set up exactly after the last of "
                 "them was written completely. Every path of write consults both before its 'after' faults; every path of fsync ends the sequence.")

    def jobs(self, m, tier):
        Torn.adder = m.find_fn(("lazyfs::LazyFS::add_crash_fault",), None, "add_crash_fault")
        seq = m.find_fn(("lazyfs::LazyFS::persist_write",), None, "persist_write")
        spl = m.find_fn(("lazyfs::LazyFS::split_write",), None, "split_write")
        Asked.seq, Asked.spl = seq, spl
        return [Job("torn-seq", Seq, seq), Job("torn-op", Split, spl), Job("write", Asked, m.handlers["write"]), Job("fsync", Ends, m.handlers["fsync"]),
                PyJob("owners", owners)]


PROPS = {"C15": C15(), "C20": C20()}
