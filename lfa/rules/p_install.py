"""C16, installing side: what validation demands, what is put into the table of faults."""
from collections import namedtuple
from ..flow import Rule
from ..model import *
from ..terms import *
from .p_ops import sub
from .p_cmds import PUSH, GONE

# ------------------------------------------------------------------------------------------------ validators
V = namedtuple("V", "known cur err")
# known: conditions established true/false ((name, bool), ...);  cur: those of the running element;  err: errors noted

LISTS = ("persist", "parts_bytes")
DEMANDS = {
    "ReorderF": (("op", "occurrence", "persist"), ()),
    "SplitWriteF": (("occurrence", "persist", "parts", "parts_bytes", "defined"), ()),
    "ClearF": (("op", "timing", "occurrence", "paths"), ()),
}


def base(t):
    """name of the parameter or field a value comes from"""
    while t is not None and hasattr(t, "k"):
        if t.k == "param":
            return next((x for x in t.a if isinstance(x, str)), None)
        if t.k in ("ld", "gl", "proj"):
            q = next((x for x in t.a if isinstance(x, str)), None)
            return q.split("::")[-1] if q else None
        if t.k in ("size", "count", "kvit", "ikey", "it", "lib", "get", "at"):
            t = next((x for x in t.a if hasattr(x, "k")), None)
            continue
        return None
    return None


class Validate(Rule):
    """errors are returned exactly when a demand is not met"""
    name = "validate"
    init = V((), (), 0)

    def __init__(self, what):
        self.what = what
        self.count = {}

    def cls(self, e, st, t):
        if t.k in ("size", "count", "param") and base(t) in ("parts", "parts_bytes"):
            return "nparts"
        if t.k == "ld" and base(t) == "parts":
            return "nparts"
        return None

    def conds(self, e, st, t, val):
        """[(name, is the demand met)] a condition decides"""
        b = [base(x) for x in t.a if hasattr(x, "k")]
        out = []
        if t.k == "eq":
            x, y = t.a
            if isk(x):
                x, y = y, x
            n = base(x)
            if isk(y) and isinstance(kval(y), str):
                s = kval(y)
                if n == "op" and self.what == "ReorderF" and s == "write":
                    out.append(("op", val))
                elif n == "timing" and s in ("before", "after"):
                    out.append(("timing" if val else "not " + s, True))
                elif n in ("from", "to") and s == "none":
                    out.append((n, not val))
            elif "nullopt" in show(t):
                n = next((q for q in ("parts_bytes", "parts") if q == base(x) or q == base(y)), None)
                if n:
                    out.append(("has " + n, not val))
        elif t.k == "has" and len(t.a) > 1 and base(t.a[1]) == "op":
            out.append(("multi" if "multi" in str(base(t.a[0])) else "op", val))
        elif t.k == "lt0":
            q, c = t.a
            if q.k != "poly":
                n = base(q)
                el = q.k in ("kvit", "ikey", "at")
                lo, hi, ne = e.bounds(st, q)
                if n in ("occurrence", "parts") + LISTS and (el or q.k not in ("size", "count")):
                    if lo is not None and lo >= 1:
                        out.append((n + ("+" if el else ""), True))
                    elif hi is not None and hi <= 0:
                        out.append((n + ("+" if el else ""), False))
            else:
                xs = [x for x in sub(q) if x.k in ("kvit", "ikey") and base(x) == "persist"]
                if xs and any(e.klass(st, x) == "nparts" for x in sub(q)):
                    el, np = xs[0], next(x for x in sub(q) if e.klass(st, x) == "nparts")
                    r = e.entail(st, LT(np, el))
                    if r is not None:
                        out.append(("persist<=", not r))
        return out

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        if k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                for n, good in self.conds(e, st, t, val):
                    (cur, known) = (a.cur, a.known)
                    if n.endswith("+") or n == "persist<=":
                        cur = tuple(sorted(set(cur) | {(n, good)}))
                    else:
                        known = tuple(sorted(set(known) | {(n, good)}))
                    a = a._replace(cur=cur, known=known)
        elif k == "iter":
            a = a._replace(cur=())
        elif k == "iterend":
            n = base(ev[2])
            if n in LISTS:
                need = {(n + "+", True)} | ({("persist<=", True)} if n == "persist" and self.what == "SplitWriteF" else set())
                if not need <= set(a.cur):
                    a = a._replace(known=tuple(sorted(set(a.known) | {(n, False)} | ({("unchecked " + n, True)} if not any(not g for _, g in a.cur) else set()))))
            a = a._replace(cur=())
        elif k == "loopdone":
            n = base(ev[2])
            if n in LISTS and (n, False) not in a.known:
                a = a._replace(known=tuple(sorted(set(a.known) | {(n, True)})))
        elif k == "loopbreak":
            n = base(ev[2])
            if n in LISTS:
                a = a._replace(known=tuple(sorted(set(a.known) | {(n, False)})))
        elif k == "mut" and ev[2] in PUSH and ev[1].k == "P.var" and ev[3] and isk(ev[3][0]) and isinstance(kval(ev[3][0]), str):
            a = a._replace(err=1)
            self.count.setdefault("errors", set()).add("%s:%d" % (cx.fn.q, cx.cfg.nodes[node].l))
            st.auto = a
            if not self.broken(a):
                e.report(cx, node, "a valid %s fault is rejected (%s)" % (self.what, kval(ev[3][0])), st)
        elif k == "exit":
            self.count["verdicts"] = self.count.get("verdicts", 0) + 1
            if not a.err:
                miss = self.missing(a)
                if miss:
                    e.report(cx, node, "an invalid %s fault passes validation (%s)" % (self.what, ", ".join(miss)), st)
        st.auto = a

    def facts(self, a):
        d = {}
        for n, g in a.known:
            d[n] = g if d.get(n, g) == g else False
        return d

    def missing(self, a):
        d = self.facts(a)
        out = []
        for n in DEMANDS[self.what][0]:
            if n == "paths":
                mp = d.get("multi")
                if mp is None or not d.get("from") or (d.get("to") is not mp if d.get("to") is not None else True):
                    out.append("paths")
            elif n == "defined":
                if not d.get("has parts") and not d.get("has parts_bytes"):
                    out.append("neither parts nor parts_bytes")
            elif n in ("parts", "parts_bytes") and self.what == "SplitWriteF":
                if d.get("has " + n) is not False and not d.get(n):
                    out.append(n)
            elif not d.get(n):
                out.append(n)
        return out

    def broken(self, a):
        """a demand is known not to be met"""
        d = self.facts(a)
        if any(not g for n, g in a.cur):
            return True
        if self.what == "ClearF":
            if "not before" in d and "not after" in d and "timing" not in d:
                return True
            if d.get("from") is False or d.get("multi") is not None and d.get("to") is not None and d["to"] != d["multi"]:
                return True
            return d.get("op") is False or d.get("occurrence") is False
        if self.what == "SplitWriteF" and d.get("has parts") is False and d.get("has parts_bytes") is False:
            return True
        return any(d.get(n) is False for n in DEMANDS[self.what][0])


# ------------------------------------------------------------------------------------------------ installers
I = namedtuple("I", "typ keys obj ok bad err dup dcur scan inst cargs vargs")
ZERO_I = I(None, (), 0, 0, 0, 0, 0, 0, 0, 0, None, None)
# typ: kind of fault;  keys: configuration keys present/absent;  obj: 1 made and owned here, 2 installed, 3 released
# ok / bad: the validation found nothing / something;  err: an error was noted;  dup: the file has such a fault already
# scan: the file's faults were looked through;  inst: times installed;  cargs / vargs: arguments of constructor and validation

KINDS = {"torn-seq": "ReorderF", "torn-op": "SplitWriteF", "clear-cache": "ClearF", "clear": "ClearF"}
NEED = {"ReorderF": ("file", "op", "occurrence", "persist"), "SplitWriteF": ("file", "occurrence", "persist"),
        "ClearF": ("timing", "op", "occurrence", "crash")}
CLASSES = ("ReorderF", "SplitWriteF", "ClearF")


class Install(Rule):
    """one unit (a command, an entry of the configuration): a fault object gets into the table exactly when it is valid"""
    name = "install"
    init = ZERO_I

    def __init__(self, config):
        self.config = config
        self.count = {}

    def opaque(self, e, fn):
        c = (fn.cls or "").split("::")[-1]
        return c in CLASSES or c == "Fault" or c == "Config" and self.config and fn.name != "load_config" and not self.touches(fn)

    def touches(self, fn):
        return any(str(x.get("cls", x.get("t", ""))).split("::")[-1] in CLASSES for x in walk(fn.body) if x.get("k") in ("new", "ctor")) or \
            any(str(x.get("q", "")).startswith("toml::") for x in walk(fn.body))

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def cls(self, e, st, t):
        if t in st.pc:
            return st.pc[t]
        if t.k == "new" and any(str(x).split("::")[-1] in CLASSES for x in t.a):
            return "obj"
        if t.k == "call" and str(next((x for x in t.a if isinstance(x, str)), "")).endswith("::validate"):
            return "verdict"
        if t.k == "find" and st.auto.bad != 2 and t.a[0].k in ("kvit", "ikey", "kv"):
            ks = [kval(x) for x in t.a if isk(x) and isinstance(kval(x), str)]
            return "key:" + ks[0] if len(ks) == 1 else None
        if t is TRUE or isk(t) and kval(t) == 1:
            return "T"
        if t is FALSE or isk(t) and kval(t) == 0 and isinstance(kval(t), int):
            return "F"
        return None

    def learn(self, st, t, c):
        st.pc = dict(st.pc)
        st.pc[t] = c

    def truth(self, e, st, t):
        if t.k == "not":
            r = self.truth(e, st, t.a[0])
            return None if r is None else not r
        if t.k == "eq" and isk(t.a[1]) and kval(t.a[1]) in (0, False, 1, True) and e.klass(st, t.a[0]) in ("T", "F"):
            return (e.klass(st, t.a[0]) == "T") == bool(kval(t.a[1]))
        if e.klass(st, t) in ("T", "F"):
            return e.klass(st, t) == "T"
        return None

    def unit_end(self, e, st, cx, node, val=None):
        a = st.auto
        if a.typ is None:
            return
        self.hit("units", a.typ)
        if a.obj == 1:
            e.report(cx, node, "a rejected %s fault is never released" % a.typ, st)
        if not a.inst:
            ks = dict(a.keys)
            why = a.bad or a.dup or a.dcur or any(not ks.get(k, True) for k in NEED[a.typ])
            if a.typ == "SplitWriteF" and self.config and ks.get("parts") == ks.get("parts_bytes"):
                why = True
            if not why:
                e.report(cx, node, "a valid %s fault can be dropped" % a.typ, st)
            elif not self.config and not a.bad and not a.err:
                e.report(cx, node, "a %s fault is rejected without an error" % a.typ, st)
        elif a.err and not self.config:
            e.report(cx, node, "a %s fault is installed and reported as an error" % a.typ, st)

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        self.cx = cx
        if k == "iter":
            if len(st.loops) == 1 and self.config:
                a = ZERO_I
            elif self.existing(e, ev):
                a = a._replace(dcur=0)
        elif k in ("iterend", "loopbreak"):
            if self.existing(e, ev):
                a = a._replace(dup=a.dup or a.dcur, dcur=0)
                if a.dup:
                    a = a._replace(keys=(), cargs=None, vargs=None)
                if k == "loopbreak" and not a.dup:
                    a = a._replace(scan=-1)
            elif self.config and (not st.loops or (st.loops[0][0], st.loops[0][1]) == (cx.id, ev[1])):
                st.auto = a
                self.unit_end(e, st, cx, node)
                a = ZERO_I
        elif k == "loopdone":
            if self.existing(e, ev) and a.scan == 0:
                a = a._replace(scan=1)
        elif k == "branch":
            if ev[1] in (TRUE, FALSE) and a.typ and not a.scan and self.config and any(v.k == "il" and not v.a for x, v in st.env.items() if x[0] == cx.id):
                a = a._replace(scan=2)      # decided by a table known to be empty
            for t, val in atoms(ev[1], ev[2]):
                r = self.truth(e, st, t)
                if r is not None and r != val:
                    st.dead = True
                    return
                a = self.fact(e, st, a, t, val)
        elif k == "new" and ev[1].k == "new" and e.klass(st, ev[1]) == "obj":
            if a.obj == 1:
                e.report(cx, node, "the %s fault made before is never released" % a.typ, st)
            c = next(str(x).split("::")[-1] for x in ev[1].a if str(x).split("::")[-1] in CLASSES)
            if a.typ not in (None, c):
                e.report(cx, node, "a %s fault is made for an entry describing a %s fault" % (c, a.typ), st)
            a = a._replace(typ=c, obj=1)
            self.hit("faults made", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
        elif k == "opaque":
            a = self.call(e, st, cx, node, ev, a)
        elif k == "delete":
            if e.klass(st, ev[1]) == "obj":
                if a.obj == 2:
                    e.report(cx, node, "an installed %s fault is released" % a.typ, st)
                a = a._replace(obj=3)
        elif k == "mut":
            a = self.mut(e, st, cx, node, ev, a)
        elif k == "exit":
            if not self.config:
                st.auto = a
                self.unit_end(e, st, cx, node, ev[1])
        st.auto = a

    def existing(self, e, ev):
        """a loop over the faults a file already has"""
        cx = self.cx
        l = (cx.fn.id, cx.cfg.nodes[ev[1]].l)
        if not hasattr(self, "_lp"):
            dyn = lambda x: any(y.get("k") == "dyncast" for y in walk(x))
            loops = lambda x: [y for y in walk(x) if y.get("s") in ("for", "rfor", "while", "do")]
            self._lp = {(f.id, x.get("l")) for f in self.m.p.fns.values() if f.body is not None for x in loops(f.body)
                        if dyn(x) and not any(y is not x and dyn(y) for y in loops(x))}
        return l in self._lp or ev[2] is not None and ev[2].k == "at"

    def fact(self, e, st, a, t, val):
        if t.k == "has" and not val and a.typ and not any(x.k in ("find", "kvit", "lib") for x in sub(t.a[0])):
            return a._replace(scan=2) if a.scan == 0 else a
        if t.k == "has" and isk(t.a[-1]) and isinstance(kval(t.a[-1]), str):
            d = dict(a.keys)
            key = kval(t.a[-1])
            if a.bad == 2 and not key.startswith("parts"):
                return a
            if not val and key in NEED.get(a.typ, ()):
                st.pc = {x: c for x, c in st.pc.items() if not c.startswith("key:")}
                return a._replace(bad=2, keys=tuple(x for x in a.keys if x[0].startswith("parts")))
            if key not in NEED.get(a.typ, ()) and key not in ("parts", "parts_bytes"):
                return a
            d[key] = val
            return a._replace(keys=tuple(sorted(d.items())))
        if t.k == "eq" and val and isk(t.a[1]) and kval(t.a[1]) in KINDS and e.klass(st, t.a[0]) == "key:type":
            return a._replace(typ=KINDS[kval(t.a[1])])
        if t.k == "empty" and e.klass(st, t.a[0]) == "verdict":
            return a._replace(ok=1) if val else a._replace(bad=max(a.bad, 1), keys=(), cargs=None, vargs=None)
        if t.k == "eq" and any(x is NULL for x in t.a) and any("dyncast" in x.a for y in t.a for x in sub(y) if x.k == "op"):
            s = show(t)
            if a.typ and a.typ in s:
                if not val:
                    return a._replace(dcur=1)
        elif a.typ == "ReorderF" and t.k == "eq" and a.dcur and not val and any(base(x) == "op" or "op" == str(getattr(x, "a", ("",))[-1]).split("::")[-1] for x in t.a):
            return a._replace(dcur=0)
        elif a.typ == "ReorderF" and t.k == "eq" and a.dcur and not val and any("::op" in str(y) for x in sub(t) for y in x.a if isinstance(y, str)):
            return a._replace(dcur=0)
        return a

    def call(self, e, st, cx, node, ev, a):
        fn, args = ev[1], [x for x in (ev[3] if len(ev) > 3 else ()) if hasattr(x, "k")]
        c = (fn.cls or "").split("::")[-1]
        if c in CLASSES and fn.name == c:
            for p, x in zip(fn.ps, args):
                kc = e.klass(st, x)
                if self.config and p["n"] in NEED[c] and (isk(x) or kc in ("T", "F")) and a.typ == c and a.bad != 2:
                    e.report(cx, node, "the %s of a %s fault is not that of its entry" % (p["n"], c), st)
                if kc and kc.startswith("key:") and kc[4:] != p["n"]:
                    e.report(cx, node, "the %s of a %s fault is taken from '%s'" % (p["n"], c, kc[4:]), st)
                if c == "ReorderF" and p["n"] == "persist" and kc != "sorted" and self.unsorted():
                    e.report(cx, node, "the writes to persist of a torn-seq fault are not sorted", st)
            a = a._replace(cargs=tuple(args) if c == "SplitWriteF" else None)
        elif c in CLASSES and fn.name == "validate":
            self.hit("validations", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
            a = a._replace(typ=a.typ or c, vargs=tuple(args) if args else ("self",))
            if a.typ != c:
                e.report(cx, node, "a %s fault is validated as a %s fault" % (a.typ, c), st)
        return a

    def unsorted(self):
        if not hasattr(self, "_us"):
            self._us = not any(str(x.get("q", "")).endswith("sort") for f in self.m.p.fns.values() if f.body is not None and "ReorderF" in (f.cls or "")
                               for x in walk(f.body))
        return self._us

    def mut(self, e, st, cx, node, ev, a):
        P, meth, args = ev[1], ev[2], ev[3]
        if meth.endswith("sort"):
            self.learn(st, ev[5] if len(ev) > 5 else ev[4], "sorted")
            return a
        if meth not in PUSH:
            return a
        if P.k == "P.var" and args and isk(args[0]) and isinstance(kval(args[0]), str):
            return a if self.config else a._replace(err=1)
        if not any(e.klass(st, x) == "obj" for y in args if hasattr(y, "k") for x in sub(y)):
            if meth in ("[]=", "op[]=") and args and hasattr(args[0], "k"):
                self.file_key(e, st, cx, node, args[0], a)
            return a
        self.hit("installations", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
        ks = dict(a.keys)
        if a.inst:
            e.report(cx, node, "a %s fault is installed twice" % a.typ, st)
        if a.obj == 3:
            e.report(cx, node, "a released %s fault is installed" % a.typ, st)
        if not a.ok or a.bad:
            e.report(cx, node, "a %s fault can be installed without having passed its validation" % a.typ, st)
        if a.cargs and a.vargs and a.vargs != ("self",) and not set(a.cargs) <= set(a.vargs):
            e.report(cx, node, "what is validated is not the %s fault installed" % a.typ, st)
        if a.dup or a.dcur:
            e.report(cx, node, "a second %s fault is installed for one file" % a.typ, st)
        if P.k != "P.var" and not a.scan > 0 and not self.fresh(P, args, ev[4] if len(ev) > 4 else None):
            e.report(cx, node, "a %s fault is added without a look at the file's other faults" % a.typ, st)
        if self.config:
            miss = [k for k in NEED.get(a.typ, ()) if not ks.get(k)]
            if miss:
                e.report(cx, node, "a %s fault is installed although %s may be missing" % (a.typ, miss), st)
            if a.typ == "SplitWriteF" and ks.get("parts") is not None and ks.get("parts") == ks.get("parts_bytes"):
                e.report(cx, node, "a torn-op fault is installed with both or neither of parts and parts_bytes", st)
        if args and hasattr(args[0], "k"):
            t = args[0]
            self.file_key(e, st, cx, node, t.a[0] if t.k == "tup" and t.a else None, a)
        return a._replace(inst=1, obj=2, keys=(), cargs=None, vargs=None)

    def fresh(self, P, args, old):
        """a whole new entry of the table"""
        if old is not None and hasattr(old, "k") and (old.k == "il" and not old.a or old.k == "at" and old.a[0].k == "il" and not old.a[0].a):
            return True
        return args and hasattr(args[0], "k") and args[0].k == "tup"

    def file_key(self, e, st, cx, node, t, a):
        if t is None or a.typ is None:
            return
        c = e.klass(st, t)
        if c and c.startswith("key:") and c not in (("key:from",) if a.typ == "ClearF" else ("key:file",)):
            e.report(cx, node, "a %s fault is installed for the '%s' of the entry" % (a.typ, c[4:]), st)
        elif t.k == "param" and base(t) not in ("path", "file") and not self.config:
            e.report(cx, node, "a %s fault is installed for its '%s'" % (a.typ, base(t)), st)


class Crash(Rule):
    """add_crash_fault: one entry, in the table of its timing and operation, with both expressions"""
    name = "crash-install"
    init = (0, ())      # entries made, (timing, value) facts

    def __init__(self):
        self.count = {}

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        n, facts = st.auto
        if k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "eq" and isk(t.a[1]) and kval(t.a[1]) in ("before", "after"):
                    facts = tuple(sorted(set(facts) | {(kval(t.a[1]), val)}))
        elif k == "mut" and ev[2] in GONE and "crash" in show(ev[1]) and ev[1].k != "P.var":
            e.report(cx, node, "installing a crash fault drops others (%s)" % ev[2], st)
        elif k == "mut" and ev[2] in PUSH:
            s = show(ev[1])
            which = "before" if "before" in s else "after" if "after" in s else None
            if which is None or "crash" not in s:
                return
            self.count["entries"] = self.count.get("entries", 0) + 1
            other = "after" if which == "before" else "before"
            if not ((which, True) in facts or (other, False) in facts):
                e.report(cx, node, "a crash fault gets into the table of timing '%s' without having it" % which, st)
            names = {base(x) for y in (ev[1],) + tuple(ev[3]) if hasattr(y, "k") for x in sub(y) if x.k == "param"}
            for want in ("oper", "from", "to"):
                if not any(w and want in w and not (want == "to" and "oper" in w) for w in names):
                    e.report(cx, node, "a crash fault is recorded without its %s" % {"oper": "operation", "from": "'from_rgx'", "to": "'to_rgx'"}[want], st)
            n += 1
            if n > 1:
                e.report(cx, node, "one crash fault is recorded twice", st)
                n = 1
        elif k == "exit":
            if n == 0:
                e.report(cx, node, "a crash fault can be dropped", st)
        st.auto = (n, facts)


# ------------------------------------------------------------------------------------------------ tables and constructors
OPS = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"}
TWO = {"rename", "link", "symlink"}


def strings(x):
    return {y["v"] for y in walk(x) if y.get("k") == "str" and "v" in y}


def tables(m, o):
    """the operations faults can name, and those with two paths, are the documented ones"""
    for name, want in (("allow_crash_fs_operations", OPS), ("fs_op_multi_path", TWO)):
        for x, where in [(x, c["file"]) for c in m.p.classes.values() for x in c["fields"]] + [(x, x.get("file", "")) for x in m.p.globals.values()]:
            q = x.get("f") or x.get("q")
            if not q.endswith("::" + name) or not x.get("e"):
                continue
            o.hit("operation tables")
            got = strings(x["e"])
            if got != want:
                o.report("tables", m.p.rel(where), x.get("l", 0), q, "the operations in %s differ from the documented ones by %s" % (name, sorted(got ^ want)))


class Keep(Rule):
    """a fault object keeps every argument of its constructor, under its own name if it has one"""
    name = "constructor"
    init = ()

    def __init__(self):
        self.count = {}

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        if k in ("store", "mut"):
            f = pfield(ev[1])
            ts = [ev[2]] if k == "store" else list(ev[3]) if ev[2] in ("=", "op=", "assign", "store", "swap") or ev[2].endswith("=") else None
            if f and ts is not None:
                from_ = tuple(sorted({base(x) for t in ts if hasattr(t, "k") for x in sub(t) if x.k == "param" and base(x)}))
                st.auto = tuple(sorted([x for x in st.auto if x[0] != f] + [(f, from_)]))
        elif k == "exit":
            self.count["constructors"] = self.count.get("constructors", 0) + 1
            root = self.root
            fields = {x["f"].split("::")[-1]: x["f"] for x in self.m.p.classes[root.cls]["fields"]} if root.cls in self.m.p.classes else {}
            got = dict(st.auto)
            for p in root.ps:
                n = p["n"]
                if n in fields and n not in got.get(fields[n], ()) or not any(n in v for v in got.values()):
                    e.report(cx, node, "the '%s' given to a %s fault is not kept" % (n, root.cls.split("::")[-1]), st)


def keep_jobs(m):
    out = []
    from ..run import Job
    for f in m.p.fns.values():
        c = (f.cls or "").split("::")[-1]
        if c in CLASSES and f.name == c and f.body is not None and f.ps and len(f.ps) > 1:
            def mk_rule(f=f):
                r = Keep()
                r.root = f
                return r
            out.append(Job("keep:%s/%d" % (c, len(f.ps)), mk_rule, f))
    return out


PROPS = {}
