"""C24: the size, times and link count applications see are those their operations gave the file."""
from collections import namedtuple

from ..run import Prop, Job, PyJob
from ..flow import Rule
from ..model import *
from .p_ops import sub, fh_term

NAMES = {"size": "m_size", "atime": "m_atim", "mtime": "m_mtim", "ctime": "m_ctim", "nlinks": "m_nlinks"}
STAT = {"m_size": "stat::st_size", "m_atim": "stat::st_atim", "m_mtim": "stat::st_mtim", "m_ctim": "stat::st_ctim", "m_nlinks": "stat::st_nlink"}
WORD = {"m_size": "size", "m_atim": "access time", "m_mtim": "modification time", "m_ctim": "change time", "m_nlinks": "link count"}
TIMES = ("m_atim", "m_mtim", "m_ctim")
STATS = {"stat", "lstat", "fstat", "fstatat", "stat64", "lstat64"}
OMIT = 1073741822
# operations that may set a cached size or cached times after the file was first cached
SIZES = {"write", "truncate"}
TIMED = {"write", "truncate", "open", "create", "read", "utimens"}


def updaters(m):
    """functions that copy selected fields of one Metadata into a cached one"""
    u = getattr(m, "_updaters", None)
    if u is None:
        u = {}
        for f in m.p.fns.values():
            if f.body is None or not any("Metadata" in p["t"] for p in f.ps):
                continue
            if any(x.get("k") == "asg" and x["x"].get("k") == "mem" and x["x"].get("f") == m.f["m_size"] for x in walk(f.body)):
                u[f.id] = f
        m._updaters = u
    return u


def stat_fields(t):
    return {x.a[1] for x in sub(t) if x.k in ("ld", "proj") and len(x.a) > 1 and str(x.a[1]).startswith("stat::")}


Auto = namedtuple("Auto", "done fresh skip over unknown has none grows")


class Sizes(Rule):
    """what is stored in the cached size and times, and what getattr reports"""
    name = "cached-metadata"
    init = Auto(frozenset(), 0, 0, frozenset(), 0, None, 0, 0)

    def __init__(self, op):
        self.op = op
        self.count = {}
        self.clocks = {}

    def opaque(self, e, fn):
        h = self.m.handler_ids.get(fn.id)
        return fn.id in self.m.triggers or (h is not None and fn.id != e.root.fn.id) or fn.id in updaters(self.m) or \
            (fn.cls is not None and fn.cls.split("::")[-1] in ("CustomCacheEngine", "PageCacheEngine", "Page", "Data")) or \
            (fn.id not in self.m.handler_ids and fn.body is not None and any(x.get("f") in (self.m.f["faults"], self.m.f["pending"]) for x in walk(fn.body)))

    def cls(self, e, st, t):
        if t.k == "il" and t.a and all(isk(x) and isinstance(kval(x), str) for x in t.a):
            return t
        if t is TRUE or t is FALSE:
            return t
        if t.k == "has" and self.is_contents(t.a[0], e, st):
            return "cached"
        if self.is_contents(t):
            return "table"
        if t.k == "ite" or self.old(t):
            return ("size", t.n) if t.sz < 40 else None
        return None

    def key(self, e, st):
        # what is about to be stored is not merged with another value
        ms = self.m.f["m_size"]
        return tuple(sorted((P.n, v.n) for P, v in st.mem.items() if P.k == "P.fld" and P.a[1] == ms and v.k != "phi" and
                            any(x.k == "P.var" for x in sub(P))))

    def forks(self, e, st, cx, node, name, av):
        return name in STATS

    def old(self, t):
        """the size the cache has for a file"""
        return t.k in ("ld", "proj") and len(t.a) > 1 and t.a[1] in (self.m.f["m_size"], "stat::st_size")

    def is_contents(self, t, e=None, st=None):
        return t.k == "ld" and t.a[1] == self.m.f["contents"] or t.k == "phi" and e is not None and e.klass(st, t) == "table"

    def par(self, e, n):
        return mk("param", n, e.root.fn.ps[n]["n"])

    def cached(self, e, st):
        """True, False or None: what the last look at the cache found"""
        return st.auto.has

    def olds(self, e, st):
        out = set()
        for v in st.env.values():
            if self.old(v) or e.klass(st, v) is not None and v.k == "phi":
                out.add(v)
        for t in st.facts:
            for x in sub(t):
                if self.old(x) or x.k == "phi":
                    out.add(x)
        return out

    def nosize(self, e, st):
        """the cache was found to have no metadata for the file"""
        return st.auto.none or any(v and t.k == "eq" and any(x is NULL for x in t.a) and
                                   any(x.k in ("at", "phi") and self.is_contents(x.a[0] if x.k == "at" else x, e, st) for y in t.a for x in sub(y))
                                   for t, v in st.facts.items())

    def grows(self, e, st, v, end):
        return any(x is not v and e.entail(st, LT(end, x)) is False for x in self.olds(e, st))

    # ---- values
    def size_bad(self, e, st, v):
        op = self.op
        if v.k == "ite":
            for x, c in ((v.a[1], True), (v.a[2], False)):
                for s in e.assume(st.copy(), v.a[0], c):
                    bad = self.size_bad(e, s, x)
                    if bad:
                        return bad
            return None
        if v.k == "max":
            end = padd(self.par(e, 2), self.par(e, 3)) if op == "write" else None
            return None if op == "write" and end in v.a else "is %s" % show(v) if op in ("write", "truncate") else None
        if op == "truncate":
            return None if v is self.par(e, 1) or e.entail(st, EQ(v, self.par(e, 1))) is True or not plain(v) else \
                "is %s, not the size requested" % show(v)
        if op == "write":
            end = padd(self.par(e, 2), self.par(e, 3))
            if v is end or e.entail(st, EQ(v, end)) is True:
                if st.auto.grows or self.grows(e, st, v, end):
                    return None
                if self.nosize(e, st) and e.entail(st, LT(end, K(1))) is False:
                    return None             # the cache had no size for the file
                return "is the end of the write, also where the file was longer"
            if e.entail(st, LT(v, end)) is False:
                return None if self.old(v) or v.k == "phi" or v is K(0) and self.nosize(e, st) else "is %s" % show(v)
            if isk(v) or v.k == "poly" or v.k == "param" or self.old(v) or v.k == "phi":
                return "is %s, which can be less than the end of the write" % show(v)
            return None
        if op in ("getattr", "read", "open", "create"):
            if not st.auto.fresh and op in ("getattr", "read"):
                return "is changed although the file was cached already"
            if "stat::st_size" in stat_fields(v) or not plain(v) or st.auto.skip:
                return None
            return "is %s, not the size of the backing file" % show(v)
        return "is changed"

    def time_bad(self, e, st, f, v, whole=True):
        op = self.op
        if v.k == "proj" and v.a[0].k == "agg" or v.k == "agg":
            return "is not set to anything"
        sf = stat_fields(v)
        bad = [x for x in sf if x in STAT.values() and x != STAT[f]]
        if bad and STAT[f] not in sf:
            return "is the backing file's %s" % bad[0].split("::")[-1]
        if any(x.k in ("ld", "proj") and len(x.a) > 1 and x.a[1] in [self.m.f[y] for y in TIMES if y != f] for x in sub(v)):
            return "is taken from another time (%s)" % show(v)
        if op == "getattr":
            if not st.auto.fresh:
                return "is changed although the file was cached already"
        elif op not in TIMED:
            return "is changed"
        elif op == "utimens":
            idx = {0 if f == "m_atim" else 1}
            for x in sub(v):
                if x.k == "at" and x.a[0] is self.par(e, 1) and isk(x.a[1]) and kval(x.a[1]) not in idx and f != "m_ctim":
                    return "is the other of the two times given"
            if isk(v) or (v.k == "out" and v.a[0] in self.clocks and f != "m_ctim"):
                return "is not the time given"
        if v.k == "out" and v.a[0] in self.clocks and self.clocks[v.a[0]] not in (0, 5, None):
            return "is not the time of day"
        return None

    def update(self, e, st, cx, node, vals):
        """vals: field key -> value"""
        a = st.auto
        for f, v in sorted(vals.items()):
            self.count.setdefault("metadata updates", set()).add("%s: %s" % (self.op, WORD[f]))
            if f == "m_nlinks":
                if self.op == "getattr" and "stat::st_nlink" not in stat_fields(v) and not isk(v) and plain(v):
                    e.report(cx, node, "the cached link count of a file newly cached is %s" % show(v), st)
                elif self.op == "getattr" and isk(v):
                    e.report(cx, node, "the cached link count of a file newly cached is %s" % show(v), st)
                continue
            bad = self.size_bad(e, st, v) if f == "m_size" else self.time_bad(e, st, f, v)
            if bad:
                e.report(cx, node, "'%s': the cached %s %s" % (self.op, WORD[f], bad), st)
        st.auto = a._replace(done=a.done | frozenset(vals))

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        a = st.auto
        if k == "opaque" and ev[1].id in updaters(m):
            fn, args = ev[1], ev[3]
            src, lst = None, None
            for n, p in enumerate(fn.ps):
                if "Metadata" in p["t"]:
                    src = args[n]
                elif args[n].k == "il" or "vector" in p["t"] or "list" in p["t"] or "set" in p["t"]:
                    lst = args[n]
            c = lst if lst is None or lst.k != "phi" else e.klass(st, lst)
            if src is None or c is None or getattr(c, "k", None) != "il" or not all(isk(x) and kval(x) in NAMES for x in c.a):
                st.auto = a._replace(unknown=1)
                return
            vals = {}
            for x in c.a:
                f = NAMES[kval(x)]
                vals[f] = e.read(st, mk("P.fld", src, m.f[f]))
            self.update(e, st, cx, node, vals)
        elif k == "opaque" and m.handler_ids.get(ev[1].id) is not None:
            st.auto = a._replace(fresh=0)
        elif k == "store" and ev[1].k == "P.fld":
            P = ev[1]
            for f in NAMES.values():
                if P.a[1] == m.f[f] and not any(x.k in ("P.var", "new") for x in sub(P)):
                    self.update(e, st, cx, node, {f: ev[2]})
                    return
            if self.op == "write" and P.a[1] == m.f["m_size"]:
                end = padd(self.par(e, 2), self.par(e, 3))
                st.auto = a._replace(grows=int(ev[2] is end and self.grows(e, st, ev[2], end)))
            if self.op == "getattr":
                self.report_store(e, st, cx, node, P, ev[2])
        elif k == "mut" and ev[2] in ("insert", "emplace", "insert_or_assign", "try_emplace", "op[]=") and pfield(ev[1]) == m.f["contents"]:
            st.auto = a._replace(fresh=1)
        elif k == "store" and pfield(ev[1]) == m.f["contents"]:
            st.auto = a._replace(fresh=1)
        elif k == "ext" and ev[1] in ("clock_gettime", "timespec_get"):
            c = ev[2][0]
            self.clocks[ev[3].a[0]] = kval(c) if isk(c) else None
        elif k == "ext" and ev[1] in ("utimes", "utimensat", "futimens", "lutimes", "futimes") and self.op == "fsync":
            self.sync_times(e, st, cx, node, ev)
        elif k == "catch":
            st.auto = a._replace(has=False, fresh=1)
        elif k == "extres" and ev[1] in STATS and ev[4]:
            if self.op in ("utimens", "getattr", "read"):
                st.auto = a._replace(skip=1)
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "empty" and val and self.is_contents(t.a[0], e, st):
                    st.auto = st.auto._replace(has=False, fresh=1)
                if t.k == "has" and self.is_contents(t.a[0], e, st):
                    st.auto = st.auto._replace(has=val, fresh=st.auto.fresh if val else 1)
                if t.k == "eq" and val and any(x is NULL for x in t.a) and any(self.is_contents(x, e, st) or x.k == "ld" and x.a[1] == m.f["item_meta"]
                                                                              for y in t.a for x in sub(y)):
                    st.auto = st.auto._replace(has=False)
                    if self.op == "write" and any(x.k == "ld" and x.a[1] == m.f["item_meta"] for x in t.a):
                        st.auto = st.auto._replace(none=1)
                fl = {str(x.a[1]).split("::")[-1] for x in sub(t) if x.k in ("ld", "proj") and len(x.a) > 1}
                if "direct_io" in fl and (val != (t.k == "eq")):
                    st.auto = st.auto._replace(skip=1)
                if "st_mode" in fl and self.op in ("utimens", "getattr"):
                    reg = t.k == "eq" and any(isk(x) and kval(x) == 0o100000 for x in t.a)
                    if not reg or not val:
                        st.auto = st.auto._replace(skip=1)
                if self.op == "utimens" and t.k == "eq" and val and any(isk(x) and kval(x) == OMIT for x in t.a):
                    for x in t.a:
                        for y in sub(x):
                            if y.k == "at" and isk(y.a[1]) and kval(y.a[1]) in (0, 1):
                                f = "m_atim" if kval(y.a[1]) == 0 else "m_mtim"
                                st.auto = st.auto._replace(done=st.auto.done | {"omit:" + f})
        elif k == "exit":
            self.at_exit(e, st, cx, node, ev[1])

    # ---- getattr
    def report_store(self, e, st, cx, node, P, v):
        b, f = P.a
        part = None
        if b.k == "&" and b.a[0].k == "P.fld":
            part = f
            b, f = b.a[0].a
        if b is not self.par(e, 1) or not str(f).startswith("stat::"):
            return
        a = st.auto
        key = [k for k, s in STAT.items() if s == f]
        if f == "stat::st_blocks":
            st.auto = a._replace(over=a.over | {"blocks"})
            return
        if not key:
            e.report(cx, node, "getattr replaces the backing file's %s by %s" % (f.split("::")[-1], show(v)), st)
            return
        key = key[0]
        self.count.setdefault("reported fields", set()).add(WORD[key])
        want = self.m.f[key]
        flds = {x.a[1] for x in sub(v) if x.k in ("ld", "proj") and len(x.a) > 1}
        if want not in flds and (plain(v) or flds & {self.m.f[x] for x in NAMES.values()}):
            e.report(cx, node, "getattr reports %s as the %s of a cached file" % (show(v), WORD[key]), st)
        if part is not None and part.split("::")[-1] not in {str(x).split("::")[-1] for x in flds} and flds:
            e.report(cx, node, "getattr reports %s as %s of the %s" % (show(v), part.split("::")[-1], WORD[key]), st)
        if key == "m_size" and v is not None and not self.old(v) and v.k in ("poly", "op", "max", "min", "ite") and want in flds:
            e.report(cx, node, "getattr reports %s as the size of a cached file" % show(v), st)
        st.auto = a._replace(over=a.over | {(key, part.split("::")[-1] if part else "")})

    def covered(self, over, key):
        return (key, "") in over or ((key, "tv_sec") in over and (key, "tv_nsec") in over)

    # ---- end of the operation
    def at_exit(self, e, st, cx, node, val):
        a = st.auto
        if val is not None and negative(e, st, val):
            return
        c = self.cached(e, st)
        self.count["returns"] = self.count.get("returns", 0) + 1
        if self.op == "getattr":
            if a.skip or a.unknown:
                return
            if a.fresh:
                miss = [f for f in NAMES.values() if f not in a.done]
                if miss and (a.done or c):
                    e.report(cx, node, "the file is newly cached without its %s" % WORD[miss[0]], st)
                return
            miss = [f for f in NAMES.values() if not self.covered(a.over, f)]
            if a.over and miss:
                e.report(cx, node, "getattr does not report the cached %s although it reports other cached metadata" % WORD[miss[0]], st)
            elif a.over and "blocks" not in a.over:
                e.report(cx, node, "getattr does not report the blocks of the cached size", st)
            elif not a.over and c:
                e.report(cx, node, "getattr reports the backing file's size and times for a cached file", st)
        elif self.op in ("write", "truncate"):
            if a.skip or a.unknown or c is False:
                return
            for f in ("m_size", "m_mtim"):
                if f not in a.done:
                    e.report(cx, node, "'%s' leaves the cached %s as it was" % (self.op, WORD[f]), st)
        elif self.op == "utimens":
            if a.skip or a.unknown or c is False:
                return
            for f in ("m_atim", "m_mtim"):
                if f not in a.done and "omit:" + f not in a.done:
                    e.report(cx, node, "'utimens' leaves the cached %s as it was" % WORD[f], st)

    # ---- fsync
    def sync_times(self, e, st, cx, node, ev):
        arr = ev[2][1] if ev[1] in ("utimes", "lutimes", "futimes", "futimens") else ev[2][2]
        if arr is NULL:
            e.report(cx, node, "the synchronised file's times are set to the current time", st)
            return
        if arr.k != "&":
            return
        tag = "timeval" if ev[1].endswith("utimes") else "timespec"
        for n, f in ((0, "m_atim"), (1, "m_mtim")):
            P = mk("P.idx", arr, K(n))
            v = e.read(st, mk("P.fld", mk("&", P), tag + "::tv_sec"))
            flds = {x.a[1] for x in sub(v) if x.k in ("ld", "proj") and len(x.a) > 1}
            others = {self.m.f[x] for x in TIMES if x != f}
            self.count.setdefault("synchronised times", set()).add(WORD[f])
            if flds & others or isk(v):
                e.report(cx, node, "the synchronised file's %s is set to %s" % (WORD[f], show(v)), st)


def plain(t):
    return t.k in ("k", "param", "poly", "ld", "proj") and not any(x.k in ("opq", "phi", "lib", "out", "ext") for x in sub(t))


Upd = namedtuple("Upd", "want got")


class Updater(Rule):
    """each named field is copied to the cached field of that name"""
    name = "metadata-copy"
    init = Upd(None, None)

    def __init__(self):
        self.count = {}

    def cls(self, e, st, t):
        return None

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        if k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "eq" and val:
                    for x in t.a:
                        if isk(x) and kval(x) in NAMES:
                            st.auto = a = a._replace(want=NAMES[kval(x)], got=None)
                            self.count.setdefault("named fields", set()).add(kval(x))
        elif k == "store" and ev[1].k == "P.fld":
            for f in NAMES.values():
                if ev[1].a[1] == self.m.f[f] and not any(x.k == "P.var" for x in sub(ev[1])):
                    flds = {x.a[1] for x in sub(ev[2]) if x.k in ("ld", "proj") and len(x.a) > 1}
                    if a.want is not None and a.want != f:
                        e.report(cx, node, "the cached %s is changed where the %s is to be" % (WORD[f], WORD[a.want]), st)
                    elif self.m.f[f] not in flds and (flds or isk(ev[2])):
                        e.report(cx, node, "the cached %s is set to %s" % (WORD[f], show(ev[2])), st)
                    elif a.want == f and ev[2].k in ("ite", "max", "min", "poly", "op") and self.m.f[f] in flds:
                        e.report(cx, node, "the cached %s is set to %s" % (WORD[f], show(ev[2])), st)
                    elif a.want == f:
                        st.auto = a._replace(got=f)
        elif k in ("iterend", "loopbreak"):
            if a.want is not None and a.got != a.want:
                e.report(cx, node, "the %s named is not copied" % WORD[a.want], st)
            if k == "loopbreak" and not st_exhausted(ev):
                e.report(cx, node, "fields named after this one are not copied", st)
            st.auto = self.init


def st_exhausted(ev):
    return False


# ------------------------------------------------------------------------------------------------ widths
WIDE = ("i64", "u64")
SMALL = ("i32", "u32", "i16", "u16", "i8", "u8", "b")


def carrier(m, tainted, e):
    """the value of the expression is a size, an offset or seconds, or one of them plus or minus something"""
    k = e.get("k")
    if k == "mem":
        return e.get("f") == m.f["m_size"] or e.get("f") in ("stat::st_size", "timespec::tv_sec")
    if k == "var":
        return e["i"] in tainted
    if k == "bin" and e["op"] == "+":
        return carrier(m, tainted, e["x"]) or carrier(m, tainted, e["y"])
    if k == "bin" and e["op"] == "-":          # the difference of two is a length
        return carrier(m, tainted, e["x"]) and not carrier(m, tainted, e["y"])
    if k == "icast":
        return carrier(m, tainted, e["e"])
    if k == "cond":
        return carrier(m, tainted, e["x"]) or carrier(m, tainted, e["y"])
    if k == "call" and e.get("q") in ("std::max", "std::min"):
        return any(carrier(m, tainted, a) for a in e["a"])
    return False


def narrowings(m, tainted, e):
    k = e.get("k")
    if k == "icast":
        if e["fr"] in WIDE and e["to"] in SMALL and "cv" not in e and carrier(m, tainted, e["e"]):
            yield e
        kids = [e["e"]]
    elif k == "bin" and e["op"] in ("+", "-") or k == "cond":
        kids = [e["x"], e["y"]]
    elif k == "call" and e.get("q") in ("std::max", "std::min"):
        kids = e["a"]
    else:
        kids = []
    for x in kids:
        yield from narrowings(m, tainted, x)


def widths(m, o):
    """no size, offset or time of a file passes through a type that cannot hold it"""
    fns = [f for f in m.p.fns.values() if f.body is not None]
    taint = {f.id: set() for f in fns}
    for f in m.handlers.values():
        for p in f.ps:
            if p["t"] == "i64" and p["m"] == "v":
                taint[f.id].add(p["i"])
    def is_decl(x):
        return "e" in x and "i" in x and "n" in x and "k" not in x and isinstance(x["e"], dict)

    srcs = {}
    calls = {}
    for f in fns:
        for x in walk(f.body):
            if is_decl(x):
                srcs.setdefault((f.id, x["i"]), []).append(x["e"])
            elif x.get("k") == "asg" and x["x"].get("k") == "var" and x.get("op") == "=":
                srcs.setdefault((f.id, x["x"]["i"]), []).append(x["y"])
            elif x.get("k") == "call" and x.get("f") in taint and x["f"] not in m.handler_ids:
                calls.setdefault(f.id, []).append(x)
    changed = True
    while changed:
        changed = False
        for (fid, v), es in srcs.items():
            t = taint[fid]
            es = [x for x in es if x.get("k") not in ("int", "null") and "cv" not in x]
            # a variable that also holds other things (an offset within a block) is left out
            if v not in t and es and all(carrier(m, t, x) for x in es):
                t.add(v)
                changed = True
        for fid, cs in calls.items():
            for x in cs:
                g = m.p.fns[x["f"]]
                for p, a in zip(g.ps, x["a"]):
                    if p["m"] in ("v", "k") and p["t"] in WIDE and p["i"] not in taint[g.id] and carrier(m, taint[fid], a):
                        taint[g.id].add(p["i"])
                        changed = True
    for f in fns:
        t = taint[f.id]
        o.hit("wide variables", len(t))
        for x in walk(f.body):
            if is_decl(x):
                vals = [x["e"]]
            elif x.get("k") == "asg":
                vals = [x["y"]]
            elif x.get("k") == "call" and x.get("f") in taint:
                vals = x["a"]
            else:
                continue
            o.hit("values examined", len(vals))
            for s in vals:
                for c in narrowings(m, t, s):
                    o.fns.add(f.q)
                    o.report("width", m.p.rel(f.file), c.get("l", f.line), f.q, "a file size, offset or time is cut to %s" % c["to"])


class C24(Prop):
    minimum = {"metadata updates": 6, "reported fields": 5, "named fields": 5}
    rule_text = ("Over the interprocedural flow graph of every FUSE handler each write to a cached file's size or times is collected with the "
                 "value it stores (through the list of fields to copy, which is itself checked): a write stores the larger of the previous "
                 "size and its own end and the current time, a truncation the requested size, utimens the times given, a newly cached file "
                 "takes them from the backing file, and no other handler stores any. getattr overrides each reported field of a cached file "
                 "with the cached field of the same meaning. No size, offset or time passes through a type too narrow for it.")
    assumptions = ["the loop over the names of the fields to copy visits each of them", "clock_gettime gives the current time"]

    def jobs(self, m, tier):
        out = [Job(o, (lambda o=o: Sizes(o)), f) for o, f in sorted(m.handlers.items())]
        for f in updaters(m).values():
            out.append(Job("copy " + f.q, Updater, f))
        out.append(PyJob("widths", widths))
        return out


PROPS = {"C24": C24()}
