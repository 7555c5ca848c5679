"""C13: a path designates its file.  C12: cached content is discarded only where it must be, and then is."""
from collections import namedtuple
from ..run import Prop, Job
from ..flow import Rule
from ..model import *
from .p_ops import sub, chain_of, cachelib

N = namedtuple("N", "known done same cmp last disc regs past")
# known: per request path, mapped (True), unmapped (False) or None;  done: per path None | "erased" | ("set", class)
# same: the two paths name one file (True/False/None);  cmp: 0 none, 1 the two were compared or one does not exist
# last: link count found to be at most one and not yet acted on;  regs: the request path is (not) a regular file
ZERO_N = N((None, None), (None, None), None, 0, 0, 0, (None, None), 0)


def rep(t, i, v):
    return t[:i] + (v,) + t[i + 1:]


class Names(Rule):
    """shared part: classes of values (which file's identity a string is) and what is known of the request's paths"""
    init = ZERO_N

    def __init__(self, op):
        self.op = op
        self.count = {}
        self.stats = {}

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or (fn.id in self.m.handler_ids and fn.id != e.root.fn.id)

    def forks(self, e, st, cx, node, name, av):
        return name in ("lstat", "stat", "fstatat") and not cachelib(cx.fn)

    # classes: ("ino", i) identity of the file the i-th path names, "map" the path map, "none" the empty string
    def cls(self, e, st, t):
        k = t.k
        if k == "param":
            return ("path", t.a[0])
        if k == "k":
            return "none" if t.a[0] == "" and isinstance(t.a[0], str) else None
        if k in ("ld", "proj") and len(t.a) > 1 and t.a[1] == self.m.f["mapping"]:
            return "map"
        if k == "mv":
            return "map" if any(hasattr(x, "k") and e.klass(st, x) == "map" for x in t.a) else None
        if k == "at" and e.klass(st, t.a[0]) == "map":
            return ("ino", self.path(t.a[1]))
        if k == "kv" and e.klass(st, t.a[0]) == "map" and len(t.a) > 1:
            return ("ino", self.path(t.a[1]))
        if k in ("get", "proj") and len(t.a) > 1 and t.a[-1].k == "kv" if k == "get" else False:
            return e.klass(st, t.a[-1])
        if k == "lib" and t.a[0] == "to_string":
            cs = {("ino", self.statof(x)) for x in sub(t) if x.k in ("proj", "ld") and len(x.a) > 1 and str(x.a[1]).endswith("::st_ino")}
            if len(cs) == 1 and not any(x.k == "phi" and not self.inside(t, x) for x in sub(t)):
                return cs.pop()
        if k == "ite":
            a, b = e.klass(st, t.a[1]), e.klass(st, t.a[2])
            return a if a == b else None
        return None

    def statof(self, x):
        for y in sub(x):
            if y.k == "out" and y.a[0] in self.stats:
                return self.path(self.stats[y.a[0]])
        return 0 if self.op not in ("rename", "link") else "?"

    def inside(self, t, x):
        return any(y.k in ("proj", "ld") and len(y.a) > 1 and any(z is x for z in sub(y)) for y in sub(t))

    def path(self, t):
        return t.a[0] if t.k == "param" else "?"

    def idents(self, t):
        """a comparison of two files' numbers: which parts"""
        fs = {str(x.a[1]).split("::")[-1] for x in sub(t) if x.k in ("proj", "ld") and len(x.a) > 1} & {"st_ino", "st_dev"}
        n = 2 if not isk(t.a[1]) else len([mm for mm in poly_of(t.a[0]) if mm])
        return fs if n == 2 else set()

    def track(self, e, st, cx, node, ev):
        """what is learnt about the request's paths"""
        m = self.m
        a = st.auto
        if ev[0] == "ext" and ev[1] in ("lstat", "stat", "fstatat") and ev[2]:
            self.stats[(cx.id, node)] = ev[2][1 if ev[1] == "fstatat" else 0]
        elif ev[0] == "extres" and ev[1] in ("lstat", "stat", "fstatat"):
            if ev[4]:
                i = self.path(self.stats.get((cx.id, node), ZERO))
                a = a._replace(cmp=1)
                if i in (0, 1):
                    a = a._replace(regs=rep(a.regs, i, False))
        elif ev[0] == "branch":
            if any(x.k in ("proj", "ld") and len(x.a) > 1 and str(x.a[1]).endswith("::st_ino") for x in sub(ev[1])):
                # (what an undecided conjunction leaves is split into the elementary facts)
                same = None
                for t, val in st.facts.items():
                    fs = self.idents(t) if t.k == "eq" else ()
                    if fs:
                        a = a._replace(cmp=1)
                        same = False if not val else (True if "st_ino" in fs and same is not False else same)
                if same is not None:
                    if a.same is not None and a.same != same:
                        st.dead = True      # the outcome of the comparison is already known to be the other one
                    a = a._replace(same=same)
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "has" and e.klass(st, t.a[0]) == "map":
                    i = self.path(t.a[1])
                    if i in (0, 1) and a.done[i] is None:
                        a = a._replace(known=rep(a.known, i, val))
                        if not val:
                            a = a._replace(cmp=a.cmp)
                if t.k == "eq":
                    if val and any(isinstance(e.klass(st, x), tuple) and e.klass(st, x)[0] == "ino" for x in t.a) and any(e.klass(st, x) == "none" for x in t.a):
                        st.dead = True      # no path is ever mapped to the empty string (checked where paths are mapped)
                    cl = [e.klass(st, x) for x in t.a]
                    if all(isinstance(c, tuple) and c[0] == "ino" for c in cl) and cl[0] != cl[1]:
                        a = a._replace(cmp=1, same=val)
                    if any(str(x.a[1]).endswith("st_mode") for x in sub(t) if x.k in ("proj", "ld") and len(x.a) > 1):
                        i = None
                        for x in sub(t):
                            if x.k == "out" and x.a[0] in self.stats:
                                i = self.path(self.stats[x.a[0]])
                        if i is None and self.op not in ("rename", "link"):
                            i = 0
                        if i in (0, 1):
                            a = a._replace(regs=rep(a.regs, i, val))
        st.auto = a


class Mapping(Names):
    name = "path-map"

    def on(self, e, st, cx, node, ev):
        m = self.m
        self.track(e, st, cx, node, ev)
        a = st.auto
        k = ev[0]
        if k == "mut" and pfield(ev[1]) == m.f["mapping"]:
            meth, args = ev[2], ev[3]
            self.hit("path map updates", "%s: %s:%d" % (self.op, cx.fn.name, cx.cfg.nodes[node].l))
            if self.op == "rename" and not a.cmp and self.direct(args[:1]):
                e.report(cx, node, "'rename' changes what a path designates although both may be names of one file", st)
            if self.op == "rename" and a.same is True:
                e.report(cx, node, "'rename' of two names of one file changes what they designate", st)
            if meth == "clear":
                e.report(cx, node, "'%s' forgets what every path designates" % self.op, st)
            elif meth == "erase":
                i = self.path(args[0])
                if args[0].k in ("it", "find"):
                    i = self.path(args[0].a[1])
                ok = {"unlink": (0,), "rename": (0, 1, "?")}.get(self.op, ())
                if i == "?" and op_dir(self.op) and self.under(args[0], 1):
                    e.report(cx, node, "'rename' of a directory forgets the new path of a file of it", st)
                if i == "?" and op_dir(self.op):
                    for x in sub(args[0]):
                        if x.k == "lib" and x.a[0] == "substr" and len(x.a) > 2:
                            ps = {y.a[0] for y in sub(x.a[2]) if y.k == "param"}
                            if len(ps) == 1 and self.under(args[0], min(ps)):
                                e.report(cx, node, "'rename' of a directory takes a file's old path to be %s" % show(args[0]), st)
                if i not in ok:
                    e.report(cx, node, "'%s' forgets what a path designates" % self.op, st)
                elif i in (0, 1):
                    st.auto = a._replace(done=rep(a.done, i, "erased"))
            else:
                key, val = self.pair(args)
                if key is None:
                    return
                i, c = self.path(key), e.klass(st, val)
                if meth in ("insert", "emplace", "try_emplace") and i in (0, 1) and a.done[i] != "erased" and \
                        not (a.done[i] is None and a.known[i] is False):
                    return          # has no effect where the path is mapped already
                self.check_set(e, st, cx, node, a, i, c, key, val)
                if i in (0, 1):
                    st.auto = a._replace(done=rep(a.done, i, ("set", c)))
        elif k == "store" and ev[1].k == "P.elt" and pfield(ev[1]) == m.f["mapping"]:
            self.hit("path map updates", "%s: %s:%d" % (self.op, cx.fn.name, cx.cfg.nodes[node].l))
            i, c = self.path(ev[1].a[1]), e.klass(st, ev[2])
            if i in (0, 1) and a.done[i] == ("set", c):
                return
            if self.op == "rename" and a.same is True:
                e.report(cx, node, "'rename' of two names of one file changes what they designate", st)
            self.check_set(e, st, cx, node, a, i, c, ev[1].a[1], ev[2])
            if i in (0, 1):
                st.auto = a._replace(done=rep(a.done, i, ("set", c)))
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if not negative(e, st, ev[1]):
                self.final(e, st, cx, node, a)

    def under(self, t, i):
        while t.k == "op" and t.a[0] == "strcat":
            t = t.a[1]
        return t.k == "param" and t.a[0] == i

    def direct(self, args):
        return bool(args) and self.path(args[0]) in (0, 1)

    def pair(self, args):
        if len(args) == 1 and args[0].k == "tup" and len(args[0].a) == 2:
            return args[0].a
        if len(args) >= 2:
            return args[0], args[1]
        return None, None

    def check_set(self, e, st, cx, node, a, i, c, key, val):
        op = self.op
        if c == "none":
            e.report(cx, node, "'%s' maps a path to nothing" % op, st)
            return
        if op == "getattr":
            if i != 0 or c != ("ino", 0):
                e.report(cx, node, "'getattr' maps %s to something else than the file's own number (%s)" % (show(key), show(val)), st)
            elif a.known[0] is not False:
                e.report(cx, node, "'getattr' changes what an already known path designates", st)
            return
        if op == "link":
            if i != 1 or c not in (("ino", 0), ("ino", 1)):
                e.report(cx, node, "'link' maps %s to %s, not the new name to the linked file" % (show(key), show(val)), st)
            return
        if op == "rename":
            if i in (0, 1) and c == ("ino", i) and a.done[i] is None and a.known[i] is False:
                return          # the name's own file, learnt late
            if i == 1 and c == ("ino", 0):
                return
            if i == "?":
                # the files of a renamed directory
                if self.under(key, 0):
                    e.report(cx, node, "'rename' of a directory maps the old path of a file of it", st)
                if isinstance(c, tuple) and c[1] in (0, 1):
                    e.report(cx, node, "'rename' of a directory maps a file of it to the file of another path", st)
                k2 = [x.a[1] for x in sub(val) if x.k == "at" and len(x.a) > 1 and e.klass(st, x.a[0]) == "map"]
                if k2 and plainpath(k2[0]) and key is k2[0]:
                    e.report(cx, node, "'rename' of a directory maps a file to what its new path designated before", st)
                return
            e.report(cx, node, "'rename' maps %s to %s" % (show(key), show(val)), st)
            return
        e.report(cx, node, "'%s' changes what a path designates" % op, st)

    def final(self, e, st, cx, node, a):
        op = self.op
        if op == "unlink":
            if a.done[0] != "erased" and a.known[0] is not False:
                e.report(cx, node, "after 'unlink' the path still designates the removed file", st)
        elif op == "rename":
            if a.same is True:
                return
            frm = a.known[0] is True or (a.done[0] is not None)
            if frm:
                if a.done[0] != "erased":
                    e.report(cx, node, "after 'rename' the old path still designates the file", st)
                if not (isinstance(a.done[1], tuple) and a.done[1][1] == ("ino", 0)):
                    e.report(cx, node, "after 'rename' the new path does not designate the renamed file", st)
            elif a.known[0] is False and a.regs[0] is not False:
                e.report(cx, node, "'rename' of a file whose path is not mapped loses which file is meant", st)
            elif a.done[1] != "erased" and a.known[1] is not False:
                e.report(cx, node, "after 'rename' the new path still designates the replaced file", st)
        elif op == "link":
            if a.known[0] is True and a.done[1] is None:
                e.report(cx, node, "after 'link' the new path does not designate the linked file", st)
        elif op == "getattr":
            if a.known[0] is False and a.done[0] is None and a.regs[0] is not False:
                e.report(cx, node, "'getattr' of a regular file leaves its path without identity", st)


def op_dir(op):
    return op == "rename"


def plainpath(t):
    return t.k != "phi"


class Discard(Names):
    """cached content goes away only where it must, and there it does"""
    name = "discard"

    def cls(self, e, st, t):
        if t.k in ("ld", "proj") and len(t.a) > 1 and t.a[1] == self.m.f["page_owner"]:
            return "holder"
        if t.k in ("ld", "proj") and len(t.a) > 1 and t.a[1] == self.m.f["owner_pages"]:
            return "held"
        if t.k == "mv":
            return next((c for c in (e.klass(st, x) for x in t.a if hasattr(x, "k")) if c in ("map", "held")), None)
        return Names.cls(self, e, st, t)

    def key(self, e, st):
        return self.cached(e, st)

    def cached(self, e, st):
        for f, v in st.facts.items():
            if f.k == "has" and self.contents(f.a[0]) and isinstance(e.klass(st, f.a[1]), tuple):
                return v
        return None

    def contents(self, t):
        return t.k in ("ld", "proj") and len(t.a) > 1 and t.a[1] == self.m.f["contents"]

    def target(self):
        return ("ino", 1) if self.op == "rename" else ("ino", 0)

    def evicting(self, st):
        ev = self.m.f["evict"]
        for f, v in st.facts.items():
            if any(x.k in ("ld", "proj") and len(x.a) > 1 and x.a[1] == ev for x in sub(f)):
                if f.k == "eq" and isk(f.a[1]):
                    if v == bool(kval(f.a[1])):
                        return True
                elif v:
                    return True
        return False

    def on(self, e, st, cx, node, ev):
        m = self.m
        k = ev[0]
        if self.op == "rename" and k not in ("exit", "iter", "iterend", "head") and self.indir(e, st):
            return          # the files of a renamed directory: the same code, run for each
        self.track(e, st, cx, node, ev)
        a = st.auto
        if k == "mut":
            f = pfield(ev[1])
            gone = ev[2] in ("erase", "clear", "assign", "swap")
            if f == m.f["contents"] and gone:
                self.remove_file(e, st, cx, node, a, ev, 1)
            elif f in (m.f["owner_pages"], m.f["owner_blocks"]) and gone:
                whole = ev[1].k == "P.fld"
                if whole:
                    self.remove_file(e, st, cx, node, a, ev, 2 if f == m.f["owner_pages"] else 0)
                else:
                    self.remove_some(e, st, cx, node, ev, ev[1].a[1] if len(ev[1].a) > 1 else None)
            elif f == m.f["data_blocks"] and gone:
                self.remove_block(e, st, cx, node, ev)
            elif f in (m.f["blk_off"], m.f["blk_to"]) and gone:
                self.count_site(cx, node)
                if self.op in ("read", "write") and not self.evicting(st):
                    e.report(cx, node, "'%s' empties a cached page although it evicts nothing" % self.op, st)
                elif self.op not in ("read", "write", "unlink", "rename", "truncate"):
                    e.report(cx, node, "'%s' empties a cached page" % self.op, st)
        elif k == "store" and pfield(ev[1]) == m.f["m_nlinks"]:
            if not any(y.k == "P.var" or (y.k == "at" and len(y.a) > 1 and e.klass(st, y.a[1]) == "none") for y in sub(ev[1])) and any(x.k in ("ld", "proj") and len(x.a) > 1 and x.a[1] == m.f["m_nlinks"] for x in sub(ev[2])):
                st.auto = a._replace(disc=a.disc | 4)
        elif k in ("iter", "iterend", "head"):
            a = a._replace(past=0)
            st.auto = a
        elif k == "branch":
            if self.op == "truncate" and self.beyond(e, st):
                st.auto = a = a._replace(past=1)
            for t, val in atoms(ev[1], ev[2]):
                for x in sub(t):
                    if x.k in ("ld", "proj") and len(x.a) > 1 and x.a[1] == m.f["m_nlinks"]:
                        lo, hi, ne = e.bounds(st, x)
                        n = 1 if hi is not None and hi <= 1 else 2 if (lo is not None and lo > 1) else 0
                        if n and not any(y.k == "at" and e.klass(st, y.a[1]) == "none" for y in sub(x) if len(y.a) > 1):
                            st.auto = a = a._replace(last=n)
                if t.k == "eq" and val and a.last and any(x is NULL for x in t.a):
                    if any(y.k == "at" and self.contents(y.a[0]) and e.klass(st, y.a[1]) == self.target() for x in t.a for y in sub(x)):
                        st.dead = True      # its link count was read through this pointer
                if self.op == "link" and t.k == "eq" and any(x is NULL for x in t.a):
                    if any(y.k == "at" and self.contents(y.a[0]) and e.klass(st, y.a[1]) == self.target() for x in t.a for y in sub(x)):
                        st.auto = a = a._replace(disc=a.disc | (16 if val else 8))
                if t.k == "has" and not val and e.klass(st, t.a[0]) == "held":
                    if e.klass(st, t.a[1]) == self.target():
                        st.auto = a = a._replace(disc=a.disc | 2)
                if t.k == "has" and self.contents(t.a[0]) and e.klass(st, t.a[1]) == self.target():
                    st.auto = a = a._replace(disc=a.disc | 8 if val else a.disc)
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if negative(e, st, ev[1]):
                return
            if self.op == "link" and a.known[0] is True and not a.disc & 20:
                e.report(cx, node, "'link' of a cached file does not count the new name", st)
            if self.op not in ("unlink", "rename"):
                return
            self.settle(e, st, cx, node, a)

    def indir(self, e, st):
        return bool(st.loops) and str(e.ctxs[st.loops[0][0]].fn.cls) == "lazyfs::LazyFS"

    def settle(self, e, st, cx, node, a):
        if a.last == 1 and (a.disc & 3) != 3:
            e.report(cx, node, "'%s' removes the last name of a file and keeps %s" % (self.op, "its cached content" if not a.disc & 2 else "its cache entry"), st)
        elif a.disc & 1 and not a.disc & 2:
            e.report(cx, node, "'%s' forgets a file but keeps its cached pages" % self.op, st)
        elif a.disc & 4 and a.last == 0:
            e.report(cx, node, "'%s' keeps the cached content of a file whose last name it may have removed" % self.op, st)
        elif (a.disc & 8 or a.last == 2) and not a.disc & 5 and a.same is not True:
            e.report(cx, node, "'%s' removes a name of a cached file without counting it" % self.op, st)

    def count_site(self, cx, node):
        self.hit("discard sites", "%s: %s:%d" % (self.op, cx.fn.name, cx.cfg.nodes[node].l))

    def remove_file(self, e, st, cx, node, a, ev, bit):
        """everything cached of a file goes"""
        self.count_site(cx, node)
        op = self.op
        c = e.klass(st, ev[3][0]) if ev[3] else None
        if ev[2] != "erase" or not ev[3]:
            e.report(cx, node, "'%s' discards the cached content of every file" % op, st)
        elif op in ("unlink", "rename"):
            if c == "none":
                return
            if c != self.target():
                e.report(cx, node, "'%s' discards the cached content of another file (%s)" % (op, show(ev[3][0])), st)
            elif a.last != 1:
                e.report(cx, node, "'%s' discards a file's cached content although another name of it may remain" % op, st)
            elif a.same is True:
                e.report(cx, node, "'%s' discards the content of the file that was renamed" % op, st)
            st.auto = a._replace(disc=a.disc | bit)
        elif op == "truncate":
            if bit == 1:
                e.report(cx, node, "'truncate' forgets the file", st)
            elif c not in (("ino", 0), "none"):
                e.report(cx, node, "'truncate' discards the cached content of another file (%s)" % show(ev[3][0]), st)
            elif not self.zero(e, st):
                e.report(cx, node, "'truncate' to a size that need not be zero discards the whole cached content", st)
        elif op in ("read", "write") and bit != 1 and ((c == "holder" and self.evicting(st)) or self.taken(e, st, ev[3][0])):
            pass
        else:
            e.report(cx, node, "'%s' discards a file's cached content" % op, st)

    def zero(self, e, st):
        for f in st.facts:
            for x in sub(f):
                if x.k == "param" and str(e.root.fn.ps[x.a[0]].get("t")) in ("i64", "u64"):
                    lo, hi, ne = e.bounds(st, x)
                    if hi is not None and hi <= 0:
                        return True
        return False

    def taken(self, e, st, key):
        """the page at hand is held for another file (key) than the one it is given to"""
        return any(f.k == "eq" and not v and key in f.a for f, v in st.facts.items())

    def remove_some(self, e, st, cx, node, ev, owner):
        self.count_site(cx, node)
        op = self.op
        c = e.klass(st, owner) if owner is not None else None
        if op == "truncate":
            if not st.loops:
                e.report(cx, node, "'truncate' discards cached blocks that were not found to lie beyond the new size", st)
        elif op in ("read", "write"):
            if not (self.evicting(st) or self.taken(e, st, owner)):
                e.report(cx, node, "'%s' discards cached blocks although it evicts nothing" % op, st)
        elif not (op in ("unlink", "rename") and c == self.target() and st.auto.last == 1):
            e.report(cx, node, "'%s' discards cached blocks" % op, st)

    def remove_block(self, e, st, cx, node, ev):
        self.count_site(cx, node)
        op = self.op
        if op in ("unlink", "rename"):
            if st.auto.last != 1:
                e.report(cx, node, "'%s' discards cached blocks although another name of the file may remain" % op, st)
            return
        if op not in ("read", "write", "truncate"):
            e.report(cx, node, "'%s' discards cached blocks" % op, st)
            return
        if ev[2] != "erase" or not ev[3]:
            if op != "truncate" or not self.zero(e, st):
                e.report(cx, node, "'%s' discards all cached blocks of the file" % op, st)
            return
        if op == "truncate":
            if not st.auto.past:
                e.report(cx, node, "'truncate' discards a cached block that was not found to lie beyond the new size", st)
            return
        its = [x.a[0] for x in sub(ev[3][0]) if x.k == "ikey"]
        loose = not its and any(x.k == "phi" for x in sub(ev[3][0]))      # the iteration was merged with an earlier one
        for f, v in st.facts.items():
            if loose and f.a and hasattr(f.a[0], "k") and f.a[0].k == "phi" and st.loops:
                if (f.k == "lt0" and v and isk(f.a[1]) and kval(f.a[1]) == 0) or (f.k == "eq" and v and isk(f.a[1]) and kval(f.a[1]) in (0, -1)):
                    return
            if any(x.k in ("ival", "at") and any(y in its or (y.k == "ikey" and y.a[0] in its) for y in sub(x)) for x in sub(f)):
                if (f.k == "lt0" and v) or (f.k == "eq" and v and isk(f.a[1]) and kval(f.a[1]) in (0, -1)) or (f.k not in ("eq", "lt0", "has") and not v):
                    return
        e.report(cx, node, "'%s' discards a cached block although the cache holds it" % op, st)

    def beyond(self, e, st):
        """the block at hand lies wholly beyond the new size"""
        ok, whole = 0, False
        for f, v in st.facts.items():
            if f.k == "eq" and v and isk(f.a[1]) and kval(f.a[1]) == 0 and f.a[0].k == "op" and f.a[0].a[0] == "%" and any(x.k == "param" for x in sub(f.a[0])):
                whole = True
            if f.k != "lt0" or not isk(f.a[1]):
                continue
            lo, hi, ne = e.bounds(st, f.a[0])
            if any(g.k == "eq" and not w and not isk(g.a[1]) and all((y,) in poly_of(f.a[0]) for y in g.a) for g, w in st.facts.items()):
                lo, hi = 1 if lo == 0 else lo, -1 if hi == 0 else hi
            for mm, c in poly_of(f.a[0]).items():
                if len(mm) == 1 and mm[0].k == "op" and mm[0].a[0] == "/" and any(x.k == "param" for x in sub(mm[0])) and len(poly_of(f.a[0])) == 2:
                    # block number - new size / block size
                    d = lo if c < 0 else None if hi is None else -hi
                    if d is not None:
                        ok = max(ok, 2 if d >= 1 else 1 if d == 0 else 0)
        return ok == 2 or (ok == 1 and whole)


Walk = namedtuple("Walk", "seen skip reg dir took went dot")
W0 = Walk(0, 0, None, None, 0, 0, 0)


class DirWalk(Rule):
    """every file under a directory is found: each entry is listed, or looked into unless it is known not to be a directory"""
    name = "directory-walk"
    init = W0

    def __init__(self, fn):
        self.count = {}
        self.fn = fn

    def opaque(self, e, fn):
        return fn.id == self.fn.id

    def first(self, t):
        return any(x.k == "at" and x.a[1] is K(0) and "d_name" in show(x.a[0]) for x in sub(t))

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        if k == "ext" and ev[1] == "readdir":
            self.check(e, st, cx, node, a)
            st.auto = W0._replace(seen=1)
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                s = show(t)
                if "readdir" in s and t.k == "eq" and any(x is NULL for x in t.a) and val:
                    st.auto = W0
                elif "d_name" in s and self.first(t):
                    st.auto = st.auto._replace(dot=1)           # the first character alone does not tell "." from a hidden file
                elif "d_name" in s and (val or t.k != "eq"):
                    st.auto = st.auto._replace(skip=1)
                elif "d_type" in s and t.k == "eq":
                    n = [kval(x) for x in t.a if isnum(x)]
                    if n == [8]:
                        st.auto = st.auto._replace(reg=val)
                    elif n == [4]:
                        st.auto = st.auto._replace(dir=val)
                    else:
                        st.auto = st.auto._replace(skip=1)
        elif k == "mut" and ev[2] in ("push_back", "emplace_back", "insert") and any("d_name" in show(x) for x in ev[3]):
            self.count.setdefault("files listed", set()).add(cx.cfg.nodes[node].l)
            st.auto = a._replace(took=1)
        elif k == "opaque" and ev[1].id == self.fn.id:
            self.count.setdefault("directories entered", set()).add(cx.cfg.nodes[node].l)
            st.auto = a._replace(went=1)
        elif k in ("libcall", "icall") or k == "mut" and a.seen and ev[2] in ("push_back", "emplace_back", "push", "insert"):
            st.auto = st.auto._replace(skip=1) if k == "mut" else st.auto
        elif k == "exit":
            self.check(e, st, cx, node, a)

    def check(self, e, st, cx, node, a):
        if not a.seen or a.skip:
            return
        if a.reg and not a.took:
            e.report(cx, node, "a file under a renamed directory is passed over", st)
        if a.dot and a.reg is None and a.dir is None and not a.took and not a.went:
            e.report(cx, node, "an entry under a renamed directory is passed over for its first character", st)
        if (a.dir or a.dir is None and a.reg is False) and not a.went:
            e.report(cx, node, "a directory under a renamed directory is not looked into", st)


def walks(m):
    out = []
    for f in m.p.fns.values():
        if f.body is None or not any("vector" in p["t"] for p in f.ps):
            continue
        calls = [x for x in walk(f.body) if x.get("k") == "call"]
        if any(x.get("q") in ("readdir", "readdir64") for x in calls):
            out.append(f)
    return [Job("directory walk " + f.name, (lambda f=f: DirWalk(f)), f) for f in out]


class C13(Prop):
    minimum = {"path map updates": 3}
    rule_text = "value-class analysis of the path map: every string is classed by whose file number it is (looked up under, or taken from the attributes of, which request path); per successful return of rename, unlink, link and attribute lookup the map holds, for each path of the request, the class the request demands, and no other path's entry changes"

    def jobs(self, m, tier):
        return [Job(o, (lambda o=o: Mapping(o)), f) for o, f in sorted(m.handlers.items())] + walks(m)


class C12(Prop):
    minimum = {"discard sites": 3}
    rule_text = "effect analysis of every request handler: each removal of cache entries, blocks or pages must be under a path fact that allows it (last link known, new size zero or block beyond it, eviction, block found missing), for the file the request names; each successful removal or replacement of a file's last name performs the removal, any other counts the name"

    def jobs(self, m, tier):
        return [Job(o, (lambda o=o: Discard(o)), f) for o, f in sorted(m.handlers.items())]


PROPS = {"C12": C12(), "C13": C13()}
