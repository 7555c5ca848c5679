"""C06: failed operations leave the cache alone.  C07: pass-through fidelity.  C08: laziness."""
from ..run import Prop, Job
from ..flow import Rule
from ..model import *
from .p_errors import PRIMARY

O_TRUNC = 0o1000
O_CREAT = 0o100
AT_NOFOLLOW = 0x100
NAMESPACE = ("rename", "unlink", "link", "symlink", "create", "open", "mkdir", "rmdir", "chmod", "chown", "utimens", "access", "readlink",
             "getattr", "truncate")


def cachelib(fn):
    return fn.cls is not None and fn.cls.split("::")[-1] in ("Cache", "PageCacheEngine", "CustomCacheEngine", "Page")


class FailClean(Rule):
    """no change of cache state on a path where the deciding backing call fails"""
    name = "failed-operation-keeps-cache"
    init = ("none", None)

    def __init__(self, op):
        self.op = op
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or (fn.id in self.m.handler_ids and fn.id != e.root.fn.id)

    def forks(self, e, st, cx, node, name, av):
        if name in PRIMARY[self.op] and not torn_context(self.m, cx) and st.auto[0] == "none" and name not in ("ftruncate", "truncate"):
            self.count.setdefault("deciding calls", set()).add("%s: %s" % (self.op, name))
            return True
        return False

    def on(self, e, st, cx, node, ev):
        a = st.auto
        if ev[0] == "extres":
            if ev[4] and a[1]:
                e.report(cx, node, "'%s' has already changed the cache (%s) when the backing call %s fails" % (self.op, a[1], ev[1]), st)
            st.auto = ("fail" if ev[4] else "ok", None)
        elif ev[0] in ("mut", "store"):
            f = pfield(ev[1])
            if f not in self.m.cache_state or is_local(ev[1]):
                return
            self.count.setdefault("cache changes", set()).add("%s: %s in %s" % (self.op, f.split("::")[-1], cx.fn.name))
            if a[0] == "fail":
                e.report(cx, node, "'%s' changes the cache (%s) although the backing operation failed" % (self.op, f.split("::")[-1]), st)
            elif a[0] == "none" and not a[1] and self.op in PRIMARY:
                st.auto = ("none", "%s, line %d" % (f.split("::")[-1], cx.cfg.nodes[node].l))


class C06(Prop):
    minimum = {"deciding calls": 10, "cache changes": 6}
    rule_text = ("For each pass-through and namespace handler the outcomes of the deciding backing call are followed separately: no path with a "
                 "failed call changes cache state (path map, cached items, pages, metadata), neither before nor after the call.")

    def jobs(self, m, tier):
        return [Job(o, (lambda o=o: FailClean(o)), f) for o, f in sorted(m.handlers.items()) if o in NAMESPACE]


# ------------------------------------------------------------------ C07
def prm(i):
    return ("p", i)


# operation -> {call: obligations on its arguments}; ("p", i): the request's i-th argument
CALLS = {
    "mkdir": {"mkdir": (prm(0), prm(1)), "mkdirat": (None, prm(0), prm(1))},
    "rmdir": {"rmdir": (prm(0),), "unlinkat": (None, prm(0), ("bits", 0x200))},
    "chmod": {"chmod": (prm(0), prm(1)), "fchmodat": (None, prm(0), prm(1)), "fchmod": ("fh", prm(1))},
    "chown": {"lchown": (prm(0), prm(1), prm(2)), "fchownat": (None, prm(0), prm(1), prm(2), ("bits", AT_NOFOLLOW)), "fchown": ("fh", prm(1), prm(2))},
    "utimens": {"utimensat": (None, prm(0), prm(1), ("bits", AT_NOFOLLOW)), "futimens": ("fh", prm(1))},
    "access": {"access": (prm(0), prm(1)), "faccessat": (None, prm(0), prm(1))},
    "symlink": {"symlink": (prm(0), prm(1)), "symlinkat": (prm(0), None, prm(1))},
    "link": {"link": (prm(0), prm(1)), "linkat": (None, prm(0), None, prm(1), ("nobits", 0x400))},
    "rename": {"rename": (prm(0), prm(1)), "renameat": (None, prm(0), None, prm(1)), "renameat2": (None, prm(0), None, prm(1))},
    "unlink": {"unlink": (prm(0),), "unlinkat": (None, prm(0)), "remove": (prm(0),)},
    "readlink": {"readlink": (prm(0), prm(1), ("below", 2))},
    "getattr": {"lstat": (prm(0), prm(1)), "fstat": ("fh", prm(1)), "fstatat": (None, prm(0), prm(1), ("bits", AT_NOFOLLOW))},
    "readdir": {"opendir": (prm(0),)},
    "open": {"open": (prm(0), "openflags"), "openat": (None, prm(0), "openflags")},
    "create": {"open": (prm(0), "openflags", prm(1)), "creat": (prm(0), prm(1))},
    "release": {"close": ("fh",)},
    "fsync": {"fsync": ("fd",), "fdatasync": ("fd",)},
}
ONCE = {"rename", "unlink", "link", "symlink", "mkdir", "rmdir", "chmod", "chown", "utimens", "open", "create", "release"}
SUCCESS_NEEDS_CALL = {"rename", "unlink", "link", "symlink", "mkdir", "rmdir", "chmod", "chown", "utimens", "open", "create", "access",
                      "readlink", "getattr", "readdir", "release"}
# calls with an effect visible in the backing file system
MUTATING = {"mkdir", "mkdirat", "rmdir", "unlink", "unlinkat", "remove", "rename", "renameat", "renameat2", "link", "linkat", "symlink",
            "symlinkat", "chmod", "fchmod", "fchmodat", "chown", "lchown", "fchown", "fchownat", "utimensat", "futimens", "utimes", "utime",
            "mknod", "mkfifo", "setxattr", "lsetxattr", "removexattr", "lremovexattr", "lutimes"}


def fh_term(t):
    return t.k == "ld" and str(t.a[1]).endswith("fuse_file_info::fh")


class Pass(Rule):
    name = "pass-through"
    init = (0, ())

    def __init__(self, op):
        self.op = op
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or (fn.id in self.m.handler_ids and fn.id != e.root.fn.id) or \
            (cachelib(fn) and self.op != "fsync")

    def arg_ok(self, e, st, want, got):
        """None when satisfied (or not resolvable), else a description"""
        ps = e.root.fn.ps
        if got.k == "ite":
            for x, c in ((got.a[1], True), (got.a[2], False)):
                for s in e.assume(st.copy(), got.a[0], c):
                    bad = self.arg_ok(e, s, want, x)
                    if bad:
                        return bad
            return None
        if want is None:
            return None
        if isinstance(want, tuple) and want[0] == "p":
            w = mk("param", want[1], ps[want[1]]["n"])
            if got is w or e.entail(st, EQ(got, w)) is True or not (plain(got) or computed(got)) or keeps(got, w):
                return None
            return "is %s, not the request's '%s'" % (show(got), ps[want[1]]["n"])
        if isinstance(want, tuple) and want[0] == "bits":
            if isk(got) and isinstance(kval(got), int) and (kval(got) & want[1]) != want[1]:
                return "is %s, which follows symbolic links" % show(got) if want[1] == AT_NOFOLLOW else "is %s" % show(got)
            return None
        if isinstance(want, tuple) and want[0] == "below":
            w = mk("param", want[1], ps[want[1]]["n"])
            # room for the terminator must remain
            r = e.entail(st, LT(got, w))
            if got is w or r is False:
                return "is %s, leaving no room for the terminating NUL" % show(got)
            return None
        if want in ("fh", "fd"):
            if fh_term(got) or got.k == "phi" or (want == "fd" and got.k == "ext" and got.a[1] in ("open", "openat")):
                return None
            if plain(got):
                return "is %s, not the open file's descriptor" % show(got)
            return None
        if isinstance(want, tuple) and want[0] == "nobits":
            if isk(got) and isinstance(kval(got), int) and kval(got) & want[1]:
                return "is %s, which follows symbolic links" % show(got)
            return None
        if want == "openflags":
            lost, more, base = 0, 0, got
            while base.k == "op" and base.a[0] in ("&", "|") and len(base.a) == 3 and any(isk(y) for y in base.a[1:]):
                c, x = (base.a[1], base.a[2]) if isk(base.a[1]) else (base.a[2], base.a[1])
                if base.a[0] == "&":
                    lost |= ~kval(c) & 0xFFFFFFFF
                    more &= kval(c)
                else:
                    more |= kval(c)
                base = x
            if base.k == "ld" and str(base.a[1]).endswith("fuse_file_info::flags"):
                # the kernel does creation, exclusion and the controlling terminal itself before an open; it sets O_CREAT for a create
                lost &= ~(O_TRUNC | 0x100 | (0 if self.op == "create" else 0x80) | 0x40)
                more &= ~(0x40 if self.op == "create" else 0) & ~0x80000 & ~0x8000
                if lost:
                    return "drops flag bits 0x%x of the request" % lost
                if more:
                    return "adds flag bits 0x%x to the request" % more
                return None
            if got.k == "ld" and str(got.a[1]).endswith("fuse_file_info::flags"):
                return None
            if isk(got):
                return "is the constant %s, not the request's flags" % show(got)
            return None
        return None

    def cls(self, e, st, t):
        return "p%d" % t.a[0] if t.k == "param" else None

    def on(self, e, st, cx, node, ev):
        n, oked = st.auto
        if ev[0] == "ext":
            name, av, v = ev[1], ev[2], ev[3]
            table = CALLS[self.op]
            if torn_context(self.m, cx) or any(cachelib(c.fn) for c in chain_of(cx)):
                return
            if name in table:
                if self.op == "release" and not fh_term(av[0]):
                    return
                self.count.setdefault("pass-through calls", set()).add("%s: %s" % (self.op, name))
                for i, want in enumerate(table[name]):
                    if i < len(av):
                        bad = self.arg_ok(e, st, want, av[i])
                        if bad:
                            e.report(cx, node, "'%s' calls %s, whose argument %d %s" % (self.op, name, i + 1, bad), st)
                if self.op in ONCE and n >= 1:
                    e.report(cx, node, "'%s' performs %s a second time" % (self.op, name), st)
                st.auto = (1, oked)
            elif name in MUTATING:
                e.report(cx, node, "'%s' performs %s on the backing file system" % (self.op, name), st)
        elif ev[0] == "store" and self.op in ("open", "create") and ev[1].k == "P.fld" and str(ev[1].a[1]).endswith("fuse_file_info::fh"):
            val = ev[2]
            if val.k == "ext" and val.a[1] in ("open", "openat", "creat"):
                st.auto = (n, ("fh",))
            elif isk(val) or val.k == "param":
                e.report(cx, node, "'%s' hands out %s as the file's descriptor" % (self.op, show(val)), st)
        elif ev[0] == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if self.op in SUCCESS_NEEDS_CALL and n == 0 and not negative(e, st, ev[1]):
                e.report(cx, node, "'%s' can succeed without having been performed on the backing file system" % self.op, st)
            if self.op in ("open", "create") and n and not oked and not negative(e, st, ev[1]):
                e.report(cx, node, "'%s' can succeed without handing out the descriptor it opened" % self.op, st)


def computed(t):
    """arithmetic on known values"""
    return t.k == "op" and t.a[0] in ("&", "|", "^", "~", "+", "-", "*", "/", "%", "<<", ">>") and all(plain(x) or computed(x) for x in t.a[1:] if hasattr(x, "k"))


def keeps(t, w):
    """t is w with at most bits masked that modes and access masks do not have"""
    while t.k == "op" and t.a[0] == "&" and len(t.a) == 3 and any(isk(x) for x in t.a[1:]):
        c, x = (t.a[1], t.a[2]) if isk(t.a[1]) else (t.a[2], t.a[1])
        if kval(c) & 0o7777 != 0o7777 and not (kval(c) & 7 == 7 and w.a[1] == "mask"):
            return False
        t = x
    return t is w


def plain(t):
    """a term whose identity is fully known"""
    return t.k in ("k", "param", "ld", "obj", "poly") and not (t.k == "poly" and t.ids)


def chain_of(cx):
    while cx is not None:
        yield cx
        cx = cx.parent


class ReadDir(Rule):
    """every directory entry is handed to the caller"""
    name = "readdir-entries"
    init = ("none",)

    def __init__(self):
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or cachelib(fn)

    def on(self, e, st, cx, node, ev):
        a = st.auto
        if ev[0] == "ext" and ev[1] in ("readdir", "readdir64"):
            if a[0] == "got":
                e.report(cx, node, "'readdir' moves on to the next entry without reporting the current one", st)
            st.auto = ("pend", ev[3])
        elif ev[0] == "branch" and a[0] == "pend":
            if e.entail(st, EQ(a[1], NULL)) is False:
                st.auto = ("got", a[1])
            elif e.entail(st, EQ(a[1], NULL)) is True:
                st.auto = ("end",)
        elif ev[0] == "icall":
            name = ev[2][1] if len(ev[2]) > 1 else None
            self.count.setdefault("entries reported", set()).add(cx.fn.name)
            if a[0] == "got":
                if name is not None and name.k == "ld" and not str(name.a[1]).endswith("d_name"):
                    e.report(cx, node, "'readdir' reports %s instead of the entry's name" % show(name), st)
                st.auto = ("given",)
        elif ev[0] == "exit":
            if a[0] == "got":
                e.report(cx, node, "'readdir' returns without reporting an entry it has read", st)


class KernelCaching(Rule):
    """the kernel may not keep attributes or data of its own"""
    name = "no-kernel-caching"
    init = ()
    FIELDS = ("entry_timeout", "attr_timeout", "negative_timeout")

    def __init__(self):
        self.count = {}

    def on(self, e, st, cx, node, ev):
        if ev[0] == "store" and ev[1].k == "P.fld":
            f = str(ev[1].a[1])
            if f.startswith("fuse_config::"):
                n = f.split("::")[-1]
                self.count.setdefault("mount options set", set()).add(n)
                val = ev[2]
                while val.k == "op" and val.a[0] == "cast":
                    val = val.a[1]
                if n in self.FIELDS and isk(val) and kval(val):
                    e.report(cx, node, "the kernel is allowed to cache %s for %s seconds" % (n, show(val)), st)
                if n in ("kernel_cache", "auto_cache") and isk(ev[2]) and kval(ev[2]):
                    e.report(cx, node, "the kernel is allowed to keep file data of its own (%s)" % n, st)
                if n in self.FIELDS:
                    st.auto = st.auto + (n,) if n not in st.auto else st.auto
            if f == "fuse_conn_info::want" and isk(ev[2]) and kval(ev[2]) & (1 << 16):
                e.report(cx, node, "write-back caching in the kernel is requested", st)
        elif ev[0] == "exit":
            for n in self.FIELDS[:2]:
                if n not in st.auto:
                    e.report(cx, node, "%s is left at its non-zero default: the kernel keeps attributes the cache no longer has" % n, st)


class C07(Prop):
    minimum = {"pass-through calls": 14, "entries reported": 1}
    rule_text = ("For each operation handler reached through the FUSE operation table: the backing call(s) it makes are those of that operation, "
                 "with the request's own path and argument values (symbolic links not followed, open flags preserved except truncation, readlink "
                 "bounded below the buffer), exactly once, and no path returns success without it; no other operation changes the namespace or "
                 "attributes; every directory entry read is reported; the kernel is told to cache no attributes.")

    def jobs(self, m, tier):
        miss = [o for o in CALLS if o not in m.handlers]
        if miss:
            raise AnalysisBroken("operations without a handler: %s" % miss)
        j = [Job(o, (lambda o=o: Pass(o)), m.handlers[o]) for o in sorted(CALLS)]
        j.append(Job("readdir entries", ReadDir, m.handlers["readdir"]))
        if "init" in m.ops:
            j.append(Job("init", KernelCaching, m.ops["init"]))
        return j


# ------------------------------------------------------------------ C08
CONTENT = {"pwrite", "pwrite64", "write", "pwritev", "pwritev2", "writev", "ftruncate", "ftruncate64", "truncate", "truncate64", "fallocate",
           "posix_fallocate", "creat", "copy_file_range", "sendfile", "fwrite", "fputs", "fsync_range"}


def is_param0(t):
    return t.k == "param" and t.a[0] == 0


def syncing(m):
    """functions of the cache that reach a write to a backing file other than through eviction"""
    if getattr(m, "_syncing", None) is not None:
        return m._syncing
    direct = set()
    calls = {}
    for f in m.p.fns.values():
        if f.body is None:
            continue
        cs = set()
        for x in walk(f.body):
            q = x.get("q")
            if x.get("k") == "call" and q in CONTENT and not (f.cls or "").endswith("Page"):
                direct.add(f.id)
            if x.get("fn") or x.get("f"):
                for k in ("fn", "f"):
                    if x.get(k) in m.p.fns:
                        cs.add(x[k])
                    if x.get(k) in m.p.overriders:
                        cs |= set(m.p.overriders[x[k]])
        calls[f.id] = cs
    out = set(direct)
    ch = True
    while ch:
        ch = False
        for f, cs in calls.items():
            if f not in out and cs & out and not (m.p.fns[f].cls or "").endswith("Page"):
                out.add(f); ch = True
    m._syncing = out
    return out


class Lazy(Rule):
    """file content reaches the backing file only where documented"""
    name = "laziness"
    # (direct, put: 0 none 1 unknown 2 failed 3 cached, usage full, eviction off, truncate: nested write short or item gone)
    init = (0, 0, 0, 0, 0)

    def __init__(self, op):
        self.op = op
        self.count = {}

    def opaque(self, e, fn):
        if fn.id in self.m.triggers and fn.id != e.root.fn.id:
            return True
        if fn.id in self.m.handler_ids and fn.id != e.root.fn.id:
            return True
        return self.op in ("write", "truncate") and cachelib(fn)

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        d, put, full, noev, tr = st.auto
        m = self.m
        if k == "opaque" and ev[1] is not None:
            f = ev[1]
            if cachelib(f):
                if f.name == "put_data_blocks" and len(ev[3]) > 2 and not isk_empty(ev[3][1]):
                    st.auto = (d, 1, full, noev, tr)
                    self.put = True
                elif f.id in syncing(m):
                    e.report(cx, node, "'%s' writes cached data back to the backing file (%s)" % (self.op, f.name), st)
            elif f.id in m.handler_ids and m.handler_ids[f.id] == "fsync":
                e.report(cx, node, "'%s' synchronises the file" % self.op, st)
            return
        if k == "branch" and self.op in ("write", "truncate"):
            t, val = ev[1], ev[2]
            while t.k == "not":
                t, val = t.a[0], not val
            if t.k == "eq" and isk(t.a[1]) and t.a[0].k == "ld" and str(t.a[0].a[1]).endswith("::direct_io") and kval(t.a[1]) == 0:
                st.auto = (0 if val else 1, put, full, noev, tr)
            elif t.k == "ld" and str(t.a[1]).endswith("::direct_io"):
                st.auto = (1 if val else 0, put, full, noev, tr)
            else:
                cs = calls_in(t)
                if "put_data_blocks" in cs:
                    if t.k == "has":
                        st.auto = (d, put if val else 2, full, noev, tr)
                    elif t.k == "eq" and isk(t.a[1]) and kval(t.a[1]) in (0, False):
                        st.auto = (d, 2 if val else 3, full, noev, tr)
                    elif t.k == "empty":
                        st.auto = (d, 2 if val else put, full, noev, tr)
                    elif t.k not in ("eq", "lt0", "more"):
                        st.auto = (d, 3 if val else 2, full, noev, tr)
                elif "get_cache_usage" in cs or "get_engine_usage" in cs:
                    # usage == 100 / usage >= 100 / usage < 100
                    isfull = (t.k == "eq" and val) or (t.k != "eq" and not val)
                    st.auto = (d, put, 1 if isfull else 0, noev, tr)
                elif any(x.k == "ld" and x.a[1] == m.f["evict"] for x in sub(t)):
                    off = val if t.k == "eq" else not val
                    st.auto = (d, put, full, 1 if off else 0, tr)
                elif self.op == "truncate":
                    if cs & {f.name for s, f in m.handlers.items() if s == "write"}:
                        short = (t.k == "eq" and not val) or (t.k != "eq" and val)
                        st.auto = (d, put, full, noev, 1 if short else 0)
                    elif any(self.is_lock(c) for c in cs):
                        nolock = val if t.k == "eq" else not val
                        st.auto = (d, put, full, noev, 1 if nolock else tr)
            return
        if k != "ext":
            return
        name, av = ev[1], ev[2]
        if name in ("open", "openat"):
            fl = av[1] if name == "open" else av[2]
            f = av[0] if name == "open" else av[1]
            if self.op == "fsync" and (not isk(fl) or kval(fl) & 3) and not is_param0(f) and any(x.k in ("ikey", "kvit", "kv") for x in sub(f)):
                e.report(cx, node, "'fsync' opens the backing files of other paths for writing", st)
            if isk(fl) and kval(fl) & O_TRUNC:
                e.report(cx, node, "'%s' opens the backing file with O_TRUNC: its persisted content is lost" % self.op, st)
            elif self.op == "open" and fl.k == "ld" and str(fl.a[1]).endswith("fuse_file_info::flags"):
                e.report(cx, node, "'open' passes O_TRUNC on to the backing file: its persisted content is lost at once", st)
            elif self.op == "open" and fl.k == "op" and fl.a[0] == "&":
                for y in fl.a[1:]:
                    if isk(y) and kval(y) & O_TRUNC:
                        e.report(cx, node, "'open' passes O_TRUNC on to the backing file: its persisted content is lost at once", st)
            self.count.setdefault("opens", set()).add("%s: %s" % (self.op, cx.fn.name))
            return
        if name not in CONTENT:
            return
        if name == "write" and not any(cachelib(c.fn) for c in chain_of(cx)) and self.op == "worker":
            return      # the completion FIFO
        self.count.setdefault("content writes", set()).add("%s: %s in %s" % (self.op, name, cx.fn.name))
        if self.op == "fsync":
            return
        if self.op == "worker":
            ok = any(v and f.k == "eq" and sval(f.a[1]) == "lazyfs::cache-checkpoint" for f, v in st.facts.items())
            if not ok:
                e.report(cx, node, "a command other than the checkpoint writes cached data to the backing file (%s)" % name, st)
            return
        if any(c.fn.cls and c.fn.cls.endswith("Page") for c in chain_of(cx)):
            if any(v and f.k == "ld" and f.a[1] == m.f["evict"] for f, v in st.facts.items()) or \
                    any((not v) and f.k == "eq" and f.a[0].k == "ld" and f.a[0].a[1] == m.f["evict"] for f, v in st.facts.items()):
                return
            e.report(cx, node, "a page is written back (%s) although eviction is not enabled" % name, st)
            return
        if self.op == "write":
            if torn_context(m, cx):
                return
            if d or put == 2 or (put != 1 and full and noev):
                return
            e.report(cx, node, "'write' sends data to the backing file (%s) although it was not refused by the cache" % name, st)
            return
        if self.op == "truncate" and tr:
            return
        e.report(cx, node, "'%s' changes the content of the backing file (%s)" % (self.op, name), st)

    def is_lock(self, n):
        for f in self.m.p.fns.values():
            if f.name == n and f.cls and f.cls.endswith("Cache") and any(str(x.get("f", "")).endswith("item_locks") or x.get("m") == "lockItem" or
                                                                        "lockItem" in str(x.get("q", "")) for x in walk(f.body or {})):
                return True
        return n == "lockItemCheckExists"


def isk_empty(t):
    return t.k == "il" and not t.a or t.k == "emptyc"


def sub(t):
    """all subterms"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif hasattr(x, "k"):
            yield x
            st.extend(x.a)


def calls_in(t):
    return {str(x.a[1]).split("::")[-1] for x in sub(t) if x.k == "call"}


class C08(Prop):
    minimum = {"content writes": 6, "opens": 4}
    rule_text = ("Effect analysis of every handler, command and fault trigger: calls that change the content or size of a backing file occur only "
                 "in fsync, in the checkpoint command, in the injection of a torn write, in page eviction with eviction enabled, in direct I/O, and "
                 "as fallback on paths where the cache is known to have refused the block; no open passes O_TRUNC on.")

    def jobs(self, m, tier):
        j = [Job(o, (lambda o=o: Lazy(o)), f) for o, f in sorted(m.handlers.items())]
        j += [Job("worker", lambda: Lazy("worker"), m.worker), Job("clear fault", lambda: Lazy("clear fault"), m.clear_trigger),
              Job("crash fault", lambda: Lazy("crash fault"), m.crash_trigger)]
        for f in m.p.fns.values():
            if f.cls and f.cls.split("::")[-1] == "Cache" and f.body is not None and f.id not in syncing(m) and f.name not in ("Cache", "~Cache") \
                    and not f.name.startswith("print"):
                j.append(Job("Cache::" + f.name, (lambda n=f.name: Lazy("Cache::" + n)), f))
        return j


PROPS = {"C06": C06(), "C07": C07(), "C08": C08()}
