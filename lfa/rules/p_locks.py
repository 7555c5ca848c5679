"""C02: commands and operations exclude each other.  C03: lock pairing, order and self-deadlock.  C04: guarded-by."""
from ..run import Prop, Job
from ..flow import Rule
from ..model import *

BACKING = {"open", "openat", "creat", "pwrite", "write", "pwritev", "writev", "pwrite64", "ftruncate", "truncate", "rename", "renameat", "renameat2",
           "unlink", "unlinkat", "link", "linkat", "symlink", "symlinkat", "mkdir", "mkdirat", "rmdir", "chmod", "fchmodat", "chown", "lchown",
           "fchownat", "utimes", "utimensat", "futimens", "utime", "fsync", "fdatasync", "mknod", "fallocate", "opendir", "readlink", "lstat",
           "stat", "access", "pread", "lseek", "remove"}
CONTENT = {"pwrite", "write", "pwritev", "writev", "pwrite64", "ftruncate", "truncate", "utimes", "fallocate", "pwritev2", "writev"}


class CmdLock(Rule):
    """file operations hold the command lock (shared) over every effect; cache commands hold it exclusively"""
    name = "command-lock"
    init = ()

    def __init__(self, kind, op=None):
        self.kind = kind
        self.op = op
        self.count = {}

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def opaque(self, e, fn):
        return self.kind == "op" and fn.id in self.m.triggers

    def on(self, e, st, cx, node, ev):
        cmd = self.m.L["cmd"]
        k = ev[0]
        if k == "opaque" and ev[1] is not None:
            f = ev[1]
            if f.id in self.m.triggers and self.m.triggers[f.id] == "clear":
                self.hit("trigger calls", "%s:%s" % (self.op, sval(ev[3][1]) if len(ev[3]) > 1 else "?"))
                if held(st, cmd):
                    e.report(cx, node, "a clear-cache fault can be triggered while this thread holds the command lock: the clear "
                             "then waits for this operation forever", st)
            elif f.id in self.m.handler_ids and self.m.handler_ids[f.id] in TRIGGER_OPS and held(st, cmd):
                e.report(cx, node, "operation '%s' (which can inject a clear fault) is started while the command lock is held" %
                         self.m.handler_ids[f.id], st)
            return
        if k == "lock" and ev[1] == cmd:
            self.hit("command lock acquisitions", "%s %s" % (cx.fn.q, ev[2]))
            if held(st, cmd, "X") or (ev[2] == "X" and held(st, cmd)):
                e.report(cx, node, "the command lock is acquired (%s) while this thread already holds it" %
                         ("exclusive" if ev[2] == "X" else "shared"), st)
            if self.kind == "op" and ev[2] == "X":
                pass
            return
        if k == "exit":
            if held(st, cmd):
                e.report(cx, node, "returns with the command lock held", st)
            return
        if k in ("mut", "store"):
            f = pfield(ev[1])
            if f not in self.m.cache_state or is_local(ev[1]):
                return
            what = f.split("::")[-1]
        elif k == "delete":
            if not any(str(ev[2]).endswith(x) for x in ("Item", "Page", "Data", "Metadata", "BlockInfo")):
                return
            what = "delete"
        elif k == "ext" and ev[1] in (BACKING if self.kind == "op" else CONTENT):
            if self.kind != "op" and not self.in_cache(cx):
                return
            what = ev[1]
        else:
            return
        self.hit("guarded effects", "%s:%s" % (cx.fn.q.split("::")[-1], what))
        if self.kind == "op":
            if not held(st, cmd):
                e.report(cx, node, "%s: '%s' happens without the command lock: a concurrent clear-cache or checkpoint can run in the middle" %
                         (self.op, what), st)
        elif not held(st, cmd, "X"):
            e.report(cx, node, "cache command: '%s' happens without holding the command lock exclusively: file operations can run in the middle" %
                     what, st)

    def in_cache(self, cx):
        c = cx
        while c is not None:
            if c.fn.cls and c.fn.cls.split("::")[-1] in ("Cache", "CustomCacheEngine", "Page"):
                return True
            c = c.parent
        return False


class C02(Prop):
    minimum = {"command lock acquisitions": 4, "guarded effects": 30, "trigger calls": 11}
    rule_text = ("Lockset analysis over the interprocedural flow graph: in every FUSE handler each change of cache state and each call to the backing "
                 "file system happens with the command lock held, the lock is not held when a fault (which may clear the cache) is triggered, and "
                 "is released on return; in the FIFO worker and in clear faults each change of cache state and each backing write of a cache "
                 "command happens with the command lock held exclusively, and it is never re-acquired by its holder.")

    def jobs(self, m, tier):
        j = [Job(o, (lambda o=o: CmdLock("op", o)), f) for o, f in sorted(m.handlers.items())]
        j.append(Job("worker", lambda: CmdLock("cmd", "worker"), m.worker))
        j.append(Job("clear-fault", lambda: CmdLock("cmd", "clear fault"), m.clear_trigger))
        j.append(Job("crash-fault", lambda: CmdLock("cmd", "crash fault"), m.crash_trigger))
        return j


class LockRule(Rule):
    """pairing, order and re-acquisition of all locks"""
    name = "lock-discipline"
    init = ()

    def __init__(self):
        self.count = {}

    def rank(self, lid):
        m = self.m
        for i, k in enumerate(("cmd", "wr", "inj", "cache", None, "engine", "lru")):
            if k and lid == m.L[k]:
                return i
        if lid[0] == m.item_lock_name or lid[0].startswith("ptr:") or lid[0].startswith("new:") or lid[0].endswith("item_locks*"):
            return 4
        return None

    def nm(self, lid):
        r = self.rank(lid)
        return "item lock" if r == 4 else lid[0].split("::")[-1] if r is None or r in (0, 1, 2) else \
            {3: "cache lock", 5: "engine lock", 6: "LRU lock"}[r]

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        if k == "lock":
            lid, mode = ev[1], ev[2]
            self.count.setdefault("lock sites", set()).add("%s %s" % (cx.fn.q, self.nm(lid)))
            if len(ev) > 3 and ev[3] == "try":
                return
            r = self.rank(lid)
            for (h, hm, n) in st.locks:
                if h == lid:
                    if (mode == "X" or hm == "X"):
                        e.report(cx, node, "%s is acquired while this thread already holds it" % self.nm(lid), st)
                    continue
                hr = self.rank(h)
                if r is None or hr is None:
                    continue
                if r == 4 and hr == 4:
                    e.report(cx, node, "a second item lock is acquired while one is held", st)
                elif r < hr:
                    e.report(cx, node, "%s is acquired while holding %s (the rest of the code takes them in the opposite order)" %
                             (self.nm(lid), self.nm(h)), st)
                self.count.setdefault("lock orders", set()).add("%s -> %s" % (self.nm(h), self.nm(lid)))
        elif k == "badunlock":
            e.report(cx, node, "%s is released on a path where it is not held" % self.nm(ev[1]), st)
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            for (h, hm, n) in st.locks:
                e.report(cx, node, "returns with the %s still held" % self.nm(h), st)


class C03(Prop):
    minimum = {"lock sites": 12, "lock orders": 5}
    rule_text = ("Lockset analysis over the interprocedural flow graph of every FUSE handler, the FIFO worker and the fault triggers: each lock is "
                 "released on every path to return, never released when not held, never re-acquired by its holder, at most one item lock is held, "
                 "and nested acquisitions follow one global order (command, pending write, fault list, cache, item, engine, LRU).")
    assumptions = ["a thread re-acquiring the command lock in shared mode does not block (glibc rwlocks prefer readers)",
                   "exceptions thrown by the standard library inside a locked region are not modelled"]

    def jobs(self, m, tier):
        j = [Job(o, LockRule, f) for o, f in sorted(m.handlers.items())]
        j += [Job("worker", LockRule, m.worker), Job("clear-fault", LockRule, m.clear_trigger), Job("crash-fault", LockRule, m.crash_trigger)]
        return j


class Guarded(Rule):
    """shared state is changed, and shared tables are walked, only under the lock that protects them"""
    name = "guarded-by"
    init = ()
    reads = True

    def __init__(self):
        self.count = {}

    def setup(self):
        m = self.m
        f = m.f
        g = {}
        for k in ("contents", "mapping", "item_locks"):
            g[f[k]] = "cache"
        for k in ("pages", "free_pages", "owner_pages", "owner_blocks", "owner_free", "page_dirty", "page_owner", "page_data", "page_free",
                  "page_blocks", "blk_off", "blk_to"):
            g[f[k]] = "engine"
        for k in ("lru_list", "lru_pos"):
            g[f[k]] = "lru"
        for k in ("item_synced", "data_blocks", "m_size", "m_nlinks", "m_atim", "m_mtim", "m_ctim"):
            g[f[k]] = "item"
        g[f["pending"]] = "wr"
        g[f["injecting"]] = "inj"
        for q, c in m.p.classes.items():
            if q.split("::")[-1] == "BlockInfo":
                for x in c["fields"]:
                    g[x["f"]] = "item"
        self.g = g
        # a further mutex of the cache guards the structure of its tables for threads that do not hold the cache lock
        self.leaf = [x["f"] for q, c in m.p.classes.items() if c is not None and f["cache_lock"].startswith(q + "::") for x in c["fields"]
                     if x["t"] in ("std::shared_mutex", "std::mutex") and x["f"] != f["cache_lock"]]

    def ok(self, st, what, write):
        m = self.m
        modes = "X" if write else "SX"
        if what == "item":
            return held_name(st, m.item_lock_name, "X") or any(self.itemlock(l[0]) and l[1] == "X" for l in st.locks) or held(st, m.L["cache"], "X") or \
                held(st, m.L["cmd"], "X")
        if what == "lru":
            return held(st, m.L["lru"], "X") or held(st, m.L["engine"], "X")
        if what == "cache":
            if held(st, m.L["cache"], modes) or (not write and held(st, m.L["cmd"], "X")):
                return True
            return not write and any(held(st, (x, None), modes) for x in self.leaf)
        return held(st, m.L[what], modes)

    def itemlock(self, lid):
        return lid[0] == self.m.item_lock_name or lid[0].startswith("ptr:") or lid[0].endswith("item_locks*")

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        if not hasattr(self, "g"):
            self.setup()
        if k in ("mut", "store"):
            P, write = ev[1], True
            if is_local(P) or P.k == "P.glob":
                return
            f = pfield(P)
        elif k == "read":
            P, write = ev[1], False
            if is_local(P) or P.k == "P.glob":
                return
            f = pfield(P)
        elif k == "iter":
            if ev[2] is None or ev[2].k not in ("ld", "at", "proj"):
                return
            f, write = None, False
            for x in ([ev[2]] if ev[2].k != "at" else [ev[2].a[0]]):
                if x.k in ("ld", "proj"):
                    f = x.a[1]
        elif k == "ext" and ev[1] in ("memcpy", "memset", "memmove") and ev[2]:
            f, write = self.dest(ev[2][0]), True
            if f is None and len(ev[2]) > 1 and ev[1] != "memset":
                f, write = self.dest(ev[2][1]), False
            if f is None:
                return
        else:
            return
        w = self.g.get(f)
        if w is None:
            return
        self.count.setdefault("guarded accesses", set()).add("%s:%s" % (cx.fn.name, f.split("::")[-1]))
        # an object under construction is not shared yet
        c = cx
        while c is not None:
            if c.fn.cls and c.fn.name == c.fn.cls.split("::")[-1]:
                return
            c = c.parent
        if not self.ok(st, w, write):
            e.report(cx, node, "%s is %s without the %s that protects it" % (f.split("::")[-1], "changed" if write else "read", self.NAMES[w]), st,
                     tag="%s:%s:%s" % ("change" if write else "read", self.site(cx), f.split("::")[-1]))

    def site(self, cx):
        return cx.fn.name

    NAMES = {"cache": "lock", "engine": "engine lock", "lru": "LRU lock", "item": "item lock", "wr": "pending-write lock", "inj": "fault-list lock"}

    def dest(self, t):
        ms = [mm[0] for mm in poly_of(t) if len(mm) == 1] if t.k == "poly" else [t]
        for x in ms:
            if x.k == "ld" and x.a[1] == self.m.f["page_data"]:
                return x.a[1]
        return None


class C04(Prop):
    minimum = {"guarded accesses": 20}
    rule_text = ("Lockset analysis over the interprocedural flow graph of every handler, the FIFO worker and the fault triggers: every change of a "
                 "shared table, page, file record or pending write, every copy into or out of a page and every walk over a shared table "
                 "happens with the lock that guards it (pages and their tables: engine lock; file tables: cache lock; file records: the file's "
                 "lock or the cache lock; LRU order: LRU lock).")

    def jobs(self, m, tier):
        j = [Job(o, Guarded, f) for o, f in sorted(m.handlers.items())]
        j += [Job("worker", Guarded, m.worker), Job("clear-fault", Guarded, m.clear_trigger)]
        return j


PROPS = {"C02": C02(), "C03": C03(), "C04": C04()}
