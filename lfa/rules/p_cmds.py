"""C11: clearing the cache.  C19: the checkpoint.  C18: the report of unsynchronised data."""
from collections import namedtuple
from ..run import Prop, Job
from ..flow import Rule
from ..model import *
from .p_ops import sub, chain_of
from .p_worker import worker_jobs
from .p_sync import field_terms, places, of_blocks, Sync, WRITES, fact

A = namedtuple("A", "done cov sums ops cut last")
# done: obligations met for everything cached;  cov: collections (places) that hold a key of every cached file
# sums: per finished loop iteration (loop, bits, collections);  ops: what the current outermost iteration did
# cut: a loop over the files ended early
ZERO_A = A(0, frozenset(), (), (0, frozenset()), 0, 0)

EFFECTS = WRITES | {"write", "ftruncate", "truncate", "ftruncate64", "truncate64", "fallocate", "posix_fallocate", "unlink", "remove", "rename", "link",
                    "symlink", "utimes", "utimensat", "futimens", "chmod", "chown", "lchown", "mkdir", "rmdir", "mknod", "copy_file_range", "sendfile",
                    "fwrite", "fputs", "fprintf", "writev"}
GONE = ("erase", "clear", "assign", "swap", "[]=", "extract")
PUSH = ("insert", "push_back", "emplace", "emplace_back", "push", "push_front", "emplace_front", "op[]=", "[]=", "emplace_hint")


def whole_field(t, f):
    """t is the (whole) container held in field f"""
    return t is not None and origin(t) == f


def origin(t):
    """the field whose value (in some state) t is"""
    while t is not None:
        if t.k in ("ld", "proj"):
            return t.a[1] if len(t.a) > 1 else None
        if t.k == "phi":
            return pfield(t.a[1]) if len(t.a) > 1 and hasattr(t.a[1], "k") and t.a[1].k == "P.fld" else None
        if t.k == "stale":
            return next((x for x in t.a if isinstance(x, str) and "::" in x), None)
        if t.k != "mv":
            return None
        t = next((x for x in reversed(t.a) if hasattr(x, "k")), None)
    return None


def is_elem(t, it):
    """t is the key of the element the iterator stands at"""
    if t.k in ("ikey", "kvit", "kv"):
        return t.a[0] is it
    if t.k == "get" or t.k == "proj":
        return any(is_elem(x, it) for x in t.a if hasattr(x, "k"))
    return False


class Files(Rule):
    """every cached file is handled: loops over the file tables or over a collection of all their keys"""
    init = ZERO_A
    ALL = 1

    def __init__(self):
        self.count = {}
        self.srcs = set()

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def sources(self):
        return (self.m.f["contents"],)

    def kind(self, st, a, c, it):
        if c is not None and any(whole_field(c, f) for f in self.sources()):
            return "table"
        if it is not None:
            for P in places(it):
                if P.k == "P.fld" and P.a[1] in self.sources():
                    return "table"
                if P in a.cov:
                    return "copy"
        if c is not None and c in a.cov:
            return "copy"
        return None

    def loop(self, e, st, a, ev):
        """the event is about a loop over the files that is not inside another"""
        c, it = ev[2], ev[3]
        k = self.kind(st, a, c, it)
        if k is None:
            return None
        for l in st.loops:
            if l[1] == ev[1] and l[2] is c:
                break
            if self.kind(st, a, l[2], l[3]):
                return None
        return k

    def cls(self, e, st, t):
        """"key": the key of the cached file the running iteration is about; "val": what the path table maps it to"""
        if t.k in ("ikey", "kvit", "kv"):
            if any(l[3] is t.a[0] or l[3] is not None and l[3].k == t.a[0].k == "it" and l[3].a[0] == t.a[0].a[0] for l in st.loops) and any(P in st.auto.cov or P.k == "P.fld" and P.a[1] in self.sources() for P in places(t.a[0])):
                return "key"
        elif t.k in ("get", "proj"):
            return next((c for c in (e.klass(st, x) for x in t.a if hasattr(x, "k")) if c), None)
        elif t.k == "at" and len(t.a) > 1 and e.klass(st, t.a[1]) == "key" and origin(t.a[0]) == self.m.f["mapping"]:
            return "val"
        return None

    def elem_of(self, e, st, t):
        return e.klass(st, t) in ("key", "val")

    # hook: what a fact says about the running iteration
    def facts_bits(self, e, st, f, v):
        return 0

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        if k == "iter":
            if self.loop(e, st, a, ev):
                self.hit("file loops", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                a = a._replace(ops=(0, frozenset()))
                st.pc = {t: c for t, c in st.pc.items() if c not in ("key", "val")}
        elif k in ("iterend", "loopbreak"):
            w = self.loop(e, st, a, ev)
            if w:
                key = (cx.id, ev[1])
                old = [x for x in a.sums if x[0] == key]
                rest = tuple(x for x in a.sums if x[0] != key)
                if k == "loopbreak":
                    a = a._replace(cut=1, sums=rest)
                else:
                    bits = a.ops[0]
                    cov = a.ops[1]
                    if old:
                        bits &= old[0][1]
                        cov &= old[0][2]
                    a = a._replace(sums=tuple(sorted(rest + ((key, bits, cov),), key=lambda x: x[0])), ops=(0, frozenset()))
        elif k == "loopdone":
            if self.loop(e, st, a, ev):
                key = (cx.id, ev[1])
                old = [x for x in a.sums if x[0] == key]
                a = a._replace(sums=tuple(x for x in a.sums if x[0] != key))
                if old:
                    a = a._replace(done=a.done | old[0][1], cov=a.cov | old[0][2])
                else:
                    a = a._replace(done=self.ALL)       # there is no cached file
        elif k == "mut" and ev[2] in PUSH and ev[1].k == "P.var":
            if any(self.elem_of(e, st, x) for y in ev[3] if hasattr(y, "k") for x in ((y,) + y.a if y.k == "tup" else (y,)) if hasattr(x, "k")):
                a = a._replace(ops=(a.ops[0], a.ops[1] | {ev[1]}))
        elif k == "setvar" and len(ev) > 2 and hasattr(ev[2], "k"):
            pass
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "empty" and val and any(whole_field(t.a[0], f) for f in self.sources()):
                    a = a._replace(done=self.ALL)
                a = a._replace(ops=(a.ops[0] | self.facts_bits(e, st, t, val) & self.ALL, a.ops[1]))
                if t.k == "eq" and val and t.a[0].k == "size" and isk(t.a[1]) and kval(t.a[1]) == 0 and any(whole_field(t.a[0].a[0], f) for f in self.sources()):
                    a = a._replace(done=self.ALL)
        st.auto = a
        self.more(e, st, cx, node, ev)

    def more(self, e, st, cx, node, ev):
        pass


class Clear(Files):
    """bits: 1 content forgotten, 2 cache pages, 4 block table"""
    name = "clear-cache"
    ALL = 7

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or fn.id in self.m.handler_ids

    def bit(self, P):
        f = pfield(P)
        m = self.m
        return {m.f["contents"]: 1, m.f["owner_pages"]: 2, m.f["owner_blocks"]: 4}.get(f, 0) if P.k == "P.fld" else 0

    def table(self, t):
        """which table a value is a state of"""
        m = self.m
        f = origin(t)
        return 1 if f == m.f["contents"] else 6 if f in (m.f["owner_pages"], m.f["owner_blocks"]) else 0

    def facts_bits(self, e, st, f, v):
        if f.k == "has" and not v and self.elem_of(e, st, f.a[1]):
            return self.table(f.a[0])
        if f.k == "eq" and v and any(x is NULL for x in f.a):
            if any(y.k == "at" and len(y.a) > 1 and self.elem_of(e, st, y.a[1]) for x in f.a for y in sub(x)):
                return 1
        return 0

    def more(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        m = self.m
        if k == "mut":
            b = self.bit(ev[1])
            if b and ev[2] == "clear":
                a = a._replace(done=a.done | b, last=a.last | b)
                self.hit("discards", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
            elif b and ev[2] == "erase" and ev[3]:
                self.hit("discards", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if self.elem_of(e, st, ev[3][0]):
                    a = a._replace(ops=(a.ops[0] | b, a.ops[1]))
                a = a._replace(last=a.last | b)
            elif b and ev[2] in PUSH:
                a = a._replace(done=a.done & ~b)
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "has" and not val and self.table(t.a[0]) == 6:
                    a = a._replace(last=a.last | 6)
        elif k == "ext" and (ev[1] in EFFECTS or ev[1].split("::")[-1] in WRITES):
            e.report(cx, node, "clearing the cache calls %s" % ev[1], st)
        elif k in ("iterend", "loopbreak", "exit"):
            # what a loop does for one file: forgets it with its pages, or not at all
            outer = k == "exit" or st.loops and (st.loops[0][0], st.loops[0][1]) == (cx.id, ev[1]) and ev[2] is not None and \
                (any(whole_field(ev[2], f) for f in self.sources()) or not any(self.table(x) for x in sub(ev[2])))
            if outer:
                if a.last & 1 and (a.last & 6) != 6 and not (k == "exit" and a.done & 6 == 6):
                    e.report(cx, node, "clearing the cache forgets a file but keeps its cached pages", st)
                a = a._replace(last=0)
        if k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if not a.done & 1:
                e.report(cx, node, "clearing the cache can leave a file's content in the cache", st)
            if (a.done & 6) != 6:
                e.report(cx, node, "clearing the cache can leave cached pages of a file", st)
        st.auto = a


def syncfns(m):
    """the engine's write-back: the outermost engine functions that write"""
    w = {f.id for f in m.p.fns.values() if f.body is not None and f.cls is not None and f.cls.split("::")[-1] == "CustomCacheEngine" and
         any(x.get("q") in WRITES for x in walk(f.body))}
    return w


class Checkpoint(Files):
    """bit 1: written back"""
    name = "checkpoint"
    ALL = 1

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or fn.id in self.m.handler_ids

    def sources(self):
        return (self.m.f["contents"], self.m.f["mapping"])

    def facts_bits(self, e, st, f, v):
        return 1 if f.k == "has" and not v and origin(f.a[0]) == self.m.f["contents"] and self.elem_of(e, st, f.a[1]) else 0

    def more(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        m = self.m
        if k == "enter" and ev[1].name and self.is_sync(ev[1]) and not any(self.is_sync(c.fn) for c in chain_of(ev[4])):
            self.hit("write-backs", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
            owner = ev[2][0] if ev[2] else None
            path = [x for x in ev[2] if hasattr(x, "k")][-1] if ev[2] else None
            c = e.klass(st, owner) if owner is not None else None
            if c is not None:
                own = c == "val"
                if c == "key" and any(P.k == "P.fld" and P.a[1] == m.f["mapping"] for P in places(owner)):
                    e.report(cx, node, "the checkpoint looks a path up where the file's identity belongs", st)
                if own and path is not None and e.klass(st, path) == "val":
                    e.report(cx, node, "the checkpoint writes a file's content to %s, which is not its path" % show(path), st)
                elif own and path is not None and e.klass(st, path) != "key" and any(x.k in ("ikey", "kvit", "kv", "firstkey", "begin") for x in sub(path)):
                    e.report(cx, node, "the checkpoint writes a file's content to the path of another (%s)" % show(path), st)
                a = a._replace(ops=(a.ops[0] | 1, a.ops[1]))
        elif k == "mut" and ev[2] in GONE and pfield(ev[1]) in (m.f["contents"], m.f["mapping"], m.f["pages"], m.f["owner_pages"], m.f["owner_blocks"],
                                                              m.f["data_blocks"], m.f["blk_off"], m.f["blk_to"]):
            e.report(cx, node, "the checkpoint discards cached state (%s)" % pfield(ev[1]).split("::")[-1], st)
        elif k == "store" and pfield(ev[1]) in (m.f["m_size"], m.f["m_nlinks"], m.f["page_owner"]):
            e.report(cx, node, "the checkpoint changes %s" % pfield(ev[1]).split("::")[-1], st)
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if not a.done & 1:
                e.report(cx, node, "the checkpoint can end without having written a cached file back" + (" (its loop over the files ends early)" if a.cut else ""), st)
        st.auto = a

    def is_sync(self, fn):
        if not hasattr(self, "_sf"):
            self._sf = syncfns(self.m)
        return fn.id in self._sf


class Report(Rule):
    """changes nothing; selects what is not synchronised"""
    name = "report"
    init = ((), (), ())     # what the running iterations gathered, what they found, what they printed (or need not)

    def __init__(self):
        self.count = {}
        self.printing = set()       # loops that print their elements
        self.silent = []

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or fn.id in self.m.handler_ids

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def what(self, l2):
        """kind of a loop: the cached files, the blocks of a file, the table of paths"""
        m = self.m
        if whole_field(l2, m.f["contents"]):
            return "file"
        if of_blocks(m, l2) is not None:
            return "block"
        if whole_field(l2, m.f["mapping"]):
            return "path"
        return None

    def known(self, f, v, kind, it):
        """True/False/None: what the fact says of the element (synchronised; of a path: that of the file asked for)"""
        m = self.m
        if kind == "path":
            if f.k == "eq" and any(x.k == "at" and is_elem(x.a[1], it) for x in f.a if hasattr(x, "k")):
                return v
            return None
        x = f
        if f.k == "eq" and isk(f.a[1]):
            x, v = f.a[0], v == bool(kval(f.a[1]))
        if not any(is_elem(y, it) for y in sub(x)):
            return None
        if kind == "file" and x.k in ("proj", "ld") and len(x.a) > 1 and x.a[1] == m.f["item_synced"]:
            return v
        if kind == "block" and x.k == "get" and x.a[0] == 3:
            return v
        if kind == "block" and x.k in ("proj", "ld") and len(x.a) > 1 and x.a[1] == m.f["page_dirty"]:
            return not v
        return None

    def cls(self, e, st, t):
        if t is TRUE or isk(t) and kval(t) is True:
            return "T"
        if t is FALSE or isk(t) and kval(t) is False:
            return "F"
        neg = t.k == "not"
        u = t.a[0] if neg else t
        libs = [x.a[0] for x in sub(u) if x.k == "lib" and x.a]
        if "any_of" in libs and u.k == "lib" or "none_of" in libs and u.k == "lib":
            return "keep" if ("none_of" in libs) != neg else "drop"
        if any(x in libs for x in ("find_first_of", "find", "find_if")) and u.k in ("eq", "has"):
            return "keep" if (u.k == "eq") != neg else "drop"
        return None

    def excused(self, e, st, t, val, l):
        """an element need not be printed: it is empty, excluded, or the next one continues it"""
        if t.k == "empty" and val:
            return True
        u, v = t, val
        if t.k == "eq" and isk(t.a[1]) and kval(t.a[1]) in (0, False, True) and not isinstance(kval(t.a[1]), str):
            u, v = t.a[0], val == bool(kval(t.a[1]))
        if u.k == "not":
            u, v = u.a[0], not v
        c = e.klass(st, u)
        if c in ("T", "F"):
            st.dead = st.dead or (c == "T") != v
            return False
        if c in ("keep", "drop"):
            return v == (c == "drop")
        if t.k == "eq" and val and any(x.k == "itnext" and any(y is l[3] for y in sub(x)) for x in sub(t)):
            d = padd(t.a[0], t.a[1], -1)
            return abs(split_const(d)[1]) == 1
        return False

    def presents(self, e, st, cx, node, ev):
        """loops over what was gathered: each element is printed, unless it is empty, excluded or continued by the next"""
        k = ev[0]
        if k == "ext" and ev[1].startswith("spdlog::"):
            for l in st.loops:
                if self.what(l[2]) is None and any(x is l[3] or is_elem(x, l[3]) for y in ev[2] if hasattr(y, "k") for x in sub(y)):
                    self.printing.add((l[0], l[1]))
                    self.hit("listings", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                    st.auto = st.auto[:2] + (tuple(sorted(set(st.auto[2]) | {(l[0], l[1])})),)
        elif k == "branch" and st.loops:
            l = st.loops[-1]
            known = ev[1] in (TRUE, FALSE) and any(v.k == "il" and not v.a for x, v in st.env.items() if x[0] == cx.id)    # decided by a list known to be empty
            for t, val in atoms(ev[1], ev[2]):
                if known or self.excused(e, st, t, val, l):
                    st.auto = st.auto[:2] + (tuple(sorted(set(st.auto[2]) | {(l[0], l[1])})),)
        elif k == "iter":
            st.auto = st.auto[:2] + (tuple(x for x in st.auto[2] if x != (cx.id, ev[1])),)
        elif k in ("iterend", "loopbreak") and self.what(ev[2]) is None:
            if k == "loopbreak" or (cx.id, ev[1]) not in st.auto[2]:
                self.silent.append(((cx.id, ev[1]), cx, node, k, st.copy() if hasattr(st, "copy") else st))

    def finish(self, e):
        for l, cx, node, k, st in self.silent:
            if l in self.printing:
                e.report(cx, node, "the report stops listing before the last element" if k == "loopbreak" else
                         "the report leaves out an element of what it gathered", st)

    def on(self, e, st, cx, node, ev):
        m = self.m
        k = ev[0]
        self.presents(e, st, cx, node, ev)
        if k == "store" and pfield(ev[1]) in m.cache_state and not is_local(ev[1]) and ev[1].k != "P.var":
            if not any(x.k == "P.var" for x in sub(ev[1])):
                e.report(cx, node, "the report changes %s" % pfield(ev[1]).split("::")[-1], st)
        elif k == "mut":
            f = pfield(ev[1])
            if f in m.cache_state and not any(x.k == "P.var" for x in sub(ev[1])):
                e.report(cx, node, "the report changes %s (%s)" % (f.split("::")[-1], ev[2]), st)
            if ev[2] in PUSH and ev[1].k == "P.var":
                for l in st.loops:
                    if self.what(l[2]) and any(is_elem(x, l[3]) for y in ev[3] if hasattr(y, "k") for x in sub(y)):
                        self.hit("selections", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                        st.auto = (tuple(sorted(set(st.auto[0]) | {(l[0], l[1])})),) + st.auto[1:]
        elif k in ("delete", "free"):
            pass
        elif k == "ext" and (ev[1] in EFFECTS and ev[1] not in ("write", "fwrite", "fputs", "fprintf") or ev[1].split("::")[-1] in WRITES or
                             ev[1] in ("fsync", "fdatasync", "kill", "raise", "abort")):
            e.report(cx, node, "the report calls %s" % ev[1], st)
        elif k == "iter":
            st.auto = (tuple(x for x in st.auto[0] if x != (cx.id, ev[1])), tuple(x for x in st.auto[1] if x[0] != (cx.id, ev[1]))) + st.auto[2:]
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                for l in st.loops:
                    w = self.what(l[2])
                    s = self.known(t, val, w, l[3]) if w else None
                    if s is not None:
                        st.auto = (st.auto[0], tuple(sorted([x for x in st.auto[1] if x[0] != (l[0], l[1])] + [((l[0], l[1]), s)]))) + st.auto[2:]
        elif k in ("iterend", "loopbreak"):
            w = self.what(ev[2])
            if w:
                got = (cx.id, ev[1]) in st.auto[0]
                self.hit("loops", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if k == "loopbreak":
                    if w != "path" or not got:
                        e.report(cx, node, "the report stops looking at the %ss before the last" % w, st)
                s = dict(st.auto[1]).get((cx.id, ev[1]))
                if k == "loopbreak":
                    pass
                elif w == "path":
                    if got and s is not True:
                        e.report(cx, node, "the report lists paths of other files", st)
                    elif not got and s is not False:
                        e.report(cx, node, "the report omits a path of an unsynchronised file", st)
                else:
                    if got and s is not False:
                        e.report(cx, node, "the report lists a %s that may be synchronised" % w, st)
                    elif not got and s is not True:
                        e.report(cx, node, "the report omits a %s that may be unsynchronised" % w, st)
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1


class C11(Prop):
    minimum = {"discards": 2, "returns": 1}
    rule_text = ("Along every path of the clear-cache command, for the table of cached contents and any number of files: a loop over all of them (or over a "
                 "collection that received every key) removes in each iteration the file's content, its pages and its block table, none can be forgotten with "
                 "its pages kept, and no call reached writes, truncates or changes any backing file.")

    def jobs(self, m, tier):
        return [Job("clear-cache", Clear, m.command("command_fault_clear_cache", "clear_all_cache"))] + worker_jobs(m, "clear")


class C19(Prop):
    minimum = {"file loops": 1, "returns": 1, "write-backs": 1}
    rule_text = ("Along every path of the checkpoint command: the loop over the files visits every entry, each iteration reaches the write-back with the entry's own "
                 "file and path or finds nothing cached, the write-back itself obeys the rules of C09, and nothing cached is discarded or resized.")

    def jobs(self, m, tier):
        c = m.command("command_checkpoint", "full_checkpoint")
        return [Job("checkpoint", Checkpoint, c),
                Job("fsync", lambda: Sync("fsync"), m.handlers["fsync"])] + worker_jobs(m, "checkpoint")


class C18(Prop):
    minimum = {"selections": 2, "loops": 2, "returns": 1}
    rule_text = ("On every path of the report command: no state of the cache changes and no file is touched; each loop over files and over blocks visits every element and "
                 "selects exactly those whose synchronisation mark is false; the paths listed are those mapped to the file.")

    def jobs(self, m, tier):
        return [Job("report", Report, m.command("command_unsynced_data_report", "report_unsynced_data"))] + worker_jobs(m, "report")


PROPS = {"C11": C11(), "C18": C18(), "C19": C19()}
