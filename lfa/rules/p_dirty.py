"""C10: what a write puts into the cache is marked unsynchronised and stays so until it is written back or discarded."""
from collections import namedtuple
from ..run import Prop, Job
from ..flow import Rule
from ..model import *
from .p_ops import sub, chain_of, cachelib
from .p_sync import field_terms

A = namedtuple("A", "dirty flag copied nopage item synced rec seen")
ZERO_A = A(0, 0, 0, 0, 0, 0, 0, 0)


def page_dest(m, t):
    """the page whose buffer a pointer points into, or None"""
    ms = [mm[0] for mm in poly_of(t) if len(mm) == 1] if t.k == "poly" else [t]
    for x in ms:
        if x.k == "ld" and x.a[1] == m.f["page_data"]:
            return x
    return None


def false_last(t):
    """a block entry (page number, page, offsets, synchronised) under construction: its last component, or None"""
    for x in sub(t):
        if x.k == "tup" and len(x.a) == 4:
            return x.a[3]
    return None


class Put(Rule):
    """caching written bytes: page dirty, block unsynchronised, file unsynchronised, block recorded"""
    name = "dirty-marking"
    init = ZERO_A

    def __init__(self, root):
        self.count = {}
        self.root = root

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def exempt(self, e, st):
        """the blocks are not written ones"""
        for f, v in st.facts.items():
            if f.k == "eq" and not v and any(self.opparam(x) for x in f.a):
                return True
        return False

    def opparam(self, x):
        return x.k == "param" and str(self.root.ps[x.a[0]].get("t")) in ("u32", "i32", "bool", "u8")

    def on(self, e, st, cx, node, ev):
        m = self.m
        a = st.auto
        k = ev[0]
        if k == "ext" and ev[1] in ("memcpy", "memmove") and ev[2]:
            x = page_dest(m, ev[2][0])
            if x is None:
                return
            self.hit("copies into pages", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
            a = a._replace(copied=st.loops[0][:2] if st.loops else ("out",), dirty=0 if a.seen else 1, flag=1)
        elif k == "store":
            f = pfield(ev[1])
            P, v = ev[1], ev[2]
            if f == m.f["page_dirty"]:
                self.hit("dirty marks", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if e.entail(st, v) is True or (v.k == "eq" and any(self.opparam(x) for x in v.a)):
                    a = a._replace(dirty=0, seen=1)
                else:
                    a = a._replace(dirty=1 if a.copied else 0, seen=0)
            elif P.k == "P.get" and P.a[0] == 3 and f == m.f["owner_blocks"]:
                if isk(v):
                    if not kval(v):
                        self.hit("block marks", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                    a = a._replace(flag=0 if not kval(v) else 1)
            elif f == m.f["item_synced"]:
                if isk(v):
                    if not kval(v):
                        self.hit("file marks", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                    a = a._replace(synced=0 if kval(v) else 1)
            elif f == m.f["blk_to"]:
                a = a._replace(rec=3 if a.rec == 2 else a.rec)
            elif f in (m.f["owner_blocks"], m.f["owner_pages"]):
                z = false_last(v)
                if z is not None and isk(z) and not kval(z):
                    a = a._replace(flag=0)
        elif k == "mut":
            f = pfield(ev[1])
            if f == m.f["owner_blocks"] and ev[2] not in ("erase", "clear"):
                z = None
                for x in ev[3]:
                    z = false_last(x) if z is None else z
                if z is not None:
                    if isk(z) and not kval(z):
                        self.hit("block marks", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                        a = a._replace(flag=0)
            elif f == m.f["data_blocks"] and ev[2] not in ("erase", "clear", "reserve"):
                a = a._replace(item=1, rec=2 if a.rec else 0)
            elif f == m.f["blk_to"] and ev[2] not in ("erase", "clear"):
                a = a._replace(rec=3 if a.rec == 2 else a.rec)
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "eq" and val and any(x is NULL for x in t.a):
                    a = a._replace(nopage=1)
                if not val and t.k in ("eq", "and", "lib") and any(x.k == "ld" and x.a[1] == m.f["page_owner"] for x in sub(t)):
                    a = a._replace(nopage=1)        # the page is not this file's
                if t.k == "lt0" and not val and a.rec == 0 and self.result(st, t):
                    a = a._replace(rec=1)
        elif k in ("iterend", "loopbreak"):
            mine = (cx.id, ev[1])
            if a.copied == mine:
                if a.dirty and not a.nopage and not self.exempt(e, st):
                    e.report(cx, node, "bytes are copied into a page that is not marked dirty", st)
                if a.flag and not a.nopage and not self.exempt(e, st):
                    e.report(cx, node, "bytes are copied into a page without the block being marked unsynchronised", st)
                a = a._replace(copied=0, dirty=0, flag=0)
            if not st.loops or st.loops[0][:2] == mine:
                a = a._replace(seen=0)
            if cx.id != e.root.id:
                st.auto = a
                return
            if a.rec == 1 and not a.nopage:
                e.report(cx, node, "a block that got a page is not recorded in the file's block map", st)
            elif a.rec == 2 and not a.nopage:
                e.report(cx, node, "a block that got a page keeps its old readable length", st)
            a = a._replace(rec=0, nopage=0)
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if a.item and not a.synced:
                e.report(cx, node, "blocks of the file are cached without the file being marked unsynchronised", st)
            if a.copied and (a.dirty or a.flag) and not self.exempt(e, st):
                e.report(cx, node, "bytes are copied into a page that is not marked unsynchronised", st)
        st.auto = a

    def result(self, st, t):
        """a test of the page number the engine returned for a block, in the loop over its results"""
        if not st.loops:
            return False
        l = st.loops[-1]
        return len(st.loops) == 1 and self.root_loop(l) and any(x.k in ("at", "kvit", "ival") for x in sub(t)) and not any(x.k == "get" for x in sub(t))

    def root_loop(self, l):
        return l[0] == 0


class Block(Rule):
    """every block of a successful write ends up in the cache or in the backing file"""
    name = "write-covers-blocks"
    init = (0, 0, 0)       # state of the current block: 0 none, 1 loop test passed, 2 done; a block was lost; loop finished

    def __init__(self):
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers or (cachelib(fn)) or torn(self.m, fn) or (fn.id in self.m.handler_ids and fn.id != e.root.fn.id)

    def forks(self, e, st, cx, node, name, av):
        return name in ("pwrite", "pwrite64") and not torn_context(self.m, cx)

    def blockloops(self, cx):
        """loop heads of this function whose body puts blocks into the cache"""
        c = cx.cfg
        v = getattr(c, "_blockloops", None)
        if v is None:
            v = set()
            for h, body in c.loopset.items():
                for n in body:
                    i = c.nodes[n].i
                    if i[0] == "call" and self.reaches(i[2]["f"]):
                        v.add(h)
            # outermost ones
            v = {h for h in v if not any(h in c.loopset[g] and g != h for g in v)}
            c._blockloops = v
        return v

    def reaches(self, fid, depth=0):
        memo = self.m.__dict__.setdefault("_putreach", {})
        if fid in memo:
            return memo[fid]
        memo[fid] = False
        f = self.m.p.fns.get(fid)
        r = False
        if f is not None:
            if f.name == "put_data_blocks":
                r = True
            elif f.body is not None and not cachelib(f) and f.id not in self.m.handler_ids:
                r = any(self.reaches(x.get(q)) for x in walk(f.body) for q in ("fn", "f") if x.get(q) in self.m.p.fns)
        memo[fid] = r
        return r

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        cur, lost, fin = st.auto
        if k == "head":
            if node in self.blockloops(cx):
                self.count.setdefault("block loops", set()).add("%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if cur == 1:
                    lost = 1
                cur = 3
        elif k == "branch" and cur == 3:
            if len(ev) > 3:
                dst = ev[3]
                if any(node in cx.cfg.loopset[h] for h in self.blockloops(cx)):
                    cur = 1 if any(dst in cx.cfg.loopset[h] for h in self.blockloops(cx)) else 0
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if cur == 1 and self.complete(t, val):
                    cur = 2
                if cur == 1 and self.cached(t, val):
                    self.count.setdefault("put results tested", set()).add("%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                    cur = 2
        elif k in ("loopdone", "loopbreak") and ev[1] in self.blockloops(cx):
            if cur == 1:
                lost = 1
            cur = 0
            fin = 1
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if lost and not negative(e, st, ev[1]):
                e.report(cx, node, "write can succeed although a block was neither cached nor written to the backing file", st)
        st.auto = (cur, lost, fin)

    def complete(self, t, val):
        """everything asked for was written"""
        d = poly_of(padd(t.a[0], t.a[1], -1)) if t.k == "eq" and len(t.a) == 2 and not isk(t.a[1]) else poly_of(t.a[0]) if t.k in ("eq", "lt0") else {}
        w = [m[0] for m in d if len(m) == 1 and m[0].k == "ext" and m[0].a[1].startswith("pwrite")]
        if len(w) != 1 or not [m for m in d if len(m) and m != (w[0],)]:
            return False
        if t.k == "eq":
            return val
        c = kval(t.a[1]) if isk(t.a[1]) else None
        # pwrite - n < c false, or n - pwrite < c true
        return (not val and c == 0) if d[(w[0],)] == 1 else (val and c == 1)

    def cached(self, t, val):
        """the cache says that it took the block"""
        x = t
        if t.k == "eq":
            o = [y for y in t.a if isk(y)]
            if len(o) != 1:
                return False
            x = [y for y in t.a if not isk(y)][0]
            val = val if kval(o[0]) else not val
        if not val or x.k not in ("at", "kvit", "ival", "proj", "get"):
            return False
        return any(y.k in ("call", "phi") for y in sub(x))


def torn(m, fn):
    return fn.body is not None and fn.id not in m.handler_ids and any(x.get("f") in (m.f["faults"], m.f["pending"]) for x in walk(fn.body))


class Clean(Rule):
    """nothing but a write-back or a discard makes data count as synchronised"""
    name = "no-silent-clean"
    init = ()

    def __init__(self, op):
        self.op = op
        self.count = {}

    def opaque(self, e, fn):
        return fn.id in self.m.triggers and fn.id != e.root.fn.id

    def on(self, e, st, cx, node, ev):
        m = self.m
        if ev[0] != "store" or not isk(ev[2]):
            return
        f = pfield(ev[1])
        v = kval(ev[2])
        if f not in (m.f["page_dirty"], m.f["item_synced"]) and not (ev[1].k == "P.get" and ev[1].a[0] == 3 and f == m.f["owner_blocks"]):
            return
        self.count.setdefault("marks", set()).add("%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
        if f == m.f["page_dirty"]:
            if v or self.wrote(st, cx) or self.discards(e, st, cx, ev[1]):
                return
            e.report(cx, node, "'%s' marks a page clean without writing it back or discarding its blocks" % self.op, st)
        elif v:
            c = cx
            while c is not None:
                if c.fn.cls and c.fn.name == c.fn.cls.split("::")[-1]:
                    return
                c = c.parent
            if not self.wrote(st, cx):
                e.report(cx, node, "'%s' marks %s synchronised without writing it back" % (self.op, "a file" if f == m.f["item_synced"] else "a block"), st)

    def wrote(self, st, cx):
        from .p_ops import syncing
        return any((cachelib(c.fn) and c.fn.id in syncing(self.m)) or writes_pages(self.m, c.fn) for c in chain_of(cx))

    def discards(self, e, st, cx, P):
        """the page holds no block any more"""
        m = self.m
        for c in chain_of(cx):
            if c.fn.cls and c.fn.name == c.fn.cls.split("::")[-1]:
                return True
            if empties(m, c.fn):
                return True
        if P.k != "P.fld":
            return False
        now = e.read(st, mk("P.fld", mk("&", mk("P.fld", P.a[0], m.f["page_blocks"])), m.f["blk_off"]))
        return any(f.k == "empty" and v and (f.a[0] is now or field_terms(f.a[0], m.f["blk_off"])) for f, v in st.facts.items())


def empties(m, fn):
    """forgets all blocks of a page"""
    memo = m.__dict__.setdefault("_empties", {})
    if fn.id not in memo:
        memo[fn.id] = False
        if fn.body is not None and fn.cls and (fn.cls.endswith("Page") or fn.cls.endswith("BlockOffsets")):
            for x in walk(fn.body):
                g = m.p.fns.get(x.get("fn") or x.get("f"))
                if g is not None and empties(m, g):
                    memo[fn.id] = True
                if str(x.get("m", x.get("q", ""))).split("::")[-1] == "clear" and any(y.get("f") == m.f["blk_off"] for y in walk(x)):
                    memo[fn.id] = True
    return memo[fn.id]


def writes_pages(m, fn):
    return fn.cls is not None and fn.cls.endswith("Page") and fn.body is not None and any(x.get("q") in ("pwrite", "write", "pwritev") for x in walk(fn.body))


class C10(Prop):
    minimum = {"copies into pages": 1, "dirty marks": 1, "block marks": 2, "file marks": 1, "block loops": 1, "put results tested": 1}
    rule_text = ("Obligation automata over the interprocedural flow graph: caching a block of a write marks the page dirty, the block's entry and the file "
                 "unsynchronised and records the block with its new readable length, in every iteration; in the write handler every block of the request is "
                 "accepted by the cache or written to the backing file, or the write fails; in all other handlers nothing is marked clean "
                 "outside a write-back or a discard.")

    def jobs(self, m, tier):
        put = m.find_fn(["cache::Cache::put_data_blocks"], None, "Cache::put_data_blocks")
        j = [Job("put", lambda: Put(put), put), Job("write-blocks", Block, m.handlers["write"])]
        j += [Job(o, (lambda o=o: Clean(o)), f) for o, f in sorted(m.handlers.items())]
        j += [Job("worker", lambda: Clean("worker"), m.worker), Job("clear fault", lambda: Clean("clear fault"), m.clear_trigger)]
        from ..page_rules import c10_jobs
        return j + c10_jobs(m)


PROPS = {"C10": C10()}
