"""C09: fsync durability.  C19: the checkpoint."""
from collections import namedtuple
from ..run import Prop, Job
from ..flow import Rule
from ..model import *
from .p_ops import sub, chain_of, CONTENT, fh_term, calls_in

WRITES = {"pwrite", "pwrite64", "pwritev", "pwritev2"}


def fact(st, pred):
    for f, v in st.facts.items():
        if pred(f, v):
            return True
    return False


def mentions(t, x):
    return any(y is x for y in sub(t))


def field_terms(t, fq):
    return any((y.k == "ld" and y.a[1] == fq) or (y.k == "proj" and len(y.a) > 1 and y.a[1] == fq) for y in sub(t))


def of_blocks(m, t):
    """the owner key when t is one owner's block map, else None"""
    if t is not None and t.k == "at" and field_terms(t.a[0], m.f["owner_blocks"]) and t.a[0].k in ("ld", "proj"):
        return t.a[1]
    return None


A = namedtuple("A", "plain trunc loop elem coll bad nxt adj full ob chk")


class Sync(Rule):
    """a successful fsync has written every dirty block of the file and set its size

    plain: fsync of the backing file done        trunc: size set
    loop:  loop over the file's blocks: 0 none 1 running 2 complete 3 cut short
    elem:  current element: 0 unknown 1 collected 2 written 3 clean
    coll:  collected elements: 0 none 1 all unwritten 2 written 3 carried, another follows 4 carried
    bad:   a write failed    nxt/adj: the next element exists / is adjacent    full: last write was complete
    ob:    in the loop over the collected elements
    chk:   elements gathered for one write: 0 none 1 some 2 some, already written
    """
    name = "fsync-durability"
    init = A(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)

    def __init__(self, root="fsync"):
        self.count = {}
        self.rootname = root
        self.kept = set()

    def opaque(self, e, fn):
        if fn.id in self.m.triggers or (fn.id in self.m.handler_ids and fn.id != e.root.fn.id):
            return True
        return fn.cls is not None and fn.cls.endswith("LazyFS") and fn.id not in self.m.handler_ids and fn.body is not None and \
            any(x.get("f") in (self.m.f["faults"], self.m.f["pending"]) for x in walk(fn.body))

    def key(self, e, st):
        m = self.m
        out = []
        for f, v in st.facts.items():
            if f.k in ("has", "empty") and (field_terms(f.a[0], m.f["mapping"]) or field_terms(f.a[0], m.f["contents"]) or
                                            (f.a[0].k == "ld" and f.a[0].a[1] == m.f["owner_pages"])):
                out.append((f.n if hasattr(f, "n") else id(f), v))
        return tuple(sorted(out))

    def forks(self, e, st, cx, node, name, av):
        return name in WRITES or name in ("ftruncate", "fsync", "fdatasync")

    def path(self, e):
        return mk("param", 0, e.root.fn.ps[0]["n"])

    def is_kept(self, l):
        return l[3] is not None and any(P in self.kept for P in places(l[3]))

    def outer(self, st, cx, head):
        """'blocks' / 'kept' when the loop of this event is the outermost loop over blocks"""
        for l in st.loops:
            b = of_blocks(self.m, l[2]) is not None
            if b or self.is_kept(l):
                return ("blocks" if b else "kept") if (l[0], l[1]) == (cx.id, head) else None
        return None

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        a = st.auto
        if k == "extres":
            name, av, v, failed = ev[1:5]
            if name in WRITES:
                a = a._replace(full=2 if failed else 0, bad=1 if a.full == 2 else a.bad)
            elif failed:
                a = a._replace(bad=1)
            if name in ("fsync", "fdatasync"):
                if fact(st, lambda t, v: (t.k == "has" and not v or t.k == "empty" and v) and field_terms(t.a[0], m.f["contents"])):
                    a = a._replace(plain=1)
            elif name == "ftruncate":
                self.count.setdefault("size settings", set()).add(cx.fn.name)
                sz = av[1]
                if (sz.k == "ld" and sz.a[1] != m.f["m_size"]) or isk(sz):
                    e.report(cx, node, "the synchronised file's size is set to %s, not to the cached size" % show(sz), st)
                a = a._replace(trunc=1)
            else:
                self.count.setdefault("write-backs", set()).add("%s in %s" % (name, cx.fn.name))
                self.check_write(e, st, cx, node, name, av)
                a = a._replace(elem=2, coll=2 if a.coll else 0, chk=2 if a.chk else 0)
        elif k == "ext" and ev[1] == "open" and any(cachelibfn(c.fn) for c in chain_of(cx)):
            p = ev[2][0]
            if self.rootname == "fsync":
                if p.k == "param" and p is not self.path(e):
                    e.report(cx, node, "the file written back is %s, not the file to synchronise" % show(p), st)
                elif any(y.k in ("ld", "at") and field_terms(y, m.f["mapping"]) for y in sub(p)):
                    e.report(cx, node, "the file written back is named by %s, not by the request's path" % show(p), st)
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                a = self.test(m, st, a, t, val)
        elif k == "iter":
            w = self.outer(st, cx, ev[1])
            if w == "blocks":
                o = of_blocks(m, ev[2])
                self.count.setdefault("write-back loops", set()).add(cx.fn.name)
                if self.rootname == "fsync" and o.k in ("param", "at", "ld") and \
                        not (o.k == "at" and field_terms(o.a[0], m.f["mapping"]) and o.a[1] is self.path(e)):
                    e.report(cx, node, "the blocks written back are those of %s, not of the file to synchronise" % show(o), st)
                a = a._replace(loop=1 if a.loop == 0 else a.loop, elem=0, nxt=0, adj=0)
            elif w == "kept" and (a.coll == 1 or a.ob):
                a = a._replace(coll=0 if a.coll == 1 else a.coll, ob=1, elem=0, nxt=0, adj=0)
        elif k == "mut" and ev[1].k == "P.var" and a.loop and ev[2] in ("insert", "push_back", "emplace", "emplace_back", "push", "[]="):
            if any(self.is_page(x) for x in sub(tuple(ev[3]))):
                self.kept.add(ev[1])
                self.count.setdefault("collections", set()).add("%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if a.ob:
                    if a.chk == 2:
                        e.report(cx, node, "blocks are gathered into a list that still holds those of an earlier write", st)
                    a = a._replace(chk=1)
                a = a._replace(elem=1 if a.elem == 0 else a.elem, coll=1)
        elif a.chk and ((k == "mut" and ev[1] in self.kept and ev[2] not in ("push_back", "insert", "emplace", "emplace_back", "reserve")) or
                        (k == "setvar" and ev[1] in self.kept)):
            a = a._replace(chk=0)
        elif k in ("iterend", "loopbreak"):
            w = self.outer(st, cx, ev[1])
            if w == "blocks" or (w == "kept" and a.ob):
                if k == "loopbreak":
                    a = a._replace(loop=3)
                else:
                    if a.elem == 0:
                        e.report(cx, node, "a block whose page may be dirty is not written back" if w == "blocks" else
                                 "a collected dirty block is neither written nor kept for a later write", st)
                    if w == "kept" and a.coll == 1:
                        if a.nxt and not a.adj:
                            e.report(cx, node, "blocks are gathered into one write although they are not known to be adjacent", st)
                        a = a._replace(coll=3 if a.nxt else 4)
                    a = a._replace(elem=0, nxt=0, adj=0)
        elif k == "loopdone":
            if of_blocks(m, ev[2]) is not None:
                if a.loop in (0, 1):
                    a = a._replace(loop=2)
            elif ev[3] is not None and any(P in self.kept for P in places(ev[3])):
                if a.coll == 1 and ev[4] is None:
                    a = a._replace(coll=0)
                a = a._replace(ob=0)
        elif k == "store":
            f = pfield(ev[1])
            dirty0 = f == m.f["page_dirty"] and isk(ev[2]) and not kval(ev[2])
            flag = ev[1].k == "P.get" and ev[1].a[0] == 3 and isk(ev[2]) and kval(ev[2])
            if (dirty0 or flag) and any(c.fn.id in self.syncfns() for c in chain_of(cx)):
                self.count.setdefault("clean marks", set()).add("%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if a.full != 1:
                    e.report(cx, node, "a block is marked clean without its bytes being known to be written completely", st)
            elif f is not None and f.endswith("iovec::iov_len") or ev[1].k == "P.fld" and str(ev[1].a[1]) == "iovec::iov_len":
                self.check_len(e, st, cx, node, ev[2])
            elif f == m.f["item_synced"] and isk(ev[2]) and kval(ev[2]):
                self.count.setdefault("clean marks", set()).add("%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if a.bad or a.full == 2:
                    e.report(cx, node, "the file is marked as synchronised although writing it back failed", st)
        elif k == "exit":
            self.count["returns"] = self.count.get("returns", 0) + 1
            if self.rootname != "fsync" or negative(e, st, ev[1]) or a.plain or a.bad or a.full == 2:
                return
            if not a.trunc:
                e.report(cx, node, "fsync can succeed without setting the size of the backing file", st)
            if a.loop == 3:
                e.report(cx, node, "fsync can succeed although the write-back stopped early", st)
            elif a.loop != 2 and not fact(st, lambda t, v: not v and t.k == "has" and
                                          (field_terms(t.a[0], m.f["owner_pages"]) or field_terms(t.a[0], m.f["owner_blocks"]))):
                e.report(cx, node, "fsync can succeed without writing the file's cached blocks back", st)
            if a.coll in (1, 4):
                e.report(cx, node, "fsync can succeed with a collected dirty block still unwritten", st)
        st.auto = a

    def test(self, m, st, a, t, val):
        if t.k == "eq" and any(x.k == "ext" and x.a[1] in WRITES for x in sub(t)) and not any(isk(x) and isinstance(kval(x), int) and kval(x) < 0 for x in t.a):
            if val and a.full == 2:
                # the number of bytes asked for is never negative
                st.dead = True
            a = a._replace(full=1) if val else a._replace(bad=1)
        f = m.f["page_dirty"]
        if a.elem == 0 and ((t.k == "ld" and t.a[1] == f and not val) or
                            (t.k == "eq" and isk(t.a[1]) and t.a[0].k == "ld" and t.a[0].a[1] == f and (not kval(t.a[1])) == val)):
            a = a._replace(elem=3)
        if t.k == "eq" and is_next(t):
            if any(x.k == "end" for x in sub(t)):
                a = a._replace(nxt=0 if val else 1)
            else:
                a = a._replace(adj=1 if val else 0)
        if t.k == "empty" and val and a.coll in (3, 4):
            a = a._replace(coll=0)
        return a

    def syncfns(self):
        from .p_ops import syncing
        return syncing(self.m)

    def is_page(self, x):
        return x.k == "ikey" or (x.k == "get" and x.a and x.a[0] in (0, 1)) or x.k == "at"

    def check_len(self, e, st, cx, node, n):
        """the last block of a write contributes its bytes up to and including the last readable one"""
        to = [mm[0] for mm in poly_of(n) if len(mm) == 1 and mm[0].k == "at" and field_terms(mm[0].a[0], self.m.f["blk_to"])] if n.k in ("poly", "at") else []
        if len(to) == 1:
            self.count.setdefault("write-back lengths", set()).add("%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
            if n is not padd(to[0], K(1)):
                e.report(cx, node, "a block is written back up to %s, not up to its last valid byte" % show(n), st)

    def check_write(self, e, st, cx, node, name, av):
        m = self.m
        if name in ("pwrite", "pwrite64"):
            self.check_len(e, st, cx, node, av[2])
        if name not in ("pwritev", "pwritev2") or len(av) < 4:
            return
        n, off = av[2], av[3]
        keys = [x for x in sub(off) if x.k == "ikey" or (x.k == "get" and x.a[0] == 0)]
        bs = [x for x in sub(off) if x.k == "ld" and x.a[1] == m.f["blksz"]]
        if not keys or not bs or len(set(keys)) != 1:
            if isk(off):
                e.report(cx, node, "blocks are written back at the constant offset %s" % show(off), st)
            return
        want = pmul(bs[0], padd(padd(keys[0], K(1)), pmul(K(-1), n)))
        self.count["offsets resolved"] = self.count.get("offsets resolved", 0) + 1
        if want is not off and not (n.k == "phi" and any(x.k == "phi" and x is not n for x in sub(off))):
            e.report(cx, node, "blocks are written back at offset %s instead of %s" % (show(off), show(want)), st)


def is_next(t):
    return any(x.k == "itnext" or (x.k == "lib" and x.a[0] == "next") for x in sub(t))


def places(it):
    for x in sub(it):
        if x.k.startswith("P."):
            yield x


def cachelibfn(fn):
    return fn.cls is not None and fn.cls.split("::")[-1] in ("Cache", "PageCacheEngine", "CustomCacheEngine", "Page")


class C09(Prop):
    minimum = {"write-backs": 1, "size settings": 1, "clean marks": 1, "returns": 1}
    rule_text = ("Along every path of fsync that returns success for a cached file: every element of the file's block map is written back or its "
                 "page is known clean; collected blocks reach a write before the loop over them ends; blocks gathered into one write are adjacent, "
                 "start at the offset of the first and end at the last valid byte; the size is set to the cached size; pages and the file are "
                 "marked clean only after a complete write; what a write puts into the cache is marked unsynchronised (the rules of C10).")

    def jobs(self, m, tier):
        from .p_dirty import C10
        return [Job("fsync", lambda: Sync("fsync"), m.handlers["fsync"])] + C10().jobs(m, tier)


PROPS = {"C09": C09()}
