"""C22, C10: what the small functions under the cache do: owners, records and readable lengths, taking and giving back pages, truncation."""
from .run import Job
from .model import *
from .rules.p_ops import sub
from .rules.p_place import Base, known, differs, told, INSERTS

EMPTYING = {"clear", "swap", "assign", "op=", "erase"}
PAGE = ("is_page_owner", "contains_block", "reset", "change_owner", "remove_block", "write_null_from", "make_block_readable_to", "is_page_dirty",
        "sync_data", "get_page_owner", "set_page_as_dirty")


def lname(t):
    return t.a[0] if t.k == "lib" else None


def has_lib(t, names):
    return any(lname(x) in names for x in sub(t))


class Answer(Base):
    """an answer about a page or block is the comparison it stands for"""
    name = "page-facts"

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def cls(self, e, st, t):
        return t if t is TRUE or t is FALSE or isnum(t) else None

    def relevant(self, e, t):
        """the term is the comparison asked for, or contains it"""
        p = self.par(e, 0)
        if self.kind == "owner":
            return any(x.k == "eq" and any(y is p for y in x.a) and any(y.k == "ld" and y.a[1] == self.m.f["page_owner"] for y in x.a) for x in sub(t)) or \
                any(lname(x) in ("compare", "equal", "strcmp") for x in sub(t)) and any(x is p for x in sub(t))
        return any(x.k == "has" and x.a[1] is p for x in sub(t)) or has_lib(t, {"count"}) and any(x is p for x in sub(t))

    WHAT = {"owner": "a page counts as another file's", "block": "a block counts as held by a page that does not hold it", "item": "a block counts as recorded that is not"}

    def on(self, e, st, cx, node, ev):
        if ev[0] != "ret" or cx.fn.id != e.root.fn.id:
            return
        self.hit("answers to tests", self.kind)
        v = ev[1]
        if v is None or not hasattr(v, "k"):
            return
        if v is FALSE:
            return
        if v is TRUE:
            if not any(self.relevant(e, t) and val is True for t, val in st.facts.items()) and \
                    not any(self.relevant(e, t) for t, val in st.facts.items() if t.k != "has" and t.k != "eq"):
                e.report(cx, node, self.WHAT[self.kind], st)
        elif known(v) and not self.relevant(e, v):
            e.report(cx, node, "%s: the answer is %s" % (self.WHAT[self.kind], show(v)), st)
        elif known(v) and v.k == "not" and v.a[0].k == "and" and not all(self.relevant(e, x) for x in v.a[0].a):
            e.report(cx, node, "%s: the answer is %s" % (self.WHAT[self.kind], show(v)), st)


class Owner(Base):
    """a page's owner becomes the one given"""
    name = "page-owner"
    init = 0

    def on(self, e, st, cx, node, ev):
        if ev[0] == "store" and pfield(ev[1]) == self.m.f["page_owner"]:
            self.hit("owner changes", "page")
            if differs(ev[2], self.par(e, 0)):
                e.report(cx, node, "a page is given to %s" % show(ev[2]), st)
            st.auto = 1
        elif ev[0] == "mut" and pfield(ev[1]) == self.m.f["page_owner"]:
            st.auto = 1
        elif ev[0] == "exit" and not st.auto:
            p = self.par(e, 0)
            if not any(val and t.k == "eq" and any(x is p for x in t.a) and any(x.k == "ld" and x.a[1] == self.m.f["page_owner"] for x in t.a)
                       for t, val in st.facts.items()):
                e.report(cx, node, "a page keeps its owner when it is given to another file", st)


class Reset(Base):
    """an emptied page holds no block, has no place taken and no bytes of its former file"""
    name = "page-reset"
    init = frozenset()

    def setup_loose(self, e):
        # bytes cleared by a loop or a library call this rule does not model
        return any(x.get("k") == "idx" for x in walk(e.root.fn.body))

    def on(self, e, st, cx, node, ev):
        m = self.m
        k = ev[0]
        if k == "mut" and ev[2] in EMPTYING:
            for n, f in (("blocks", m.f["blk_off"]), ("free", m.f["page_free"])):
                if pfield(ev[1]) == f:
                    st.auto = st.auto | {n}
            if pfield(ev[1]) == m.f["page_blocks"]:
                st.auto = st.auto | {"blocks"}
        elif k == "store" and pfield(ev[1]) in (m.f["blk_off"], m.f["page_blocks"], m.f["page_free"]):
            st.auto = st.auto | {"free" if pfield(ev[1]) == m.f["page_free"] else "blocks"}
        elif k == "ext" and any(x.k == "ld" and x.a[1] == m.f["page_data"] for a in ev[2] for x in sub(a)):
            if ev[1] == "memset":
                dst, val, n = ev[2][:3]
                bare = dst.k == "ld" and dst.a[1] == m.f["page_data"]
                if not bare or known(n) and n.k != "ld" or n.k == "ld" and n.a[1] == m.f["blksz"] or val is not K(0):
                    return
            st.auto = st.auto | {"zero"}
        elif k in ("libcall", "opaque", "icall", "store", "new") and any(x.k == "ld" and x.a[1] == m.f["page_data"] for a in ev[1:] for y in (a if isinstance(a, (list, tuple)) else [a])
                                                                    if hasattr(y, "k") for x in sub(y)):
            st.auto = st.auto | {"zero"}
        elif k == "exit":
            self.hit("page resets", "page")
            for n, msg in (("blocks", "an emptied page still holds its blocks"), ("free", "an emptied page keeps places that are given out again"),
                           ("zero", "an emptied page keeps bytes of its former file")):
                if n not in st.auto and not (n == "zero" and self.setup_loose(e)):
                    e.report(cx, node, msg, st)


class Cleared(Base):
    """the place of a removed block keeps none of its bytes"""
    name = "block-cleared"
    init = 0

    def on(self, e, st, cx, node, ev):
        m = self.m
        if ev[0] in ("ext", "libcall", "opaque", "icall", "store") and any(
                x.k in ("ld", "P.fld") and x.a[1] == m.f["page_data"] for a in ev[1:] for y in (a if isinstance(a, (list, tuple)) else [a]) if hasattr(y, "k") for x in sub(y)):
            st.auto = st.auto | 1
        elif ev[0] == "mut" and pfield(ev[1]) == m.f["blk_off"] and ev[2] == "erase":
            self.hit("removals", "bytes")
            st.auto = st.auto | 2
        elif ev[0] == "branch" and any(t.k == "has" and self.blk(t.a[0]) and not v for t, v in atoms(ev[1], ev[2])):
            st.auto = st.auto | 4
        elif ev[0] == "exit" and st.auto == 2 and not any(x.get("k") == "idx" for x in walk(e.root.fn.body)):
            e.report(cx, node, "the place of a removed block keeps its bytes", st)


class PageId(Base):
    """the page of a block is the one recorded, or none"""
    name = "page-number"

    def cls(self, e, st, t):
        return t

    def on(self, e, st, cx, node, ev):
        if ev[0] == "ret" and cx.fn.id == e.root.fn.id:
            v = ev[1]
            self.hit("page numbers", "item")
            if v is None or not known(v):
                return
            if isnum(v) and kval(v) < 0 or any(x.k == "ld" and str(x.a[1]).endswith("page_index_number") for x in sub(v)) and \
                    not any(x.k == "at" and x.a[1] is not self.par(e, 0) and known(x.a[1]) for x in sub(v)):
                return
            if isnum(v) or v.k == "param" or any(x.k == "at" for x in sub(v)):
                e.report(cx, node, "the page of a block is taken to be %s" % show(v), st)


class Readable(Base):
    """the readable length recorded for a block is the larger of the old and the new one"""
    name = "readable-length"
    init = None

    def cls(self, e, st, t):
        return t if t.k in ("param", "get", "max") else None

    def old(self, t):
        return t.k == "get" and t.a[0] == 1 and t.a[1].k == "ld"

    def maxed(self, e, st, v):
        """the value is the larger one on this path (None: not known)"""
        p = self.par(e, 0)
        if v.k in ("max", "ite", "min"):
            return v.k != "min"
        olds = [x for t in list(st.facts) + [v] for x in sub(t) if self.old(x)]
        if v is p:
            return any(e.entail(st, LT(v, o)) is False or e.entail(st, LT(o, v)) is True for o in olds)
        if self.old(v):
            return e.entail(st, LT(v, p)) is False or e.entail(st, LT(p, v)) is True
        return None

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        if k == "store" and ev[1].k == "P.get" and ev[1].a[0] == 1 or k == "store" and ev[1].k == "P.fld" and str(ev[1].a[1]).endswith("readable_offset"):
            st.auto = ev[2]
        elif k == "ret" and cx.fn.id == e.root.fn.id:
            self.hit("readable lengths", "block")
            v = ev[1]
            if v is not None and known(v) and self.maxed(e, st, v) is False:
                e.report(cx, node, "the readable length reported for a block is not the larger of the recorded and the new one", st)
        elif k == "exit":
            p = self.par(e, 0)
            if st.auto is not None:
                if known(st.auto) and self.maxed(e, st, st.auto) is False:
                    e.report(cx, node, "the readable length of a block can shrink when it is written", st)
            elif not any(self.old(x) and (e.entail(st, LT(x, p)) is False or e.entail(st, LT(p, x)) is True) for t in st.facts for x in sub(t)):
                e.report(cx, node, "the readable length of a block is not recorded", st)


class ReadTo(Base):
    """the page records the readable length given"""
    name = "readable-record"
    init = 0

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        f = self.m.f["blk_to"]
        if k == "mut" and pfield(ev[1]) == f:
            if ev[2] in ("op[]=", "insert_or_assign"):
                self.hit("readable lengths", "page")
                a = ev[3]
                t = a[0].a if len(a) == 1 and a[0].k == "tup" else a
                if len(t) > 1 and (differs(t[0], self.par(e, 0)) or differs(t[1], self.par(e, 1))):
                    e.report(cx, node, "%s is recorded as readable to %s" % (show(t[0]), show(t[1])), st)
                st.auto = 2
            elif ev[2] == "erase" and st.auto < 2:
                st.auto = 1
            elif ev[2] in INSERTS and st.auto == 1:
                st.auto = 2
        elif k == "branch" and st.auto == 0 and any(t.k == "has" and not v for t, v in atoms(ev[1], ev[2])):
            st.auto = 1
        elif k == "store" and st.auto < 2 and ev[1].k != "P.var":
            if ev[2] is self.par(e, 1):
                st.auto = 2
        elif k == "exit" and st.auto < 2:
            # equal already
            if not any(val and t.k == "eq" and any(x is self.par(e, 1) for x in t.a) for t, val in st.facts.items()):
                e.report(cx, node, "the readable length of a block is not recorded in its page", st)


class Shown(Base):
    """a page of the file records the readable length of the block given"""
    name = "readable-record"
    init = 0

    def opaque(self, e, fn):
        return (fn.cls or "").split("::")[-1] == "Page"

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        if k == "opaque" and ev[1].name == "make_block_readable_to":
            self.hit("readable lengths", "engine")
            for i, p in ((0, 2), (1, 3)):
                if differs(ev[3][i], self.par(e, p)):
                    e.report(cx, node, "the page is told %s where %s is given" % (show(ev[3][i]), show(self.par(e, p))), st)
            st.auto = 1
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                t, val = told(t, val)
                if t.k == "call" and not val and str(t.a[-1]).endswith(("::is_page_owner", "::contains_block")):
                    st.auto = 1
                if t.k == "eq" and any(x is NULL for x in t.a) and val or t.k == "has" and not val:
                    st.auto = 1
        elif k == "exit" and not st.auto:
            e.report(cx, node, "the readable length of a block is not recorded in its page", st)


class Take(Base):
    """a page given out was taken off the free list, or emptied; its number and address belong together"""
    name = "page-taken"
    init = (0, frozenset(), None)           # taken off the list at, pages emptied, block entry of the evicted page handled

    def opaque(self, e, fn):
        return (fn.cls or "").split("::")[-1] in ("Page", "BlockOffsets")

    def cls(self, e, st, t):
        return t if t.k in ("lib", "at", "tup") or t is NULL else None

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        pop, reset, blk = st.auto
        if k == "mut" and pfield(ev[1]) == m.f["free_pages"] and ev[2].startswith(("pop", "erase")):
            st.auto = (ev[2], reset, blk)
        elif k == "mut" and ev[2] in ("erase", "clear") and (any(x.k == "P.fld" and x.a[1] == m.f["owner_blocks"] for x in sub(ev[1]))):
            st.auto = (pop, reset, 1)
        elif k == "opaque" and ev[1].name == "reset":
            self.hit("pages taken", "evicted")
            st.auto = (pop, reset | {ev[2]}, blk)
        elif k == "iter":
            st.auto = (pop, reset, 0)
        elif k == "iterend":
            if blk == 0 and ev[2].k == "call" and str(ev[2].a[-1]).endswith("get_block_readable_offsets"):
                e.report(cx, node, "a block of a page taken away stays in its owner's index", st)
            st.auto = (pop, reset, None)
        elif k == "ret" and cx.fn.id == e.root.fn.id:
            v = ev[1]
            self.hit("pages taken", "returns")
            if v is None or v.k not in ("tup", "il") or len(v.a) != 2:
                return
            n, p = v.a
            if isnum(n) and kval(n) < 0:
                return
            if p.k == "at" and known(p) and known(n) and p.a[1] is not n:
                e.report(cx, node, "page %s is reported as page %s" % (show(p.a[1]), show(n)), st)
            src = [x for x in sub(n) if x.k == "lib" and x.a[0] in ("back", "front")]
            if not src:
                return
            s = src[0]
            tab = [x for x in sub(s) if x.k == "ld"]
            if tab and tab[0].a[1] == m.f["free_pages"]:
                if not pop:
                    e.report(cx, node, "a page given out stays free", st)
                elif pop == "pop_back" and s.a[0] == "front" or pop == "pop_front" and s.a[0] == "back":
                    e.report(cx, node, "the page given out is not the one taken off the free list", st)
            elif tab and tab[0].a[1] == m.f["lru_list"]:
                if known(p) and not reset:
                    e.report(cx, node, "a page taken from another file is given out with its blocks", st)


class Give(Base):
    """a page given back is emptied and belongs to no file; only pages of the file are"""
    name = "page-given-back"
    init = (None, frozenset(), None, frozenset())            # page freed, done to it, owner test, blocks' state

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def opaque(self, e, fn):
        return (fn.cls or "").split("::")[-1] == "Page" and fn.name in PAGE

    def cls(self, e, st, t):
        if t.k == "at" and known(t) or t is NULL or told(t, True)[0].k == "call":
            return t if t.k == "at" else told(t, True)[0]
        return None

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        freed, done, own, blk = st.auto
        if k in ("iter", "loopdone", "loopbreak"):
            st.auto = self.init
        elif k == "mut" and pfield(ev[1]) == m.f["free_pages"] and ev[2] in ("push_back", "emplace_back"):
            self.hit("pages given back", self.kind)
            st.auto = (ev[3][0], done, own, blk)
        elif k == "mut" and ev[2] == "erase" and any(x.k == "P.fld" and x.a[1] == m.f["owner_blocks"] for x in sub(ev[1])):
            st.auto = (freed, done, own, blk | {"unlinked"})
        elif k == "mut" and ev[2] == "erase" and ev[1].k in ("P.var", "P.ref") :
            st.auto = (freed, done, own, blk | {"unlinked"})
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                t, val = told(t, val)
                if t.k == "call" and str(t.a[-1]).endswith("::is_page_owner"):
                    st.auto = st.auto[:2] + (val,) + st.auto[3:]
                if t.k == "call" and str(t.a[-1]).endswith("::contains_block") and not val:
                    st.auto = st.auto[:3] + (st.auto[3] | {"absent"},)
                if t.k == "eq" and any(x is NULL for x in t.a) and val:
                    st.auto = st.auto[:2] + (False,) + st.auto[3:]
        elif k == "opaque":
            n = ev[1].name
            if n in ("reset", "change_owner"):
                if n == "change_owner" and ev[3][0].k == "param":
                    e.report(cx, node, "a page given back keeps an owner", st)
                st.auto = (freed, done | {n}, own, blk)
            elif self.kind == "truncate" and n in ("remove_block", "write_null_from", "make_block_readable_to"):
                self.cut(e, st, cx, node, n, ev[3])
        elif k == "iterend":
            if freed is not None and not ("reset" in done and "change_owner" in done):
                e.report(cx, node, "a page is given back %s" % ("with its blocks" if "reset" not in done else "that still belongs to its file"), st)
            if self.kind == "truncate":
                self.hit("truncated blocks", "engine")
                if "removed" in blk and "unlinked" not in blk:
                    e.report(cx, node, "a removed block stays in its owner's index", st)
                if own and "removed" not in blk and "zeroed" not in blk and "absent" not in blk:
                    e.report(cx, node, "a block beyond the end of a truncated file keeps its bytes", st)

    def cut(self, e, st, cx, node, n, args):
        frm, idx = self.par(e, 2), self.par(e, 3)
        own = st.auto[2]
        key = None
        for x in sub(args[0]):
            if x.k == "ikey":
                key = x
        if own is None:
            e.report(cx, node, "truncation changes a page that may belong to another file", st)
        last = None                     # the block is the one the file is cut in
        for t, val in st.facts.items():
            if t.k == "eq" and any(x is frm for x in t.a) and any(x.k == "ikey" for x in t.a):
                last = val
        pos = e.entail(st, LT(K(0), idx))
        if n == "remove_block":
            if args[0] is frm and last is not True or known(args[0]) and key is None and args[0] is not frm:
                e.report(cx, node, "truncation removes block %s" % show(args[0]), st)
            if last and pos:
                e.report(cx, node, "truncation removes the block that holds the end of the file", st)
            st.auto = st.auto[:3] + (st.auto[3] | {"removed"},)
        else:
            if last is None or last is False:
                e.report(cx, node, "a block other than the one the file is cut in is cut", st)
            want = idx if n == "write_null_from" else padd(idx, K(-1))
            if differs(args[1], want):
                e.report(cx, node, "the last block is cut at %s, not %s" % (show(args[1]), show(want)), st)
            if n == "write_null_from":
                st.auto = st.auto[:3] + (st.auto[3] | {"zeroed"},)


class Blocks(Base):
    """truncation hands every block beyond the end on, and cuts the last one at the end"""
    name = "block-map-cut"
    init = frozenset()

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        blk, idx = self.par(e, 0), self.par(e, 1)
        if k == "iter":
            st.auto = frozenset()
        elif k == "store" and ev[1].k == "P.get" and ev[1].a[0] == 1:
            self.hit("truncated blocks", "map")
            if differs(ev[2], padd(idx, K(-1))):
                e.report(cx, node, "the last block of a truncated file is readable to %s, not %s" % (show(ev[2]), show(padd(idx, K(-1)))), st)
        elif k == "mut" and ev[1].k == "P.var" and ev[2] in INSERTS:
            st.auto = st.auto | {"handed"}
        elif k == "mut" and pfield(ev[1]) == m.f["data_blocks"] and ev[2] == "erase":
            st.auto = st.auto | {"erased"}
        elif k in ("iterend", "loopbreak"):
            if "erased" in st.auto and "handed" not in st.auto:
                e.report(cx, node, "a block dropped from the file's map keeps its page", st)
            st.auto = frozenset()


class Cut(Base):
    """a truncation asks for the block and offset its size gives"""
    name = "truncation"
    init = frozenset()

    def opaque(self, e, fn):
        c = (fn.cls or "").split("::")[-1]
        return c in ("CustomCacheEngine", "Data", "Item") and fn.name != "get_data" or c == "Cache" and fn.id != e.root.fn.id

    def cls(self, e, st, t):
        return t if t is TRUE or t is FALSE else None

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        owner, size = self.par(e, 0), self.par(e, 1)
        if k == "opaque":
            n, args = ev[1].name, ev[3]
            st.auto = st.auto | {n}
            if n in ("truncate_blocks_after", "truncate_cached_blocks"):
                self.hit("truncations", n)
                off = 0 if n == "truncate_blocks_after" else 2
                b, i = args[off], args[off + 1]
                if known(b) and not (b.k == "op" and b.a[0] == "/" and b.a[1] is size) and not any(x.k == "op" and x.a[0] in (">>", "shr") for x in sub(b)):
                    if not (isnum(b) and e.entail(st, EQ(size, K(0)))):
                        e.report(cx, node, "a file is cut at block %s" % show(b), st)
                if known(i) and i.k != "op" and i.k != "poly" and not any(x.k == "op" for x in sub(i)):
                    if not (isnum(i) and e.entail(st, EQ(size, K(0)))):
                        e.report(cx, node, "a file is cut at byte %s of its last block" % show(i), st)
            if n in ("remove_cached_blocks", "truncate_cached_blocks") and differs(args[0], owner):
                e.report(cx, node, "%s is truncated instead of %s" % (show(args[0]), show(owner)), st)
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if any(x.k == "call" and str(x.a[-1]).endswith("::count_blocks") for x in sub(t)):
                    st.auto = st.auto | {"counted"}
        elif k == "ret" and cx.fn.id == e.root.fn.id:
            self.hit("truncations", "returns")
            if ev[1] is TRUE:
                a = st.auto
                data = a & {"truncate_blocks_after", "remove_all_blocks"}
                eng = a & {"truncate_cached_blocks", "remove_cached_blocks"}
                if (not data or not eng) and not ("counted" in a and not data and not eng):
                    e.report(cx, node, "a truncated file keeps its blocks in %s" % ("the cache's pages" if not eng else "its block map"), st)


def jobs(m, *table):
    """the jobs whose function exists (a helper may be merged into its caller)"""
    out = []
    for what, rule, cls, name in table:
        c = [f for f in m.p.fns.values() if f.body is not None and f.cls is not None and f.cls.split("::")[-1] == cls and f.name == name]
        if len(c) == 1:
            out.append(Job(what, rule, c[0]))
    return out


def c22_jobs(m):
    P, E, C, D = "Page", "CustomCacheEngine", "Cache", "Data"
    return jobs(m, ("page owner test", (lambda: Answer("owner")), P, "is_page_owner"), ("page block test", (lambda: Answer("block")), P, "contains_block"),
                ("map block test", (lambda: Answer("item")), D, "has_block"), ("page owner", Owner, P, "change_owner"), ("page reset", Reset, P, "reset"),
                ("block cleared", Cleared, P, "remove_block"), ("page number", PageId, D, "get_page_id"), ("page taken", Take, E, "_get_next_free_page"),
                ("pages removed", (lambda: Give("remove")), E, "remove_cached_blocks"), ("pages truncated", (lambda: Give("truncate")), E, "truncate_cached_blocks"),
                ("map cut", Blocks, D, "truncate_blocks_after"), ("truncation", Cut, C, "truncate_item"))


def c10_jobs(m):
    return jobs(m, ("readable length", Readable, "BlockInfo", "make_readable_to"), ("readable record", ReadTo, "BlockOffsets", "make_readable_to"),
                ("readable page", Shown, "CustomCacheEngine", "make_block_readable_to_offset"))
