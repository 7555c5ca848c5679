"""C22: a block's bytes are kept in, and served from, the block's own place in a page of its own file."""
from collections import namedtuple

from ..run import Prop, Job
from ..flow import Rule
from ..model import *
from .p_ops import sub

INSERTS = ("insert", "emplace", "insert_or_assign", "try_emplace", "op[]=")
COPIES = {"memcpy", "memmove", "mempcpy"}


def method(m, cls, name):
    c = [f for f in m.p.fns.values() if f.body is not None and f.cls is not None and f.cls.split("::")[-1] == cls and f.name == name]
    if len(c) != 1:
        raise AnalysisBroken("%s::%s not found" % (cls, name))
    return c[0]


def known(t):
    """the value is fully known in terms of the entry's parameters, iteration and calls"""
    return not any(x.k in ("phi", "opq", "out", "stale") for x in sub(t))


def differs(x, y):
    return x is not y and known(x) and known(y)


def neg_const(e, st, t):
    return isnum(t) and kval(t) < 0


def told(t, val):
    """a test of a call's answer as (call, answer)"""
    while True:
        if t.k == "not":
            t, val = t.a[0], not val
        elif t.k == "eq" and any(x is K(0) or x is FALSE for x in t.a) and any(x.k == "call" for x in t.a):
            t, val = [x for x in t.a if x.k == "call"][0], not val
        elif t.k == "eq" and any(x is TRUE for x in t.a) and any(x.k == "call" for x in t.a):
            t = [x for x in t.a if x.k == "call"][0]
        else:
            return t, val


class Base(Rule):
    def __init__(self):
        self.count = {}

    def par(self, e, n):
        ps = e.root.fn.ps
        if n >= len(ps):
            raise AnalysisBroken("parameter %d of %s not found" % (n, e.root.fn.q))
        return mk("param", n, ps[n]["n"])

    def cls(self, e, st, t):
        if t.k == "at" and t.a[0].k in ("ld", "proj", "phi", "mv") or t.k == "tup" and all(isk(x) for x in t.a):
            return t
        if t.k == "get" and t.a[1].k == "call" or t is NULL or t is TRUE or t is FALSE or t.k == "call":
            return t
        if told(t, True)[0].k == "call":
            return told(t, True)[0]
        return None

    def blk(self, t):
        return t.k in ("ld", "proj") and len(t.a) > 1 and t.a[1] == self.m.f["blk_off"] or t.k == "mv" and any(self.blk(x) for x in t.a if hasattr(x, "k"))

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)


# ------------------------------------------------------------------------------------------------ inside a page
class Bytes(Base):
    """bytes of a block are copied to or from data + the block's offset"""
    name = "block-bytes"
    init = 0                       # 1: copied, 2: in some way not followed

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def base(self, e, st, t, data):
        """(block offset term, rest) of a pointer into the page's data"""
        rest = padd(t, data, -1)
        for x in sub(t):
            if x.k == "get" and x.a[0] == 0 and x.a[1].k == "at":
                y = padd(rest, x, -1)
                if not any(z is x for z in sub(y)):
                    return x, y
        return None, rest

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        if k == "ext" and ev[1] in COPIES | {"memset"}:
            data = [x for a in ev[2] for x in sub(a) if x.k == "ld" and x.a[1] == self.m.f["page_data"]]
            if not data:
                return
            if any(t.k == "has" and self.blk(t.a[0]) and not v for t, v in st.facts.items()):
                st.auto = 2
                return               # the page does not hold the block: no caller gets here (Pages)
            self.hit("copies", self.kind)
            dst, src, n = ev[2][:3]
            into = any(x is data[0] for x in sub(dst))
            ptr = dst if into else src
            off, rest = self.base(e, st, ptr, data[0])
            bid = self.par(e, 0)
            if off is None:
                if known(ptr):
                    e.report(cx, node, "the bytes' place in the page, %s, is not that of their block" % show(ptr), st)
                st.auto = 2
                return
            if self.blk(off.a[1].a[0]) and off.a[1].a[1] is not bid and known(off.a[1].a[1]):
                e.report(cx, node, "the bytes' place in the page is that of block %s, not %s" % (show(off.a[1].a[1]), show(bid)), st)
            if self.kind == "store":
                if not into:
                    return
                if differs(rest, self.par(e, 3)):
                    e.report(cx, node, "bytes given for offset %s of their block are stored at %s" % (show(self.par(e, 3)), show(rest)), st)
                if ev[1] != "memset" and differs(src, self.par(e, 1)):
                    e.report(cx, node, "the bytes stored are %s, not those given" % show(src), st)
                if ev[1] == "memset":
                    e.report(cx, node, "bytes given are not stored", st)
                if differs(n, self.par(e, 2)):
                    e.report(cx, node, "%s bytes are stored, not the %s given" % (show(n), show(self.par(e, 2))), st)
            elif self.kind == "fetch":
                if into:
                    e.report(cx, node, "fetching a block changes the page", st)
                    return
                if differs(rest, K(0)):
                    e.report(cx, node, "a block is fetched from %s after its start" % show(rest), st)
                if differs(dst, self.par(e, 1)):
                    e.report(cx, node, "a block is fetched to %s" % show(dst), st)
                want = padd(self.par(e, 2), K(1))
                if differs(n, want) and differs(n, padd(want, off, -1)):
                    e.report(cx, node, "%s bytes of a block are fetched, not up to %s" % (show(n), show(self.par(e, 2))), st)
            else:
                want = padd(mk("ld", *self.cfg(e, n)) if self.cfg(e, n) else K(0), rest, -1)
                if ev[1] != "memset" or src is not K(0):
                    e.report(cx, node, "the end of a truncated block is not zeroed", st)
                elif self.kind == "zero" and differs(rest, self.par(e, 1)):
                    e.report(cx, node, "a truncated block is zeroed from %s, not %s" % (show(rest), show(self.par(e, 1))), st)
                elif self.cfg(e, n) and differs(n, want) and differs(n, padd(want, off, -1)):
                    e.report(cx, node, "%s bytes of a block cut at %s are zeroed" % (show(n), show(rest)), st)
            st.auto = max(st.auto, 1)
        elif k == "store" and any(x.k in ("ld", "P.fld") and x.a[1] == self.m.f["page_data"] for x in sub(ev[1])) and ev[1].k != "P.fld":
            st.auto = 2
        elif k in ("libcall", "opaque", "icall") and any(x.k == "ld" and x.a[1] == self.m.f["page_data"] for a in (ev[3] if len(ev) > 3 and isinstance(ev[3], (list, tuple)) else ()) if hasattr(a, "k") for x in sub(a)):
            st.auto = 2
        elif k == "exit":
            self.hit("returns", self.kind)
            v = ev[1]
            if self.kind == "store":
                if v is TRUE and st.auto == 0:
                    e.report(cx, node, "bytes are reported as stored that were not", st)
                if v is FALSE and st.auto == 1:
                    e.report(cx, node, "bytes are reported as not stored that were", st)

    def cfg(self, e, n):
        for x in sub(n):
            if x.k == "ld" and x.a[1] == self.m.f["blksz"]:
                return x.a
        return None


class Place(Base):
    """a block of a page gets a place of its own"""
    name = "block-place"
    init = (None, 0, None)        # offsets recorded, taken from the free list, place taken

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        rec, popped, frm = st.auto
        if k == "mut" and pfield(ev[1]) == m.f["page_free"]:
            if ev[2] in ("pop_back", "pop_front", "erase"):
                self.hit("places taken", ev[2])
                st.auto = (rec, popped + 1, ev[2])
            elif ev[2] in ("push_back", "emplace_back", "insert"):
                e.report(cx, node, "giving a place to a block adds free places", st)
        elif k == "mut" and pfield(ev[1]) == m.f["blk_off"] and ev[2] in INSERTS:
            a = ev[3]
            t = a[0] if len(a) == 1 else mk("tup", *a[:2])
            if t.k == "tup" and len(t.a) == 2:
                self.record(e, st, cx, node, t.a[0], t.a[1])
        elif k == "exit":
            self.hit("places", "given")
            v = ev[1]
            if v is None or v.k != "tup" or len(v.a) != 2:
                return
            if neg_const(e, st, v.a[0]):
                if rec is not None or popped:
                    e.report(cx, node, "a place is taken although none is reported", st)
                return
            if rec is None:
                e.report(cx, node, "the place given to a block is not recorded", st)
            elif differs(rec, v):
                e.report(cx, node, "the place recorded for a block, %s, is not the one reported, %s" % (show(rec), show(v)), st)
            src = {x.a[0] for x in sub(v) if x.k == "lib" and x.a[0] in ("front", "back")}
            if frm == "pop_back" and src == {"front"} or frm == "pop_front" and src == {"back"}:
                e.report(cx, node, "the place given to a block is not the one taken off the free list", st)
            if popped == 0:
                e.report(cx, node, "a place given to a block stays free", st)

    def record(self, e, st, cx, node, key, v):
        self.hit("places", "recorded")
        if differs(key, self.par(e, 0)):
            e.report(cx, node, "the place is recorded for block %s" % show(key), st)
        if v.k == "tup" and len(v.a) == 2:
            sz = [x for x in sub(v.a[1]) if x.k == "ld" and x.a[1] == self.m.f["blksz"]]
            d = padd(v.a[1], v.a[0], -1)
            if known(d) and not (sz and d is padd(sz[0], K(-1))):
                e.report(cx, node, "a block is given %s bytes" % show(padd(d, K(1))), st)
        st.auto = (v, st.auto[1], st.auto[2])


class Drop(Base):
    """removing a block from a page frees its place"""
    name = "block-removal"
    init = (0, 0, None)           # erased, freed, present

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        er, fr, pres = st.auto
        if k == "mut" and pfield(ev[1]) == m.f["blk_off"] and ev[2] == "erase":
            self.hit("removals", "entry")
            if len(ev[3]) == 1 and differs(ev[3][0], self.par(e, 0)) and ev[3][0].k == "param":
                e.report(cx, node, "removing a block removes block %s" % show(ev[3][0]), st)
            st.auto = (1, fr, pres)
        elif k == "mut" and pfield(ev[1]) == m.f["page_free"] and ev[2] in ("push_back", "emplace_back"):
            self.hit("removals", "place")
            v = ev[3][0]
            if known(v) and not (v.k == "get" and v.a[0] == 0 and v.a[1].k == "at" and v.a[1].a[1] is self.par(e, 0)):
                e.report(cx, node, "removing a block frees place %s" % show(v), st)
            st.auto = (er, fr + 1, pres)
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                if t.k == "has" and self.blk(t.a[0]):
                    st.auto = (st.auto[0], st.auto[1], val)
        elif k == "exit":
            if pres and not er and not any(v and t.k == "lt0" and any(x.k == "get" and x.a[0] == 0 for x in sub(t)) for t, v in st.facts.items()):
                e.report(cx, node, "a removed block stays in its page", st)
            if er and pres and fr == 0:
                e.report(cx, node, "the place of a removed block is lost", st)
            if fr > 1 or fr and not er:
                e.report(cx, node, "a place is freed that is still in use", st)


# ------------------------------------------------------------------------------------------------ pages and files
Eng = namedtuple("Eng", "owner holds last place stored shown result linked")
PAGE = ("update_block_data", "get_block_data", "get_allocate_free_offset", "is_page_owner", "contains_block", "set_page_as_dirty", "is_page_dirty")
ENGINE = ("_get_next_free_page", "_update_owner_pages", "_apply_lru_after_page_visitation_on_WRITE", "_apply_lru_after_page_visitation_on_READ")


class Pages(Base):
    """a page stores and serves blocks only for its file and only blocks it holds"""
    name = "page-access"
    init = Eng(frozenset(), frozenset(), (), None, None, None, None, 0)

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def opaque(self, e, fn):
        c = (fn.cls or "").split("::")[-1]
        return c == "Page" and fn.name in PAGE or c == "CustomCacheEngine" and fn.name in ENGINE

    def entry(self, e, t):
        """key and value of the table entry being handled"""
        tab = self.par(e, 1)
        for x in sub(t):
            if x.k == "ikey":
                return x, AT(tab, x)
        return None, None

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        a = st.auto
        if k in ("iter", "iterend", "loopdone", "loopbreak"):
            if k in ("iterend", "loopbreak") and self.kind in ("put", "get"):
                self.entry_done(e, st, cx, node)
            st.auto = self.init
        elif k == "opaque":
            fn, this, args = ev[1], ev[2], ev[3]
            n = fn.name
            if n in ("is_page_owner", "contains_block"):
                st.auto = a._replace(last=tuple(x for x in a.last if x[0] != n) + ((n, this, args[0]),))
            elif n in ("update_block_data", "get_block_data"):
                self.hit("page accesses", "%s %s" % (self.kind, show(this)[:60]))
                self.access(e, st, cx, node, n, this, args)
            elif n == "_get_next_free_page":
                if differs(args[0], self.par(e, 0)):
                    e.report(cx, node, "a page is taken for %s" % show(args[0]), st)
            elif n == "get_allocate_free_offset":
                st.auto = a._replace(place=(this, args[0]))
            elif n == "_update_owner_pages":
                self.hit("index updates", "engine")
                key, T = self.entry(e, args[2])
                for i, want in ((0, self.par(e, 0)), (1, self.page_no(a.stored))):
                    if want is not None and differs(args[i], want):
                        e.report(cx, node, "the owner's index gets %s where %s is stored" % (show(args[i]), show(want)), st)
                if a.place is not None and differs(args[2], a.place[1]):
                    e.report(cx, node, "the owner's index gets block %s for block %s" % (show(args[2]), show(a.place[1])), st)
                if args[3].k == "call" and "get_allocate_free_offset" not in str(args[3].a) or args[3].k == "tup":
                    e.report(cx, node, "the owner's index gets another place than the block's", st)
                st.auto = a._replace(linked=1)
        elif k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                t, val = told(t, val)
                if t.k == "call" and val:
                    for n, this, arg in st.auto.last:
                        if str(t.a[-1]).endswith("::" + n):
                            f = "owner" if n == "is_page_owner" else "holds"
                            st.auto = st.auto._replace(**{f: getattr(st.auto, f) | {(this, arg)}})
        elif k == "mut" and ev[1].k == "P.var" and ev[2] in INSERTS:
            t = ev[3][0] if len(ev[3]) == 1 else mk("tup", *ev[3][:2])
            if t.k == "tup" and len(t.a) == 2:
                self.result(e, st, cx, node, t.a[0], t.a[1])
        elif k == "exit" and self.kind == "test":
            self.hit("tests", "is_block_cached")
            v = told(ev[1], True)[0] if ev[1] is not None else None
            owner, page, blk = (self.par(e, i) for i in range(3))
            if v is FALSE:
                return
            ok_o = any(x[1] is owner and self.page_of(x[0], page) for x in a.owner)
            ok_h = any(x[1] is blk and self.page_of(x[0], page) for x in a.holds)
            if v is not None and v.k == "call":
                for n, this, arg in a.last:
                    if str(v.a[-1]).endswith("::" + n) and self.page_of(this, page):
                        ok_o = ok_o or n == "is_page_owner" and arg is owner
                        ok_h = ok_h or n == "contains_block" and arg is blk
            if v is TRUE or v is not None and v.k == "call":
                if not ok_o:
                    e.report(cx, node, "a block counts as cached although its page may belong to another file", st)
                elif not ok_h:
                    e.report(cx, node, "a block counts as cached although its page may not hold it", st)

    def page_of(self, this, page):
        return not known(this) or this.k == "at" and this.a[1] is page or not known(page)

    def page_no(self, pg):
        if pg is None:
            return None
        if pg.k == "get" and pg.a[0] == 1:
            return GET(0, pg.a[1])
        if pg.k == "at":
            return pg.a[1]
        return None

    def access(self, e, st, cx, node, n, this, args):
        a = st.auto
        key, T = self.entry(e, args[0])
        if key is None:
            if known(args[0]):
                e.report(cx, node, "the page is accessed for block %s" % show(args[0]), st)
            return
        if args[0] is not key and known(args[0]):
            e.report(cx, node, "the page is accessed for block %s, not %s" % (show(args[0]), show(key)), st)
        for i, x in enumerate(args[1:]):
            want = GET(i + 1, T)
            if differs(x, want):
                e.report(cx, node, "%s is passed to the page where %s is given" % (show(x), show(want)), st)
        if not known(this) or this is NULL:
            return
        owner = self.par(e, 0)
        if this.k == "at":
            if this.a[1] is not GET(0, T) and known(this.a[1]):
                e.report(cx, node, "block %s is looked up in page %s" % (show(key), show(this.a[1])), st)
            if not any(p is this and o is owner for p, o in a.owner):
                e.report(cx, node, "a block is %s in a page that may belong to another file" % ("stored" if n == "update_block_data" else "served"), st)
            elif not any(p is this and b is key for p, b in a.holds):
                e.report(cx, node, "a block is %s in a page that may not hold it" % ("stored" if n == "update_block_data" else "served"), st)
        elif this.k == "get" and n == "update_block_data":
            if a.place is None or a.place[0] is not this or a.place[1] is not key:
                e.report(cx, node, "bytes are stored in a new page before their block has a place there", st)
        if n == "update_block_data":
            st.auto = st.auto._replace(stored=this)
        else:
            st.auto = st.auto._replace(shown=this)

    def result(self, e, st, cx, node, key, v):
        a = st.auto
        k2, T = self.entry(e, key)
        if k2 is None:
            return
        self.hit("results", self.kind)
        if key is not k2:
            e.report(cx, node, "the result is reported for block %s" % show(key), st)
        if self.kind == "put":
            if neg_const(e, st, v):
                if a.stored is not None:
                    e.report(cx, node, "a stored block is reported as not stored", st)
            elif a.stored is None:
                e.report(cx, node, "a block is reported as stored that was not", st)
            elif self.page_no(a.stored) is not None and differs(v, self.page_no(a.stored)):
                e.report(cx, node, "a block is reported in page %s, not %s" % (show(v), show(self.page_no(a.stored))), st)
        st.auto = a._replace(result=v)

    def entry_done(self, e, st, cx, node):
        a = st.auto
        self.hit("entries", self.kind)
        if a.result is None:
            e.report(cx, node, "no result is reported for a block", st)
        elif self.kind == "get":
            v, val = told(a.result, True)
            if v is TRUE and a.shown is None:
                e.report(cx, node, "a block is reported as served that was not", st)
            if v is FALSE and a.shown is not None:
                e.report(cx, node, "a served block is reported as not cached", st)
        if self.kind == "put" and a.stored is not None and a.stored.k == "get" and not a.linked:
            e.report(cx, node, "a block stored in a new page is not entered in its owner's index", st)


class Index(Base):
    """the owner's index records the page, the block and its place"""
    name = "owner-index"
    init = frozenset()

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        owner, page, blk, off = (self.par(e, i) for i in range(4))
        if k in ("mut", "store"):
            fl = self.table(ev[1])
            if fl is None:
                return
            if k == "mut" and ev[2] not in INSERTS:
                return
            terms = ev[3] if k == "mut" else [ev[2]]
            if fl == m.f["owner_blocks"]:
                for t in terms:
                    for x in sub(t):
                        if x.k in ("tup", "il") and len(x.a) == 4:
                            self.hit("index entries", "blocks")
                            if differs(x.a[0], page):
                                e.report(cx, node, "the index records page %s" % show(x.a[0]), st)
                            if differs(x.a[2], off):
                                e.report(cx, node, "the index records place %s" % show(x.a[2]), st)
                            st.auto = st.auto | {"blocks"}
                        if x.k in ("tup", "il") and len(x.a) == 2 and x.a[1].k in ("tup", "il") and len(x.a[1].a) == 4 and differs(x.a[0], blk):
                            e.report(cx, node, "the index records block %s" % show(x.a[0]), st)
            elif fl == m.f["owner_pages"]:
                self.hit("index entries", "pages")
                for t in terms:
                    if t.k == "param" and t is not page:
                        e.report(cx, node, "the index records page %s" % show(t), st)
                st.auto = st.auto | {"pages"}
        elif k == "exit":
            self.hit("index returns", "engine")

    def table(self, P):
        while P is not None and hasattr(P, "k"):
            if P.k == "P.fld":
                return P.a[1] if P.a[1] in (self.m.f["owner_blocks"], self.m.f["owner_pages"]) else None
            P = P.a[0] if P.a and hasattr(P.a[0], "k") and P.a[0].k.startswith("P.") else (P.a[1] if len(P.a) > 1 and hasattr(P.a[1], "k") and str(P.a[1].k).startswith("P.") else None)
        return None


# ------------------------------------------------------------------------------------------------ the file's block map
class Map(Base):
    """what is asked of the engine for a block, and recorded of its answer, concerns that block"""
    name = "block-map"
    init = (None, 0)

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def opaque(self, e, fn):
        c = (fn.cls or "").split("::")[-1]
        return c == "CustomCacheEngine" or c == "Data" or c == "Item" and fn.name != "get_data" or \
            c == "Cache" and fn.name in ("lockItem", "unlockItem", "_create_item", "_get_content_ptr", "_get_readable_offsets", "lockItemCheckExists")

    def bkey(self, t):
        for x in sub(t):
            if x.k == "ikey":
                return x
        return None

    def fn(self, t):
        """name of the function whose result the term is"""
        return str(t.a[-1]).split("::")[-1] if t.k == "call" else None

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        cid, tab = self.par(e, 0), self.par(e, 1)
        if k == "opaque":
            fn, this, args = ev[1], ev[2], ev[3]
            n = fn.name
            c = (fn.cls or "").split("::")[-1]
            if c in ("CustomCacheEngine", "Cache") and args and "string" in fn.ps[0]["t"]:
                if differs(args[0], cid):
                    e.report(cx, node, "%s is asked about %s" % (n, show(args[0])), st)
            if n == "get_page_id":
                st.auto = (args[0], st.auto[1])
            if self.kind == "test":
                blk = self.par(e, 1)
                if n == "get_page_id" and differs(args[0], blk) or n == "is_block_cached" and differs(args[2], blk):
                    e.report(cx, node, "%s is asked about block %s" % (n, show(args[0 if n == "get_page_id" else 2])), st)
                if n == "is_block_cached":
                    self.hit("lookups", self.kind)
                    if differs(args[1], K(0)) and self.fn(args[1]) != "get_page_id":
                        e.report(cx, node, "the block is looked up in page %s" % show(args[1]), st)
                return
            key = self.bkey(args[0]) if args else None
            if n == "set_block_page_id":
                self.hit("records", "page")
                if key is not None and args[0] is not key:
                    e.report(cx, node, "the page is recorded for block %s" % show(args[0]), st)
                if args[1].k == "at" and key is not None and args[1].a[1] is not key or isk(args[1]) or \
                        key is not None and args[1].k == "ikey":
                    e.report(cx, node, "page %s is recorded for a block" % show(args[1]), st)
                if key is not None and known(args[3]) and args[3] is not GET(3, AT(tab, key)):
                    e.report(cx, node, "a block is recorded as readable to %s" % show(args[3]), st)
                v = self.answer(e, st, args[1])
                if v is True:
                    e.report(cx, node, "a block that got no page is recorded", st)
            elif n == "make_block_readable_to_offset":
                key = self.bkey(args[2])
                self.hit("records", "readable")
                if key is not None and (args[2] is not key or args[1].k == "at" and args[1].a[1] is not key):
                    e.report(cx, node, "block %s of page %s becomes readable" % (show(args[2]), show(args[1])), st)
            elif n == "remove_block" and key is not None and self.kind == "get":
                if args[0] is not key:
                    e.report(cx, node, "block %s is forgotten" % show(args[0]), st)
        elif k == "mut" and ev[1].k == "P.var" and ev[2] in INSERTS:
            t = ev[3][0] if len(ev[3]) == 1 else mk("tup", *ev[3][:2])
            if t.k == "tup" and len(t.a) == 2:
                self.entry(e, st, cx, node, t.a[0], t.a[1])
        elif k == "exit" and self.kind == "test":
            v = ev[1]
            if v is TRUE:
                e.report(cx, node, "a block counts as cached whatever its page", st)

    def answer(self, e, st, t):
        """True if the engine's answer is known to be negative"""
        return e.entail(st, LT(t, K(0)))

    def entry(self, e, st, cx, node, key, v):
        k2 = self.bkey(key)
        if k2 is None:
            return
        tab = self.par(e, 1)
        asked = k2.a[0] if k2.a else None
        mine = any(x is tab for x in sub(k2))
        if known(key) and key is not k2:
            e.report(cx, node, "an entry is made for block %s" % show(key), st)
        if mine:
            self.hit("requests", self.kind)
            T = AT(tab, k2)
            if v.k != "tup":
                return
            want = {"put": (None, GET(0, T), GET(1, T), GET(2, T)), "get": (None, T, None)}[self.kind]
            for x, w in zip(v.a, want):
                if w is not None and differs(x, w):
                    e.report(cx, node, "%s is asked of the engine where %s is given" % (show(x), show(w)), st)
            if self.kind == "get" and len(v.a) > 2:
                sz = [x for x in sub(v.a[2]) if x.k == "ld" and x.a[1] == self.m.f["blksz"]]
                if known(v.a[2]) and not (sz and v.a[2] is padd(sz[0], K(-1))):
                    e.report(cx, node, "a block is asked for up to %s" % show(v.a[2]), st)
            p = v.a[0]
            if self.fn(p) == "get_page_id":
                if st.auto[0] is not None and differs(st.auto[0], k2):
                    e.report(cx, node, "the page of block %s is used for another" % show(st.auto[0]), st)
            elif isnum(p) and kval(p) >= 0 or p.k == "ikey":
                e.report(cx, node, "the engine is asked for page %s" % show(p), st)
        else:
            self.hit("answers", self.kind)
            if self.kind == "put":
                neg = None
                for x in sub(v):
                    if x.k == "at" and x.a[1] is k2:
                        neg = self.answer(e, st, x)
                if v is TRUE and self.neg(e, st, k2) is True:
                    e.report(cx, node, "a block that got no page is reported as cached", st)
                if v is FALSE and self.neg(e, st, k2) is False:
                    e.report(cx, node, "a cached block is reported as not cached", st)
                if v is TRUE and self.neg(e, st, k2) is None:
                    e.report(cx, node, "a block is reported as cached whether or not it got a page", st)
                if v.k == "lt0" or v.k == "not":
                    ans = [x for x in sub(v) if x.k == "at" and x.a[1] is k2]
                    if ans and v is not NOT(LT(ans[0], K(0))) and v is not LT(K(-1), ans[0]):
                        e.report(cx, node, "a block is reported as cached if %s" % show(v), st)
            elif v.k == "tup" and v.a:
                x = v.a[0]
                if x.k == "at" and x.a[1] is not k2 or isk(x) and self.told(e, st, k2) is not (x is TRUE):
                    e.report(cx, node, "a block is reported as served: %s" % show(x), st)

    def told(self, e, st, key):
        for t, val in st.facts.items():
            if t.k == "at" and t.a[1] is key:
                return val
        return None

    def neg(self, e, st, key):
        for t in st.facts:
            for x in sub(t):
                if x.k == "at" and x.a[1] is key:
                    r = self.answer(e, st, x)
                    if r is not None:
                        return r
        return None


class Info(Base):
    """the page recorded for a block is the one given"""
    name = "block-info"
    init = (0, 0)

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        m = self.m
        blk, page = self.par(e, 0), self.par(e, 1)
        if k == "store" and ev[1].k == "P.fld" and ev[1].a[1].endswith("page_index_number"):
            self.hit("block infos", "page")
            if ev[2].k == "param" and ev[2] is not page:
                e.report(cx, node, "page %s is recorded for a block" % show(ev[2]), st)
            st.auto = (1 if ev[2] is page or not isk(ev[2]) else 0, st.auto[1])
        elif k == "mut" and pfield(ev[1]) == m.f["data_blocks"] and ev[2] in INSERTS:
            t = ev[3][0]
            key = t.a[0] if t.k == "tup" and t.a else t
            if differs(key, blk):
                e.report(cx, node, "the page is recorded for block %s" % show(key), st)
        elif k == "exit":
            if not st.auto[0]:
                e.report(cx, node, "the page of a block is not recorded", st)


# ------------------------------------------------------------------------------------------------ the operations
class Handlers(Base):
    """the write and read handlers hand over and take each block's bytes under the block's own number"""
    name = "block-request"
    init = (None, None)           # what the cache was last offered; what it was last asked for

    def __init__(self, op):
        super().__init__()
        self.op = op

    def cls(self, e, st, t):
        return None

    def opaque(self, e, fn):
        c = (fn.cls or "").split("::")[-1]
        return fn.id in self.m.triggers or fn.id in self.m.handler_ids and fn.id != e.root.fn.id or c in ("CustomCacheEngine", "Page", "Data", "Cache", "Item") or \
            (fn.id not in self.m.handler_ids and fn.body is not None and any(x.get("f") in (self.m.f["faults"], self.m.f["pending"]) for x in walk(fn.body)))

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        put, got = st.auto
        if k in ("iter", "iterend", "head", "loopdone", "loopbreak"):
            st.auto = self.init
            return
        if k == "opaque":
            fn, args = ev[1], ev[3]
            n = fn.name
            if len(args) > 1 and args[1].k == "lib" and args[1].a[0] == "ctor" and len(args[1].a) > 1:
                args = [args[0], args[1].a[1]] + list(args[2:])
            if n == "put_data_blocks" and args[1].k == "il" and args[1].a:
                for x in args[1].a:
                    if x.k not in ("tup", "il") or len(x.a) != 2 or x.a[1].k not in ("tup", "il") or len(x.a[1].a) != 4:
                        continue
                    self.hit("requests", self.op)
                    ptr, ln, frm, to = x.a[1].a
                    d = padd(padd(padd(to, K(1)), frm, -1), ln, -1)
                    if d is not K(0) and ln.k != "phi":
                        e.report(cx, node, "%s bytes are given to the cache as bytes %s to %s of a block" % (show(ln), show(frm), show(to)), st)
                    st.auto = (mk("tup", x.a[0], ptr, ln, frm), got)
            elif n == "is_block_cached":
                st.auto = (put, args[1])
            elif n == "get_data_blocks" and args[1].k == "il" and args[1].a:
                for x in args[1].a:
                    if x.k in ("tup", "il") and len(x.a) == 2:
                        self.hit("requests", self.op)
                        if got is not None and x.a[0] is not got:
                            e.report(cx, node, "block %s is fetched where block %s was found cached" % (show(x.a[0]), show(got)), st)
        elif k == "ext" and ev[1] in ("pwrite", "pwrite64") and self.op == "write" and put is not None:
            self.hit("fallbacks", self.op)
            key, ptr, ln, frm = put.a
            sz = [x for x in sub(ev[2][3]) if x.k == "ld" and x.a[1] == self.m.f["blksz"]]
            for got1, want, what in ((ev[2][1], ptr, "bytes"), (ev[2][2], ln, "length")):
                d = padd(got1, want, -1)
                if d is not K(0):
                    e.report(cx, node, "the %s of a block the cache did not take are written as %s instead of %s" % (what, show(got1), show(want)), st)
            if sz:
                d = padd(ev[2][3], padd(pmul(key, sz[0]), frm), -1)
                if d is not K(0):
                    e.report(cx, node, "a block the cache did not take is written at offset %s" % show(ev[2][3]), st)


class C22(Prop):
    minimum = {"copies": 2, "places": 2, "page accesses": 3, "results": 2, "records": 2, "index entries": 2, "requests": 2}
    rule_text = ("Symbolic terms for what each cache function copies, records and returns are compared over every path: within a page the "
                 "copies start at the block's recorded place plus the offset given, with the bytes and length given; the engine stores in and "
                 "serves from a page only after the page was tested to belong to the file and hold the block, or was newly taken and given "
                 "the block; results, the owner's index, the file's block map and the requests of the read and write handlers carry the same block number and page.")
    assumptions = ["the same page is not on the free list twice", "offsets and lengths passed by the handlers lie within a block"]

    def jobs(self, m, tier):
        P, E, C, D = "Page", "CustomCacheEngine", "Cache", "Data"
        out = []
        for kind, n in (("store", "update_block_data"), ("fetch", "get_block_data"), ("zero", "write_null_from")):
            out.append(Job("page " + kind, (lambda kind=kind: Bytes(kind)), method(m, P, n)))
        out.append(Job("page place", Place, method(m, P, "get_allocate_free_offset")))
        out.append(Job("page removal", Drop, method(m, P, "remove_block")))
        for kind, n in (("put", "allocate_blocks"), ("get", "get_blocks"), ("test", "is_block_cached")):
            out.append(Job("engine " + kind, (lambda kind=kind: Pages(kind)), method(m, E, n)))
        out.append(Job("engine index", Index, method(m, E, "_update_owner_pages")))
        for kind, n in (("put", "put_data_blocks"), ("get", "get_data_blocks"), ("test", "is_block_cached")):
            out.append(Job("cache " + kind, (lambda kind=kind: Map(kind)), method(m, C, n)))
        out.append(Job("block info", Info, method(m, D, "set_block_page_id")))
        for o in ("write", "read"):
            out.append(Job("handler " + o, (lambda o=o: Handlers(o)), m.handlers[o]))
        from ..page_rules import c22_jobs
        return out + c22_jobs(m)


PROPS = {"C22": C22()}
