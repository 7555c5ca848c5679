"""What the analysis knows about LazyFS: entry points, state and locks, discovered in the resolved program."""
from .load import AnalysisBroken
from .flow import Flow, Rule, placeroot, fieldof
from .terms import *

TRIGGER_OPS = ("open", "create", "write", "read", "fsync", "rename", "truncate", "symlink", "access", "link", "unlink")
TWO_PATH = ("rename", "link", "symlink")


def walk(n):
    """all AST dict nodes below n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


class _Slots(Rule):
    name = "slots"

    def __init__(self):
        self.slots = {}

    def on(self, e, st, cx, node, ev):
        if ev[0] == "store" and ev[1].k == "P.fld" and str(ev[1].a[1]).startswith("fuse_operations::"):
            self.slots[ev[1].a[1].split("::")[-1]] = ev[2]


class Model:
    def __init__(self, prog):
        self.p = prog
        self.ops = {}
        self.slot_vals = {}
        cands = [f for f in prog.fns.values() if f.body is not None and
                 any(x.get("f", "") and str(x.get("f")).startswith("fuse_operations::") for x in walk(f.body))]
        for f in cands:
            r = _Slots()
            Flow(prog, r).run(f)
            for s, v in r.slots.items():
                self.slot_vals[s] = v
                if v.k == "fnref" and v.a[0] in prog.fns:
                    self.ops[s] = prog.fns[v.a[0]]
        if len(self.ops) < 12:
            raise AnalysisBroken("FUSE operation table not found (%d slots)" % len(self.ops))
        self.handlers = {s: f for s, f in self.ops.items() if s not in ("init", "destroy")}
        self.handler_ids = {f.id: s for s, f in self.handlers.items()}
        self.worker = self.find_fn(("fht_worker",), lambda f: f.cls is None and self.has_str(f, "lazyfs::clear-cache"), "FIFO worker")
        self.load_config = self.find_fn(("cache::config::Config::load_config",), lambda f: f.cls and f.cls.endswith("Config") and
                                        any(x.get("q") == "toml::parse" for x in walk(f.body)), "configuration loader")
        self.main = self.find_fn(("main",), None, "main")
        self.crash_trigger = self.find_fn(("lazyfs::LazyFS::trigger_crash_fault",),
                                          lambda f: self.calls(f, "kill") and self.uses_field(f, "crash_faults_before_map"), "crash trigger")
        self.clear_trigger = self.find_fn(("lazyfs::LazyFS::trigger_configured_clear_fault",),
                                          lambda f: self.calls(f, "kill") and self.uses_field(f, "ClearF::occurrence"), "clear trigger")
        self.triggers = {self.crash_trigger.id: "crash", self.clear_trigger.id: "clear"}
        self.cmdlock = self.find_glob("cache_command_lock", "shared_mutex")
        F = prog.resolve_field
        self.f = {}
        for key, cls, name, pred in (
            ("contents", "Cache", "contents", lambda ft, t: "Item *" in ft),
            ("mapping", "Cache", "file_inode_mapping", lambda ft, t: ft.startswith("std::unordered_map") and "*" not in ft),
            ("item_locks", "Cache", "item_locks", lambda ft, t: "shared_mutex *" in ft),
            ("cache_lock", "Cache", "lock_cache_mtx", lambda ft, t: t == "std::shared_mutex"),
            ("engine_lock", "CustomCacheEngine", "lock_cache_mtx", lambda ft, t: t == "std::shared_mutex"),
            ("lru_lock", "CustomCacheEngine", "lru_management_mtx", lambda ft, t: t == "std::mutex"),
            ("lru_list", "CustomCacheEngine", "lru_main_vector", lambda ft, t: t == "std::list"),
            ("lru_pos", "CustomCacheEngine", "page_order_mapping", lambda ft, t: "_List_iterator" in ft),
            ("pages", "CustomCacheEngine", "search_index", None),
            ("free_pages", "CustomCacheEngine", "free_pages", lambda ft, t: t == "std::vector"),
            ("owner_pages", "CustomCacheEngine", "owner_pages_mapping", lambda ft, t: "unordered_set<int" in ft),
            ("owner_blocks", "CustomCacheEngine", "owner_ordered_pages_mapping", lambda ft, t: "tuple<" in ft),
            ("owner_free", "CustomCacheEngine", "owner_free_pages_mapping", lambda ft, t: "std::vector<int" in ft and "unordered_map" in ft),
            ("page_dirty", "Page", "is_dirty", lambda ft, t: t == "b"),
            ("page_owner", "Page", "page_owner_id", lambda ft, t: t == "std::basic_string"),
            ("page_data", "Page", "data", lambda ft, t: t == "*char"),
            ("page_free", "Page", "free_block_indexes", lambda ft, t: t == "std::vector"),
            ("page_blocks", "Page", "allocated_block_ids", None),
            ("blk_off", "BlockOffsets", "block_offset_mapping", lambda ft, t: "std::pair<int" in ft),
            ("blk_to", "BlockOffsets", "block_readable_to", None),
            ("item_synced", "Item", "data_synced", lambda ft, t: t == "b"),
            ("item_data", "Item", "data", None),
            ("item_meta", "Item", "metadata", None),
            ("data_blocks", "Data", "blocks", lambda ft, t: "BlockInfo" in ft),
            ("m_size", "Metadata", "size", lambda ft, t: t == "i64"),
            ("m_nlinks", "Metadata", "nlinks", lambda ft, t: t == "u64"),
            ("m_atim", "Metadata", "atim", None), ("m_mtim", "Metadata", "mtim", None), ("m_ctim", "Metadata", "ctim", None),
            ("faults", "LazyFS", "faults", None),
            ("pending", "LazyFS", "pending_write", lambda ft, t: t == "*lazyfs::Write"),
            ("injecting", "LazyFS", "injecting_fault", None),
            ("injecting_lock", "LazyFS", "injecting_fault_lock", None),
            ("write_lock", "LazyFS", "write_lock", None),
            ("crash_before", "LazyFS", "crash_faults_before_map", None),
            ("crash_after", "LazyFS", "crash_faults_after_map", None),
            ("evict", "Config", "APPLY_LRU_EVICTION", None),
            ("blksz", "Config", "IO_BLOCK_SIZE", None),
        ):
            v = F(cls, name, pred)
            if v is None:
                raise AnalysisBroken("field %s::%s not found" % (cls, name))
            self.f[key] = v
        f = self.f
        self.L = {"cmd": (self.cmdlock, None), "cache": (f["cache_lock"], None), "engine": (f["engine_lock"], None),
                  "lru": (f["lru_lock"], None), "inj": (f["injecting_lock"], None), "wr": (f["write_lock"], None)}
        self.item_lock_name = f["item_locks"] + "[]"
        self.cache_state = {f[k] for k in ("contents", "mapping", "pages", "free_pages", "owner_pages", "owner_blocks", "owner_free",
                                           "page_dirty", "page_owner", "page_data", "page_free", "page_blocks", "blk_off", "blk_to",
                                           "item_synced", "data_blocks", "m_size", "m_nlinks", "m_atim", "m_mtim", "m_ctim")}
        # every other field of the block bookkeeping
        for q, c in prog.classes.items():
            if q.split("::")[-1] in ("BlockInfo", "BlockOffsets", "Metadata", "Data", "Page", "Item"):
                for x in c["fields"]:
                    if not x["f"].endswith("::config"):
                        self.cache_state.add(x["f"])

    # -------------------------------------------------------------- discovery
    def command(self, name, calls):
        """the method of LazyFS behind a FIFO command"""
        return self.find_fn(("lazyfs::LazyFS::" + name,), lambda f: f.cls is not None and f.cls.endswith("LazyFS") and
                            any(str(x.get("q", "")).endswith("Cache::" + calls) for x in walk(f.body)), "command " + name)

    def find_fn(self, names, pred, what):
        for n in names:
            c = [f for f in self.p.by_q.get(n, []) if f.body is not None]
            if len(c) == 1:
                return c[0]
        if pred:
            c = [f for f in self.p.fns.values() if f.body is not None and pred(f)]
            if len(c) == 1:
                return c[0]
        raise AnalysisBroken("%s not found" % what)

    def find_fn_opt(self, names, pred):
        try:
            return self.find_fn(names, pred, "")
        except AnalysisBroken:
            return None

    def find_glob(self, name, typ):
        for q, g in self.p.globals.items():
            if q.split("::")[-1] == name:
                return q
        c = [q for q, g in self.p.globals.items() if typ in str(g.get("t", "")) + str(g.get("ft", ""))]
        if len(c) == 1:
            return c[0]
        raise AnalysisBroken("global %s not found" % name)

    def has_str(self, f, s):
        return any(x.get("k") == "str" and x.get("v") == s for x in walk(f.body))

    def calls(self, f, q):
        return any(x.get("q") == q for x in walk(f.body))

    def uses_field(self, f, suffix):
        return any(str(x.get("f", "")).endswith(suffix) for x in walk(f.body))


# ------------------------------------------------------------------ helpers for rules
def sval(t):
    """string constant or None"""
    if t is not None and t.k == "k" and isinstance(t.a[0], str):
        return t.a[0]
    return None


def pfield(P):
    """qualified field a place belongs to (outermost field of the object graph), or None for locals"""
    x = P
    while x is not None:
        if x.k == "P.fld":
            return x.a[1]
        if x.k in ("P.elt", "P.get"):
            x = x.a[0] if x.k == "P.elt" else x.a[1]
            continue
        if x.k == "P.deref":
            y = x.a[0]
            if y.k in ("&", "&v") and y.a and hasattr(y.a[0], "k") and y.a[0].k.startswith("P."):
                x = y.a[0]
                continue
            r = root(y)
            if isinstance(r, tuple) and r[0] == "fld":
                return r[2]
            return None
        return None
    return None


def termfield(t):
    """field a pointer/value term was loaded from"""
    r = root(t)
    if isinstance(r, tuple) and r[0] == "fld":
        return r[2]
    if t.k == "proj":
        return t.a[1]
    return None


def is_local(P):
    x = P
    while x is not None:
        if x.k == "P.var":
            return True
        if x.k == "P.elt":
            x = x.a[0]
        elif x.k == "P.get":
            x = x.a[1]
        elif x.k == "P.fld":
            y = x.a[0]
            if y.k == "&":
                x = y.a[0]
            else:
                return False
        elif x.k == "P.deref":
            y = x.a[0]
            if y.k == "&":
                x = y.a[0]
            else:
                return False
        else:
            return False
    return False


def held(st, lid, modes="SX"):
    return any(l[0] == lid and l[1] in modes for l in st.locks)


def held_name(st, name, modes="SX"):
    return any(l[0][0] == name and l[1] in modes for l in st.locks)


def negative(e, st, val):
    """the returned value is an error on this path"""
    if val is None:
        return False
    if isk(val):
        c = kval(val)
        return isinstance(c, int) and c < 0
    r = e.entail(st, LT(val, ZERO))
    if r is True:
        return True
    if val.k == "ite":
        for x, c in ((val.a[1], True), (val.a[2], False)):
            for s in e.assume(st.copy(), val.a[0], c):
                if not negative(e, s, x):
                    return False
        return True
    return False


def torn_context(m, cx):
    """inside the injection of a torn write: a function that consults the fault tables or the pending write"""
    c = cx
    while c is not None and c.fn.id not in m.handler_ids:
        t = getattr(m, "_torn", None)
        if t is None:
            t = m._torn = {}
        if c.fn.id not in t:
            t[c.fn.id] = c.fn.body is not None and any(x.get("f") in (m.f["faults"], m.f["pending"]) for x in walk(c.fn.body))
        if t[c.fn.id]:
            return True
        c = c.parent
    return False


def atoms(t, val):
    """the elementary conditions known to hold when the condition t evaluates to val"""
    while t.k == "not":
        t, val = t.a[0], not val
    if t.k == "and" and val:
        return atoms(t.a[0], True) + atoms(t.a[1], True)
    return [(t, val)]
