"""Lowers the resolved AST of one function to a control-flow graph of small
instructions.  Side-effect-free sub-expressions stay expression trees (RVs);
everything with an effect (assignment, call, container mutation, lock
operation, branch, return) becomes a node of its own.

RV forms (tuples):
  ('k', const)                    constant
  ('v', var)                      local variable / parameter / temporary
  ('g', qname)                    global
  ('this',)
  ('fld', baseptr, field)         field load; baseptr is a pointer RV
  ('idx', base, i)                array element
  ('deref', p)
  ('addr', lv)                    address of an lvalue
  ('op', name, *args)             arithmetic / comparison / logic
  ('lib', name, recvcls, *args)   side-effect-free library call (receiver first)
  ('tup', *elems) ('il', *elems)  pair/tuple/braced list
  ('lam', fnid)  ('fn', fnid, q)  callable values
  ('errno',)
LVs: ('v',x) ('g',q) ('fld',b,f) ('idx',b,i) ('deref',p) ('get',i,lv) ('elt', lv, key)
"""

STD_PURE_METHODS = {
    "find", "at", "end", "begin", "cend", "cbegin", "rbegin", "rend", "crbegin", "crend", "back", "front", "data",
    "operator[]", "operator*", "operator->", "base", "value", "get", "size", "length", "empty", "count", "contains",
    "c_str", "substr", "rfind", "compare", "has_value", "value_or", "capacity", "find_first_of", "find_last_of",
    "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator-", "operator+",
    "lower_bound", "upper_bound", "equal_range", "operator bool", "str", "first", "owns_lock", "joinable",
    "starts_with", "ends_with", "max_size", "native_handle", "mutex", "operator()", "get_allocator", "bucket_count",
    "hash_function", "key_eq", "position", "prefix", "suffix", "ready", "what", "operator basic_string",
}
INSERT_LIKE = {"insert", "emplace", "emplace_back", "emplace_front", "push_back", "push_front", "push", "insert_or_assign",
               "try_emplace", "append", "operator+=", "emplace_hint", "reserve", "add"}
NOEFFECT_MUT = {"reserve", "shrink_to_fit", "flush", "rehash", "max_load_factor"}
LOCK_CLASSES = {"std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock"}
MUTEX_CLASSES = {"std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_timed_mutex",
                 "std::recursive_timed_mutex"}
ATOMIC = {"std::atomic", "std::__atomic_base", "std::__atomic_float"}
ITER_ALGOS_MUT = {"sort", "stable_sort", "reverse", "fill", "remove", "remove_if", "unique", "iota", "shuffle", "rotate",
                  "replace", "replace_if", "swap_ranges", "partial_sort", "nth_element", "partition"}
FREE_STD_PURE_PTR = {"get", "begin", "end", "next", "prev", "min", "max", "move", "forward", "make_pair", "make_tuple", "tie"}


def is_agg(t):
    """record type handled by address (fields live in memory), not by value"""
    return bool(t) and t[0] not in "*[?" and not t.startswith("std::") and t not in ("b", "f", "v") and \
        not (t[0] in "iu" and t[1:].isdigit()) and not t.startswith("__gnu_cxx") and not t.startswith("spdlog") \
        and not t.startswith("toml") and not t.startswith("fmt")


class Node:
    __slots__ = ("i", "s", "l", "tr")

    def __init__(self, i, l):
        self.i = i
        self.s = []
        self.l = l
        self.tr = None   # innermost enclosing try (list of handler entry nodes) or None


class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.nodes = []
        self.entry = 0
        self.exit = None
        self.vtypes = {}
        self.params = []
        self.live = None


class Lower:
    def __init__(self, prog, fn):
        self.p = prog
        self.fn = fn
        self.g = CFG(fn)
        self.N = self.g.nodes
        self.cur = []          # dangling edges: (node, slot)
        self.ln = fn.line
        self.tmpn = 0
        self.scopes = [[]]     # RAII variables per scope
        self.brk = []          # (list of dangling, scope depth)
        self.cont = []
        self.labels = {}
        self.gotos = []
        self.sw = []
        self.trys = []
        self.dead = False

    # ---- graph construction
    def emit(self, i):
        n = Node(i, self.ln)
        self.N.append(n)
        k = len(self.N) - 1
        self.patch(k)
        n.s = [None]
        if self.trys:
            n.tr = self.trys[-1]
        self.cur = [(k, 0)]
        return k

    def patch(self, k):
        for (n, s) in self.cur:
            self.N[n].s[s] = k
        self.cur = []

    def label(self):
        return self.emit(("nop",))

    def branch(self, rv):
        k = self.emit(("br", rv))
        self.N[k].s = [None, None]
        self.cur = []
        return k

    def tmp(self, t=None):
        self.tmpn += 1
        v = "%%%d" % self.tmpn
        if t:
            self.g.vtypes[v] = t
        return v

    def var(self, i):
        return "%d" % i

    # ---- run
    def run(self):
        f = self.fn
        self.emit(("entry",))
        for p in f.ps:
            v = self.var(p["i"])
            self.g.params.append((v, p["m"], p["t"], p["n"]))
            self.g.vtypes[v] = p["t"]
        if f.ctor:
            self.ctor_inits()
        self.stmt(f.body)
        self.unwind(0)
        self.emit(("ret", None))
        ends = self.cur
        # gotos
        for (edges, scopes, name) in self.gotos:
            if name in self.labels:
                tgt, lsc = self.labels[name]
                self.cur = edges
                for sc in reversed(scopes[len(lsc):]):
                    for v in reversed(sc):
                        self.emit(("dtor", v[0], v[1]))
                self.patch(tgt)
        self.cur = []
        self.g.exit = len(self.N)
        self.N.append(Node(("exit",), f.eline))
        for n in self.N:
            if n.i[0] == "ret":
                n.s = [self.g.exit]
            else:
                n.s = [x for x in n.s if x is not None] if n.i[0] != "br" else [x for x in n.s]
        # branch nodes must have both edges
        for k, n in enumerate(self.N):
            if n.i[0] == "br":
                n.s = [self.g.exit if x is None else x for x in n.s]
        return self.g

    def ctor_inits(self):
        cls = self.p.classes.get(self.fn.cls)
        seen = set()
        for it in self.fn.inits:
            if it.get("deleg"):
                e = it["e"]
                self.call_ctor_on(("this",), e)
                return
            if "base" in it:
                continue
            self.ln = it.get("l", self.ln)
            seen.add(it["f"])
            lv = ("fld", ("this",), it["f"])
            if it["e"] is not None:
                if is_agg(it["t"]):
                    self.init_agg(("addr", lv), it["e"])
                else:
                    self.emit(("store", lv, self.E(it["e"])))

    def call_ctor_on(self, ptr, e):
        fid = e.get("f")
        args = [self.arg(a, None) for a in e.get("a", [])]
        self.emit(("call", None, {"f": fid, "q": e.get("q", "") + "::" + e.get("q", "").split("::")[-1], "ctor": True}, ptr, args))

    def init_agg(self, ptr, e):
        """initialise aggregate storage at pointer ptr from expression e"""
        k = e["k"]
        if k == "ctor":
            if e.get("cp") and e["a"]:
                self.emit(("aggcopy", ptr, self.aggsrc(e["a"][0])))
                return
            if e.get("f") in self.p.fns:
                self.call_ctor_on(ptr, e)
            else:
                self.emit(("agginit", ptr))
                for a in e.get("a", []):
                    self.E(a)
            return
        if k == "il":
            self.emit(("agginit", ptr))
            for a in e["a"]:
                self.E(a)
            return
        if k == "call" or k == "cond":
            self.emit(("aggcopy", ptr, self.aggsrc(e)))
            return
        self.emit(("aggcopy", ptr, self.aggsrc(e)))

    def aggsrc(self, e):
        """pointer RV to the aggregate denoted by e"""
        e2 = e
        if e2["k"] in ("var", "gvar", "mem", "idx") or (e2["k"] == "un" and e2["op"] == "*"):
            return ("addr", self.LV(e2))
        return ("addrval", self.E(e2))

    # ---- scopes
    def unwind(self, depth):
        for sc in reversed(self.scopes[depth:]):
            for v in reversed(sc):
                self.emit(("dtor", v[0], v[1]))

    def stmt(self, s):
        if s is None:
            return
        k = s["s"]
        if "l" in s:
            self.ln = s["l"]
        getattr(self, "s_" + k)(s)

    def s_blk(self, s):
        self.scopes.append([])
        for c in s["a"]:
            self.stmt(c)
        if "e" in s:
            self.ln = s["e"]
        if self.cur:
            for v in reversed(self.scopes[-1]):
                self.emit(("dtor", v[0], v[1]))
        self.scopes.pop()

    def s_null(self, s):
        pass

    def s_opq(self, s):
        self.emit(("nop",))

    def s_e(self, s):
        self.E(s["e"], drop=True)

    def s_decl(self, s):
        for v in s["a"]:
            self.decl(v)

    def decl(self, v):
        x = self.var(v["i"])
        t = v["t"]
        self.g.vtypes[x] = t
        self.ln = v.get("l", self.ln)
        e = v.get("e")
        if v.get("static"):
            return
        if v.get("bind"):
            if v["ref"] and e is not None and e["k"] != "call":
                lv = self.LV(e)
                self.emit(("ref", x, self.freeze(lv)))
            elif e is not None:
                self.emit(("set", x, self.E(e)))
            for b in v["bind"]:
                bx = self.var(b["i"])
                self.emit(("ref", bx, ("get", b["x"], ("v", x))))
            return
        if v["ref"]:
            if e is not None:
                lv = self.LV(e)
                self.emit(("ref", x, self.freeze(lv)))
            return
        if t in LOCK_CLASSES:
            self.lockdecl(x, t, e)
            return
        if is_agg(t):
            self.emit(("aggdecl", x))
            if e is not None:
                self.init_agg(("addr", ("v", x)), e)
            if self.dtor_of(t):
                self.scopes[-1].append((x, t))
            return
        if v.get("arr"):
            self.emit(("set", x, ("arr", x)))
            return
        if e is None:
            self.emit(("set", x, ("undef", x)))
            return
        rv = self.E(e)
        self.emit(("set", x, self.copyof(rv, t, e)))

    def dtor_of(self, t):
        for f in self.p.fns.values():
            if f.dtor and f.cls == t:
                return f.id
        return None

    def copyof(self, rv, t, e):
        if t.startswith("std::") and rv[0] in ("v", "fld", "lib", "g", "deref") and t not in ("std::basic_string",) and "iterator" not in t.lower():
            if rv[0] == "lib" and rv[1] not in ("at", "operator[]", "get", "front", "back", "operator*", "operator->"):
                return rv
            return ("copy", rv)
        return rv

    def freeze(self, lv):
        """evaluate the sub-expressions of an lvalue now, so that a reference keeps denoting it"""
        k = lv[0]
        if k in ("v", "g", "this"):
            return lv
        if k == "fld":
            return ("fld", self.freeze_rv(lv[1]), lv[2])
        if k == "deref":
            return ("deref", self.freeze_rv(lv[1]))
        if k == "idx":
            return ("idx", self.freeze_rv(lv[1]), self.freeze_rv(lv[2]))
        if k == "get":
            return ("get", lv[1], self.freeze(lv[2]))
        if k == "elt":
            return ("elt", self.freeze(lv[1]), self.freeze_rv(lv[2]))
        return ("rv", self.freeze_rv(lv[1] if k == "rv" else lv))

    def freeze_rv(self, rv):
        if rv[0] in ("k", "this", "g") or (rv[0] == "v" and rv[1].startswith("%")):
            return rv
        if rv[0] == "addr" and rv[1][0] in ("v",):
            return rv
        t = self.tmp()
        self.emit(("set", t, rv))
        return ("v", t)

    # ---- locks
    def lockdecl(self, x, cls, e):
        mode = "S" if cls == "std::shared_lock" else "X"
        args = e.get("a", []) if e else []
        self.emit(("set", x, ("lockobj", x)))
        if e is not None and e.get("cp") and args:
            # moved-from lock: take over
            self.emit(("lkmove", x, self.E(args[0])))
        elif args:
            muts = []
            deferred = False
            adopt = False
            tryl = False
            for a in args:
                if a.get("t") in MUTEX_CLASSES:
                    muts.append(self.LV(a))
                else:
                    at = a.get("t", "") or a.get("q", "")
                    if "defer_lock" in at:
                        deferred = True
                    elif "adopt_lock" in at:
                        adopt = True
                    elif "try_to_lock" in at:
                        tryl = True
            for m in muts:
                self.emit(("lkbind", x, self.freeze(m), mode, "defer" if deferred else "adopt" if adopt else "try" if tryl else "lock"))
        self.scopes[-1].append((x, cls))

    # ---- statements
    def s_if(self, s):
        self.scopes.append([])
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("dv"):
            self.decl(s["dv"])
        T, F = self.cond(s["c"])
        self.cur = T
        self.stmt_scoped(s["x"])
        a = self.cur
        self.cur = F
        self.stmt_scoped(s.get("y"))
        self.cur = self.cur + a
        if self.scopes[-1] and self.cur:
            for v in reversed(self.scopes[-1]):
                self.emit(("dtor", v[0], v[1]))
        self.scopes.pop()
        if len(self.cur) > 1:
            self.label()

    def stmt_scoped(self, s):
        if s is None:
            return
        if s["s"] == "blk":
            self.stmt(s)
        else:
            self.scopes.append([])
            self.stmt(s)
            if self.cur:
                for v in reversed(self.scopes[-1]):
                    self.emit(("dtor", v[0], v[1]))
            self.scopes.pop()

    def loop(self, head, cond, dv, body, inc, post=False):
        pass

    def s_for(self, s):
        self.scopes.append([])
        if s.get("init"):
            self.stmt(s["init"])
        head = self.emit(("loophead",))
        if s.get("dv"):
            self.decl(s["dv"])
        if s.get("c"):
            T, F = self.cond(s["c"])
        else:
            T, F = self.cur, []
        self.cur = T
        self.brk.append([[], len(self.scopes)])
        self.cont.append([[], len(self.scopes)])
        self.stmt_scoped(s["b"])
        self.cur = self.cur + self.cont.pop()[0]
        if self.cur:
            self.label()
            if s.get("inc"):
                self.E(s["inc"], drop=True)
            self.patch(head)
        self.cur = F + self.brk.pop()[0]
        if self.cur:
            self.emit(("loopexit", head))
        if self.scopes[-1] and self.cur:
            for v in reversed(self.scopes[-1]):
                self.emit(("dtor", v[0], v[1]))
        self.scopes.pop()

    def s_while(self, s):
        head = self.emit(("loophead",))
        self.scopes.append([])
        if s.get("dv"):
            self.decl(s["dv"])
        T, F = self.cond(s["c"])
        self.cur = T
        self.brk.append([[], len(self.scopes)])
        self.cont.append([[], len(self.scopes)])
        self.stmt_scoped(s["b"])
        self.cur = self.cur + self.cont.pop()[0]
        if self.cur:
            self.patch(head)
        self.cur = F + self.brk.pop()[0]
        self.scopes.pop()
        if self.cur:
            self.emit(("loopexit", head))

    def s_do(self, s):
        head = self.emit(("loophead",))
        self.brk.append([[], len(self.scopes)])
        self.cont.append([[], len(self.scopes)])
        self.stmt_scoped(s["b"])
        self.cur = self.cur + self.cont.pop()[0]
        F = []
        if self.cur:
            self.label()
            T, F = self.cond(s["c"])
            self.cur = T
            self.patch(head)
        self.cur = F + self.brk.pop()[0]
        if self.cur:
            self.emit(("loopexit", head))

    def s_rfor(self, s):
        self.scopes.append([])
        if s.get("init"):
            self.stmt(s["init"])
        r = s["r"]
        lv = self.freeze(self.LV(r))
        rng = self.tmp()
        self.emit(("ref", rng, lv))
        self.range_loop(("v", rng), s["v"], lambda: self.stmt_scoped(s["b"]))
        if self.scopes[-1] and self.cur:
            for v in reversed(self.scopes[-1]):
                self.emit(("dtor", v[0], v[1]))
        self.scopes.pop()

    def range_loop(self, rng, v, bodyf):
        head = self.emit(("loophead",))
        br = self.branch(("more", rng, head))
        self.cur = [(br, 0)]
        x = self.var(v["i"])
        self.g.vtypes[x] = v["t"]
        it = self.tmp()
        self.emit(("set", it, ("iter", rng, head)))
        elv = ("deref", ("v", it))
        if v.get("bind"):
            self.emit(("ref", x, elv))
            for b in v["bind"]:
                self.emit(("ref", self.var(b["i"]), ("get", b["x"], ("v", x))))
        elif v["ref"]:
            self.emit(("ref", x, elv))
        elif is_agg(v["t"]):
            self.emit(("ref", x, elv))
        else:
            self.emit(("set", x, self.copyof(("deref", ("v", it)), v["t"], None)))
        self.brk.append([[], len(self.scopes)])
        self.cont.append([[], len(self.scopes)])
        bodyf()
        self.cur = self.cur + self.cont.pop()[0]
        if self.cur:
            self.patch(head)
        self.cur = [(br, 1)] + self.brk.pop()[0]
        self.emit(("loopexit", head))

    def s_switch(self, s):
        c = self.freeze_rv(self.E(s["c"]))
        # collect the cases in order
        self.brk.append([[], len(self.scopes)])
        self.sw.append({"c": c, "cases": [], "default": None, "fall": []})
        start = self.cur
        self.cur = []
        # body is lowered with entry only through case labels
        self.stmt(s["b"])
        end = self.cur
        info = self.sw.pop()
        self.cur = start
        for (v, tgt) in info["cases"]:
            br = self.branch(("op", "==", c, v))
            self.cur = [(br, 0)]
            self.patch(tgt)
            self.cur = [(br, 1)]
        if info["default"] is not None:
            self.patch(info["default"])
        self.cur = self.cur + end + self.brk.pop()[0]
        if self.cur:
            self.label()

    def s_case(self, s):
        v = self.E(s["v"])
        k = self.label()
        self.sw[-1]["cases"].append((v, k))
        self.stmt(s["b"])

    def s_default(self, s):
        k = self.label()
        self.sw[-1]["default"] = k
        self.stmt(s["b"])

    def s_break(self, s):
        b = self.brk[-1]
        self.unwind(b[1])
        b[0] += self.cur
        self.cur = []

    def s_continue(self, s):
        b = self.cont[-1]
        self.unwind(b[1])
        b[0] += self.cur
        self.cur = []

    def s_ret(self, s):
        rv = None
        if s.get("e") is not None:
            e = s["e"]
            if is_agg(self.fn.rt) and not self.fn.rf:
                rv = self.aggsrc(e)
            elif self.fn.rf:
                rv = ("addr", self.LV(e))
            else:
                if e["k"] == "cond" and not self.pure(e):
                    pass
                rv = self.E(e)
            if rv[0] not in ("k",):
                if len([v for sc in self.scopes for v in sc]):
                    t = self.tmp()
                    self.emit(("set", t, rv))
                    rv = ("v", t)
        self.unwind(0)
        self.emit(("ret", rv))
        self.cur = []

    def s_goto(self, s):
        self.emit(("nop",))
        self.gotos.append((self.cur, [list(x) for x in self.scopes], s["n"]))
        self.cur = []

    def s_label(self, s):
        k = self.label()
        self.labels[s["n"]] = (k, [list(x) for x in self.scopes])
        self.stmt(s["b"])

    def s_try(self, s):
        hs = []
        save = self.cur
        # lower handlers first to know their entry nodes
        ends = []
        types = []
        for h in s["h"]:
            self.cur = []
            k = self.emit(("catch", h["t"]))
            hs.append((h["t"], k))
            self.stmt(h["b"])
            ends += self.cur
        self.cur = save
        self.trys.append({"h": hs, "outer": self.trys[-1] if self.trys else None, "depth": len(self.scopes),
                          "scopes": None})
        self.stmt(s["b"])
        self.trys.pop()
        self.cur = self.cur + ends
        if self.cur:
            self.label()

    # ---- conditions (control flow)
    def pure(self, e):
        """no node needs to be emitted for e"""
        if e is None or not isinstance(e, dict):
            return True
        k = e["k"]
        if "cv" in e:
            return True
        if k in ("int", "str", "flt", "null", "this", "var", "gvar", "fref", "lambda"):
            return k != "lambda"
        if k in ("asg", "new", "del", "throw", "stmtexpr"):
            return False
        if k == "un" and e["op"] in ("++", "--"):
            return False
        if k == "call":
            if e.get("f") in self.p.fns or e.get("f") in self.p.overriders:
                return False
            if not self.lib_pure(e):
                return False
        if k == "ctor" and e.get("f") in self.p.fns:
            return False
        for key in ("e", "b", "x", "y", "c", "r"):
            v = e.get(key)
            if isinstance(v, dict) and not self.pure(v):
                return False
        for a in e.get("a", []) or []:
            if isinstance(a, dict) and not self.pure(a):
                return False
        return True

    def cond(self, e):
        """lowers a condition; returns (true edges, false edges)"""
        k = e["k"]
        if "cv" in e and self.pure(e):
            br = self.branch(("k", bool(e["cv"])))
            return [(br, 0)], [(br, 1)]
        if k == "tobool":
            return self.cond_rv(e)
        if k == "bin" and e["op"] == "&&":
            T1, F1 = self.cond(e["x"])
            self.cur = T1
            T2, F2 = self.cond(e["y"])
            return T2, F1 + F2
        if k == "bin" and e["op"] == "||":
            T1, F1 = self.cond(e["x"])
            self.cur = F1
            T2, F2 = self.cond(e["y"])
            return T1 + T2, F2
        if k == "un" and e["op"] == "!":
            T, F = self.cond(e["e"])
            return F, T
        if k == "bin" and e["op"] == ",":
            self.E(e["x"], drop=True)
            return self.cond(e["y"])
        if k == "cond":
            T, F = self.cond(e["c"])
            self.cur = T
            T1, F1 = self.cond(e["x"])
            self.cur = F
            T2, F2 = self.cond(e["y"])
            return T1 + T2, F1 + F2
        return self.cond_rv(e)

    def cond_rv(self, e):
        rv = self.E(e)
        br = self.branch(rv)
        return [(br, 0)], [(br, 1)]

    # ---- lvalues
    def LV(self, e):
        k = e["k"]
        if k == "var":
            return ("v", self.var(e["i"]))
        if k == "gvar":
            return ("g", e["q"])
        if k == "mem":
            f = e["f"]
            if f.startswith("std::pair::") or f in ("std::first", "std::second"):
                ix = 0 if f.endswith("first") else 1
                return ("get", ix, self.LV(e["b"]))
            if e["ar"]:
                return ("fld", self.E(e["b"]), f)
            return ("fld", ("addr", self.LV(e["b"])), f)
        if k == "un" and e["op"] == "*":
            return ("deref", self.E(e["e"]))
        if k == "un" and e["op"] in ("++", "--"):
            self.E(e, drop=True)
            return self.LV(e["e"])
        if k == "idx":
            return ("idx", self.E(e["b"]), self.E(e["x"]))
        if k == "asg":
            self.E(e, drop=True)
            return self.LV(e["x"])
        if k == "icast":
            return self.LV(e["e"])
        if k == "cond":
            return ("rv", self.E(e))
        if k == "this":
            return ("deref", ("this",))
        if k == "call":
            q = e.get("q", "")
            last = q.split("::")[-1]
            if e.get("f") in self.p.fns:
                f = self.p.fns[e["f"]]
                rv = self.E(e)
                if f.rf:
                    return ("deref", rv)
                return ("rv", rv)
            if q.startswith("std::") or q.startswith("__gnu_cxx::"):
                if last in ("at", "operator[]") and e.get("r") is not None and e.get("a"):
                    base = self.LV(e["r"])
                    return ("elt", base, self.E(e["a"][0]))
                if last == "get" and "ti" in e and e.get("a"):
                    return ("get", e["ti"], self.LV(e["a"][0]))
                if last in ("operator*", "operator->") and (e.get("r") is not None or e.get("a")):
                    return ("deref", self.E(e.get("r") or e["a"][0]))
                if last in ("back", "front") and e.get("r") is not None:
                    return ("elt", self.LV(e["r"]), ("k", "#" + last))
                if last in ("move", "forward", "as_const") and e.get("a"):
                    return self.LV(e["a"][0])
            return ("rv", self.E(e))
        if k == "ctor":
            if len(e["a"]) == 1 and e["a"][0]["k"] in ("var", "mem", "call", "gvar") and e.get("cp"):
                return ("rv", self.E(e))
        return ("rv", self.E(e))

    def rd(self, lv):
        """rvalue of an lvalue"""
        k = lv[0]
        if k in ("v", "g", "fld", "idx", "deref"):
            return lv
        if k == "get":
            return ("lib", "get%d" % lv[1], "", self.rd(lv[2]))
        if k == "elt":
            if lv[2][0] == "k" and lv[2][1] in ("#back", "#front"):
                return ("lib", lv[2][1][1:], "", self.rd(lv[1]))
            return ("lib", "at", "", self.rd(lv[1]), lv[2])
        if k == "rv":
            return lv[1]
        raise ValueError(lv)

    # ---- rvalues
    def E(self, e, drop=False):
        k = e["k"]
        if "l" in e:
            self.ln = e["l"]
        if "cv" in e and k not in ("var",) and self.pure(e):
            return ("k", e["cv"])
        return getattr(self, "e_" + k)(e, drop) if k in ("call", "asg", "un") else getattr(self, "e_" + k)(e)

    def e_int(self, e):
        if e.get("t") == "b":
            return ("k", bool(e["v"]))
        return ("k", e["v"])

    def e_flt(self, e):
        return ("k", float(e["v"]))

    def e_str(self, e):
        return ("k", e["v"])

    def e_null(self, e):
        return ("k", None)

    def e_this(self, e):
        return ("this",)

    def e_var(self, e):
        if e.get("t", "").startswith("std::") is False and is_agg(e.get("t", "")):
            return ("addr", ("v", self.var(e["i"])))  # aggregates travel by address
        return ("v", self.var(e["i"]))

    def e_gvar(self, e):
        if is_agg(e.get("t", "")):
            return ("addr", ("g", e["q"]))
        if "cv" in e:
            return ("k", e["cv"])
        return ("g", e["q"])

    def e_fref(self, e):
        return ("fn", e["f"], e["q"])

    def e_mem(self, e):
        lv = self.LV(e)
        if is_agg(e.get("t", "")) and lv[0] == "fld":
            return ("aggld", lv)
        return self.rd(lv)

    def e_dyncast(self, e):
        return ("op", "dyncast", self.E(e["e"]), ("k", e["to"]))

    def e_icast(self, e):
        if "cv" in e:
            return ("k", e["cv"])
        r = self.E(e["e"])
        fr, to = e["fr"], e["to"]
        if to == "f" or fr == "f":
            return ("op", "cast", r, ("k", fr), ("k", to))
        if to == "b":
            return ("op", "!=", r, ("k", 0))
        return r

    def e_tobool(self, e):
        r = self.E(e["e"])
        if e["fr"].startswith("*"):
            return ("op", "!=", r, ("k", None))
        return ("op", "!=", r, ("k", 0))

    def e_tovoid(self, e):
        self.E(e["e"], drop=True)
        return ("k", 0)

    def e_un(self, e, drop=False):
        op = e["op"]
        if op == "&":
            return ("addr", self.LV(e["e"]))
        if op == "*":
            if e["e"]["k"] == "call" and e["e"].get("q") == "__errno_location":
                return ("errno",)
            p = self.E(e["e"])
            if is_agg(e.get("t", "")):
                return p
            return ("deref", p)
        if op in ("++", "--"):
            lv = self.freeze(self.LV(e["e"]))
            old = None
            if e["pf"] and not drop:
                t = self.tmp()
                self.emit(("set", t, self.rd(lv)))
                old = ("v", t)
            self.emit(("store", lv, ("op", "+" if op == "++" else "-", self.rd(lv), ("k", 1))))
            return old if old is not None else self.rd(lv)
        r = self.E(e["e"])
        if op == "!":
            return ("op", "!", r)
        if op == "-":
            return ("op", "neg", r)
        if op == "+":
            return r
        return ("op", "un" + op, r)

    def shortcircuit(self, e):
        T, F = self.cond(e)
        t = self.tmp("b")
        self.cur = T
        self.emit(("set", t, ("k", True)))
        a = self.cur
        self.cur = F
        self.emit(("set", t, ("k", False)))
        self.cur = self.cur + a
        self.label()
        return ("v", t)

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            if self.pure(e["x"]) and self.pure(e["y"]):
                return ("op", op, self.E(e["x"]), self.E(e["y"]))
            return self.shortcircuit(e)
        if op == ",":
            self.E(e["x"], drop=True)
            return self.E(e["y"])
        x = self.E(e["x"])
        if not self.pure(e["y"]):
            x = self.freeze_rv(x)
        y = self.E(e["y"])
        return ("op", op, x, y, ("k", e.get("t", "")))

    def e_asg(self, e, drop=False):
        op = e["op"]
        lhs, rhs = e["x"], e["y"]
        if op == "=":
            if is_agg(lhs.get("t", "")) and lhs["k"] in ("var", "mem", "idx", "un", "gvar"):
                src = self.aggsrc(rhs)
                lv = self.LV(lhs)
                self.emit(("aggstore", lv, src))
                return ("addr", lv)
            r = self.E(rhs)
            if r[0] not in ("k",) and not self.pure(lhs):
                r = self.freeze_rv(r)
            lv = self.LV(lhs)
            self.emit(("store", lv, self.copyof(r, lhs.get("t", "") or "", None)))
            return self.rd(lv) if not drop else ("k", 0)
        r = self.E(rhs)
        lv = self.freeze(self.LV(lhs))
        self.emit(("store", lv, ("op", op[:-1], self.rd(lv), r)))
        return self.rd(lv)

    def e_cond(self, e):
        if self.pure(e["c"]) and self.pure(e["x"]) and self.pure(e["y"]):
            return ("op", "ite", self.E(e["c"]), self.E(e["x"]), self.E(e["y"]))
        T, F = self.cond(e["c"])
        t = self.tmp(e.get("t"))
        self.cur = T
        self.emit(("set", t, self.E(e["x"])))
        a = self.cur
        self.cur = F
        self.emit(("set", t, self.E(e["y"])))
        self.cur = self.cur + a
        self.label()
        return ("v", t)

    def e_idx(self, e):
        if is_agg(e.get("t", "")):
            return ("addr", ("idx", self.E(e["b"]), self.E(e["x"])))
        return ("idx", self.E(e["b"]), self.E(e["x"]))

    def e_il(self, e):
        t = e.get("t", "")
        vals = [self.E(a) for a in e["a"]]
        return ("il",) + tuple(vals)

    def e_lambda(self, e):
        return ("lam", e["f"])

    def e_ctor(self, e):
        q = e["q"]
        args = e["a"]
        if q in ("std::pair", "std::tuple"):
            if len(args) == 1 and (e.get("cp") or True):
                return self.E(args[0])
            return ("tup",) + tuple(self.E(a) for a in args)
        if q == "std::basic_string":
            if not args:
                return ("k", "")
            if len(args) == 1 or (len(args) >= 2 and args[1]["k"] == "ctor" and "allocator" in args[1].get("q", "")):
                return self.E(args[0])
            return ("lib", "mkstring", "std::basic_string") + tuple(self.E(a) for a in args)
        if "allocator" in q:
            return ("k", 0)
        if q.startswith("std::") or q.startswith("__gnu_cxx"):
            if "iterator" in q.lower() and len(args) == 1:
                return self.E(args[0])
            real = [a for a in args if not (a["k"] == "ctor" and ("allocator" in a.get("q", "") or "hash" in a.get("q", "") or "equal_to" in a.get("q", ""))) and not (a["k"] == "int" and q != "std::vector" and q.startswith("std::unordered"))]
            if e.get("cp") and real:
                r = self.E(real[0])
                return self.copyof(r, q, None)
            if not real:
                if q in ("std::vector", "std::list", "std::map", "std::set", "std::unordered_map", "std::unordered_set", "std::deque", "std::multimap"):
                    return ("il",)
                return ("lib", "ctor", q)
            if len(real) == 1 and real[0]["k"] == "il" and q not in ("std::basic_regex",):
                return self.E(real[0])
            if q in ("std::vector", "std::list", "std::map", "std::set", "std::unordered_map", "std::unordered_set", "std::deque"):
                rv = [self.E(a) for a in real]
                if len(rv) == 1 and rv[0][0] in ("il",):
                    return rv[0]
                if len(rv) == 2 and rv[0][0] == "lib" and rv[0][1] in ("begin", "cbegin") and rv[1][0] == "lib" and rv[1][1] in ("end", "cend") and rv[0][3] == rv[1][3]:
                    return ("copy", rv[0][3])
                return ("lib", "ctor", q) + tuple(rv)
            if q in ("std::optional",) and len(real) == 1:
                return self.E(real[0])
            rv = tuple(self.E(a) for a in real)
            if q == "std::basic_regex":
                t = self.tmp(q)
                self.emit(("libcall", t, "std::regex::regex", None, rv, self.ln))
                return ("v", t)
            return ("lib", "ctor", q) + rv
        if q.startswith("spdlog") or q.startswith("fmt") or q.startswith("toml"):
            return ("lib", "ctor", q) + tuple(self.E(a) for a in args)
        # repository aggregate temporary
        if e.get("cp") and args:
            return self.E(args[0])
        t = self.tmp(q)
        self.emit(("aggdecl", t))
        self.init_agg(("addr", ("v", t)), e)
        return ("addr", ("v", t))

    def e_new(self, e):
        if e.get("pl"):
            for a in e["pl"]:
                self.E(a)
        t = self.tmp(e.get("t"))
        init = e.get("e")
        self.emit(("new", t, e["q"]))
        if init is not None:
            if init["k"] == "ctor" and init.get("f") in self.p.fns:
                self.call_ctor_on(("v", t), init)
            else:
                for a in init.get("a", []) or []:
                    if isinstance(a, dict):
                        self.E(a)
        return ("v", t)

    def e_del(self, e):
        r = self.freeze_rv(self.E(e["e"]))
        t = e.get("t", "")
        if t.startswith("*"):
            d = self.dtor_of(t[1:])
            if d:
                self.emit(("call", None, {"f": d, "q": self.p.fns[d].q, "dtor": True}, r, []))
        self.emit(("delete", r, t))
        return ("k", 0)

    def e_throw(self, e):
        if e.get("e"):
            self.E(e["e"])
        self.emit(("throw",))
        self.cur = []
        return ("k", 0)

    def e_stmtexpr(self, e):
        self.stmt(e["s"])
        return ("opq", self.ln)

    def e_opq(self, e):
        return ("opq", self.tmpn, self.ln) + tuple(self.E(a) for a in e.get("a", []))

    # ---- calls
    def arg(self, a, mode):
        """argument as RV; reference/aggregate arguments as ('lvarg', lv)"""
        if mode in ("r", "c") or (is_agg(a.get("t", "") or "") and a["k"] in ("var", "mem", "idx")):
            if a["k"] in ("var", "gvar", "mem", "idx") or (a["k"] == "un" and a["op"] == "*") or \
               (a["k"] == "call" and a.get("q", "").split("::")[-1] in ("at", "operator[]", "get", "operator*", "operator->", "back", "front")):
                return ("lvarg", self.freeze(self.LV(a)))
            if a["k"] == "call" and a.get("f") in self.p.fns and self.p.fns[a["f"]].rf:
                return ("lvarg", self.freeze(self.LV(a)))
        if a["k"] == "ctor" and a.get("cp") and a["a"] and is_agg(a.get("q", "")):
            return ("lvarg", self.freeze(self.LV(a["a"][0]))) if a["a"][0]["k"] in ("var", "mem", "idx", "gvar") else self.E(a["a"][0])
        return self.E(a)

    def lib_pure(self, e):
        q = e.get("q", "")
        last = q.split("::")[-1]
        r = e.get("r")
        if "cv" in e:
            return True
        if r is not None:
            rt = e.get("rt", "") or ""
            if q.startswith("std::") or q.startswith("__gnu_cxx") or q.startswith("toml") or q.startswith("fmt") or q.startswith("spdlog"):
                cls = "::".join(q.split("::")[:-1])
                if cls in LOCK_CLASSES or cls in MUTEX_CLASSES or cls in ("std::__shared_mutex_pthread", "std::thread", "std::__mutex_base"):
                    return last in ("owns_lock", "joinable", "operator bool", "mutex")
                if cls in ATOMIC or "atomic" in cls:
                    return last in ("load",) or last.startswith("operator ") or last in ("operator int",)
                if last in ("operator++", "operator--", "operator=", "operator+="):
                    return False
                if e.get("cm"):
                    return True
                return last in STD_PURE_METHODS
            return False
        if q.startswith("std::"):
            if last in ITER_ALGOS_MUT or last in ("for_each", "any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if", "transform", "copy", "copy_if", "accumulate", "swap", "exchange", "lock", "advance", "getline", "iter_swap", "generate", "terminate", "exit", "abort"):
                return False
            if last in ("stoi", "stol", "stoll", "stoul", "stoull", "stod", "stof"):
                return False
            pm = e.get("pm", [])
            if last in FREE_STD_PURE_PTR:
                return True
            if last == "operator<<" or last == "operator>>":
                return False
            if "r" in pm or "p" in pm:
                if last.startswith("operator"):
                    return True
                return False
            return True
        return False

    def e_call(self, e, drop=False):
        q = e.get("q", "")
        last = q.split("::")[-1]
        fid = e.get("f")
        a = e.get("a", [])
        r = e.get("r")
        if fid in self.p.fns or fid in self.p.overriders:
            return self.repo_call(e, drop)
        if not q and e.get("fx"):
            fx = self.E(e["fx"])
            args = [self.arg(x, None) for x in a]
            t = self.tmp(e.get("t"))
            self.emit(("icall", t, fx, args))
            return ("v", t)
        if e.get("lam") and r is not None:
            fx = self.E(r)
            args = [self.arg(x, m) for x, m in zip(a, e.get("pm", []))]
            t = self.tmp(e.get("t"))
            self.emit(("icall", t, fx, args))
            return ("v", t)
        cls = "::".join(q.split("::")[:-1])
        if q.startswith("std::") or q.startswith("__gnu_cxx"):
            return self.std_call(e, q, cls, last, r, a, drop)
        if q.startswith("spdlog::") or q.startswith("fmt::") or q.startswith("toml::"):
            args = tuple(self.E(x) for x in a)
            rv = (self.rd(self.LV(r)),) if r is not None else ()
            if q.startswith("spdlog::"):
                self.emit(("ext", None, q, args, [], e.get("t", "v")))
                return ("opq", self.tmpn, self.ln)
            return ("lib", last, cls) + rv + args
        if last == "operator=" and len(a) == 1 and (r is not None) and cls.split("<")[0] and is_agg(cls):
            # the implicit assignment of a plain aggregate
            lv = ("deref", self.E(r)) if e.get("rp") else self.LV(r)
            lv = self.freeze(lv)
            self.emit(("aggstore", lv, self.aggsrc(a[0])))
            return ("addr", lv)
        # plain C function
        args = []
        outs = []
        for n, x in enumerate(a):
            m = e.get("pm", [])[n] if n < len(e.get("pm", [])) else "v"
            args.append(self.E(x))
            if m == "p" or (m == "r"):
                outs.append(n)
        t = None
        if e.get("t") != "v":
            t = self.tmp(e.get("t"))
        if last == "__errno_location":
            return ("addr", ("g", "errno"))
        self.emit(("ext", t, q, tuple(args), outs, e.get("t", "v")))
        if e.get("nr"):
            self.cur = []
        return ("v", t) if t else ("k", 0)

    def repo_call(self, e, drop):
        fid = e["f"]
        f = self.p.fns.get(fid)
        pm = e.get("pm", [])
        recv = None
        if e.get("r") is not None:
            if e.get("rp"):
                recv = self.E(e["r"])
            else:
                recv = ("addr", self.LV(e["r"]))
            if recv[0] not in ("this", "k"):
                recv = self.freeze_rv(recv)
        args = []
        pt = e.get("pt", [])
        for n, x in enumerate(e.get("a", [])):
            m = pm[n] if n < len(pm) else "v"
            t = pt[n] if n < len(pt) else ""
            if m == "v" and is_agg(t):
                if x["k"] == "ctor" and x.get("cp") and x["a"]:
                    x = x["a"][0]
                args.append(("aggarg", self.aggsrc(x)))
                continue
            av = self.arg(x, m)
            if av[0] not in ("lvarg", "k") and not all(self.pure(y) for y in e["a"][n + 1:]):
                av = self.freeze_rv(av)
            args.append(av)
        t = self.tmp(e.get("t")) if e.get("t") != "v" else None
        self.emit(("call", t, {"f": fid, "q": e["q"], "virt": e.get("vt", False)}, recv, args))
        if f is not None and f.rf and t:
            return ("deref", ("v", t))
        return ("v", t) if t else ("k", 0)

    def std_call(self, e, q, cls, last, r, a, drop):
        pm = e.get("pm", [])

        def obj():
            return ("deref", self.E(r)) if e.get("rp") else self.LV(r)

        if r is not None:
            # locks
            if cls in LOCK_CLASSES:
                lv = obj()
                if last in ("lock", "unlock", "try_lock"):
                    t = self.tmp("b")
                    self.emit(("lkop", t, lv, last))
                    return ("v", t)
                return ("lib", last, cls, self.rd(lv))
            if cls in MUTEX_CLASSES or cls in ("std::__mutex_base", "std::__shared_mutex_pthread"):
                lv = obj()
                if last in ("lock", "unlock", "lock_shared", "unlock_shared", "try_lock", "try_lock_shared"):
                    t = self.tmp("b")
                    self.emit(("mxop", t, self.freeze(lv), last))
                    return ("v", t)
            if cls in ATOMIC or "atomic" in cls:
                lv = obj()
                if last == "load" or last.startswith("operator ") or last in ("operator int", "operator bool"):
                    return self.rd(lv)
                lv = self.freeze(lv)
                if last in ("store", "operator="):
                    v = self.E(a[0])
                    self.emit(("store", lv, v))
                    return self.rd(lv)
                if last in ("fetch_add", "fetch_sub", "operator++", "operator--", "operator+=", "operator-=", "exchange"):
                    t = self.tmp("i32")
                    self.emit(("set", t, self.rd(lv)))
                    amt = ("k", 1)
                    if last in ("fetch_add", "fetch_sub", "operator+=", "operator-=", "exchange") and a:
                        amt = self.E(a[0])
                    op = "-" if "sub" in last or last in ("operator--", "operator-=") else "+"
                    self.emit(("store", lv, amt if last == "exchange" else ("op", op, self.rd(lv), amt)))
                    if last in ("operator++", "operator--"):
                        # prefix form has no int argument
                        return self.rd(lv) if not a else ("v", t)
                    if last in ("operator+=", "operator-="):
                        return self.rd(lv)
                    return ("v", t)
                for x in a:
                    self.E(x)
                self.emit(("store", lv, ("opq", self.tmpn, self.ln)))
                return self.rd(lv)
            if last == "operator=" and a:
                v = self.E(a[0])
                lv = obj()
                self.emit(("store", lv, self.copyof(v, "std::container" if v[0] != "k" and cls != "std::basic_string" and cls != "std::optional" else "", None)))
                return self.rd(lv)
            if last in ("operator++", "operator--"):
                lv = self.freeze(obj())
                old = None
                if a and not drop:
                    t = self.tmp()
                    self.emit(("set", t, self.rd(lv)))
                    old = ("v", t)
                self.emit(("itinc", lv, last))
                return old if old is not None else self.rd(lv)
            if self.lib_pure(e):
                lv = obj()
                rv = self.rd(lv)
                args = tuple(self.E(x) for x in a)
                if last in ("at", "operator[]") and args:
                    if last == "at":
                        self.emit(("libcall", None, "at", rv, args, self.ln))
                    return ("lib", "at", cls, rv) + args
                if last == "operator*" and not args or last == "operator->":
                    return ("deref", rv)
                if last == "value" and cls == "std::optional":
                    return rv
                return ("lib", last.replace("operator", "op") if last.startswith("operator") else last, cls, rv) + args
            # container / string mutation
            lv = obj()
            if last == "pop_back" or True:
                args = tuple(self.E(x) for x in a)
            lv = self.freeze(lv)
            t = self.tmp()
            if last in NOEFFECT_MUT:
                return ("k", 0)
            self.emit(("mut", t, lv, last, args))
            return ("v", t)
        # free functions
        if last == "get" and "ti" in e and a:
            return self.rd(("get", e["ti"], self.LV(a[0])))
        if last in ("make_pair", "make_tuple", "forward_as_tuple"):
            return ("tup",) + tuple(self.E(x) for x in a)
        if last in ("move", "forward", "as_const") and len(a) == 1:
            return self.E(a[0])
        if last in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(a) == 2:
            return ("op", last[8:], self.E(a[0]), self.E(a[1]))
        if last == "operator+" and len(a) == 2:
            return ("op", "strcat" if "string" in (e.get("t") or "") else "+", self.E(a[0]), self.E(a[1]))
        if last in ("operator<<", "operator>>"):
            for x in a:
                self.E(x)
            return ("opq", self.tmpn, self.ln)
        if last in ("for_each", "any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if", "transform", "copy_if", "remove_if", "accumulate"):
            return self.algo(e, last, a)
        if last in ITER_ALGOS_MUT and a:
            rv = [self.E(x) for x in a]
            if rv[0][0] == "lib" and rv[0][1] in ("begin", "rbegin"):
                lv = rv[0][3]
                t = self.tmp()
                if last == "remove":
                    # result only meaningful together with erase(); elements compared by value
                    return ("lib", "stdremove", "", lv, rv[2] if len(rv) > 2 else ("k", None))
                self.emit(("mut", t, lv if lv[0] in ("v", "g", "fld", "idx", "deref") else ("rv", lv), "std::" + last, tuple(rv[2:])))
                return ("v", t)
            return ("opq", self.tmpn, self.ln)
        if last == "exchange" and len(a) == 2:
            lv = self.freeze(self.LV(a[0]))
            t = self.tmp()
            self.emit(("set", t, self.rd(lv)))
            self.emit(("store", lv, self.E(a[1])))
            return ("v", t)
        if last == "swap" and len(a) == 2:
            l1 = self.freeze(self.LV(a[0])); l2 = self.freeze(self.LV(a[1]))
            t = self.tmp()
            self.emit(("set", t, self.rd(l1)))
            self.emit(("store", l1, self.rd(l2)))
            self.emit(("store", l2, ("v", t)))
            return ("k", 0)
        if last in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty") and len(a) == 1:
            return ("lib", last, "", self.rd(self.LV(a[0])))
        if last in ("stoi", "stol", "stoll", "stoul", "stoull", "stod", "stof"):
            args = tuple(self.E(x) for x in a)
            t = self.tmp(e.get("t"))
            self.emit(("libcall", t, "std::" + last, None, args, self.ln))
            return ("v", t)
        if self.lib_pure(e):
            return ("lib", last, "std") + tuple(self.E(x) for x in a)
        # C functions re-exported in std:: (std::memcpy, std::malloc, std::free, ...)
        cf = {"memcpy", "memset", "memmove", "free", "malloc", "calloc", "strcmp", "strlen", "strdup", "printf", "exit",
              "abort", "rename", "remove", "strncmp", "memcmp", "raise"}
        args = tuple(self.E(x) for x in a)
        outs = [n for n, m in enumerate(pm) if m in ("p", "r")]
        t = self.tmp(e.get("t")) if e.get("t") != "v" else None
        self.emit(("ext", t, last if last in cf else q, args, outs, e.get("t", "v")))
        if e.get("nr"):
            self.cur = []
        return ("v", t) if t else ("k", 0)

    def algo(self, e, last, a):
        rv = [self.E(x) for x in a]
        rng = None
        if rv and rv[0][0] == "lib" and rv[0][1] in ("begin", "cbegin", "rbegin"):
            rng = rv[0][3]
        lam = rv[-1]
        res = self.tmp(e.get("t"))
        if rng is None or lam[0] not in ("lam", "v", "fn"):
            self.emit(("set", res, ("opq", self.tmpn, self.ln)))
            return ("v", res)
        rt = self.tmp()
        self.emit(("ref", rt, self.freeze(rng) if rng[0] in ("v", "g", "fld", "idx", "deref") else ("rv", rng)))
        early = last in ("any_of", "all_of", "none_of", "find_if", "find_if_not")
        head = self.emit(("loophead",))
        br = self.branch(("more", ("v", rt), head))
        self.cur = [(br, 0)]
        it = self.tmp()
        self.emit(("set", it, ("iter", ("v", rt), head)))
        t = self.tmp()
        self.emit(("icall", t, lam, [("lvarg", ("deref", ("v", it)))]))
        ends = []
        if early:
            b2 = self.branch(("v", t))
            stop = 1 if last in ("all_of", "find_if_not") else 0
            self.cur = [(b2, stop)]
            if last in ("any_of", "none_of", "all_of"):
                self.emit(("set", res, ("k", last == "any_of")))
            else:
                self.emit(("set", res, ("v", it)))
            ends += self.cur
            self.cur = [(b2, 1 - stop)]
        self.patch(head)
        self.cur = [(br, 1)]
        if last in ("any_of", "none_of", "all_of"):
            self.emit(("set", res, ("k", last != "any_of")))
        elif last in ("find_if", "find_if_not"):
            self.emit(("set", res, ("lib", "end", "", ("v", rt))))
        else:
            self.emit(("set", res, ("opq", self.tmpn, self.ln)))
        self.cur = self.cur + ends
        self.emit(("loopexit", head))
        return ("v", res)


def lower(prog, fn):
    if fn.cfg is None:
        fn.cfg = Lower(prog, fn).run()
        liveness(fn.cfg)
    return fn.cfg


# ---- liveness of local variables
def rv_vars(rv, out):
    if isinstance(rv, tuple):
        if rv and rv[0] == "v" and len(rv) == 2 and isinstance(rv[1], str):
            out.add(rv[1])
            return
        for x in rv:
            if isinstance(x, (tuple, list)):
                rv_vars(tuple(x), out)
    elif isinstance(rv, list):
        for x in rv:
            rv_vars(x, out)


def uses_defs(i):
    u = set()
    d = set()
    k = i[0]
    if k == "set":
        rv_vars(i[2], u); d.add(i[1])
    elif k == "ref":
        rv_vars(i[2], u); d.add(i[1])
    elif k == "store":
        rv_vars(i[2], u)
        if i[1][0] == "v":
            # may be a reference variable: treat the use conservatively
            u.add(i[1][1])
        else:
            rv_vars(i[1], u)
    else:
        for x in i[1:]:
            if isinstance(x, (tuple, list)):
                rv_vars(tuple(x), u)
            elif isinstance(x, str) and k in ("dtor", "aggdecl", "lkbind", "lkmove"):
                if k == "dtor":
                    u.add(x)
        if k in ("call", "ext", "icall", "mut", "lkop", "mxop", "libcall", "new") and isinstance(i[1], str):
            d.add(i[1])
    return u, d


def liveness(g):
    n = len(g.nodes)
    ud = [uses_defs(x.i) for x in g.nodes]
    # variables whose reference is taken ('ref' to them or address) stay live
    pinned = set()
    for x in g.nodes:
        def scan(r):
            if isinstance(r, tuple):
                if r and r[0] == "addr" and isinstance(r[1], tuple) and r[1][0] == "v":
                    pinned.add(r[1][1])
                if r and r[0] == "lvarg":
                    rv_vars(r[1], pinned)
                if r and r[0] == "lam":
                    pinned.add("*lam")
                for y in r:
                    if isinstance(y, (tuple, list)):
                        scan(tuple(y))
        scan(tuple(x.i))
        if x.i[0] == "ref":
            rv_vars(x.i[2], pinned)
            pinned.add(x.i[1])
        if x.i[0] in ("lkbind", "lkmove", "aggdecl"):
            pinned.add(x.i[1])
    g.pinned = pinned
    live = [frozenset()] * n
    preds = [[] for _ in range(n)]
    for k, x in enumerate(g.nodes):
        for s in x.s:
            if s is not None:
                preds[s].append(k)
    work = list(range(n))
    inw = set(work)
    while work:
        k = work.pop()
        inw.discard(k)
        out = set()
        for s in g.nodes[k].s:
            if s is not None:
                out |= live[s]
        tr = g.nodes[k].tr
        if tr:
            for (_, h) in tr["h"]:
                out |= live[h]
        u, d = ud[k]
        new = frozenset((out - d) | u)
        if new != live[k]:
            live[k] = new
            for p in preds[k]:
                if p not in inw:
                    inw.add(p); work.append(p)
    g.live = live
    g.preds = preds
