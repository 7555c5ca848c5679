"""Whole-program, flow- and context-sensitive dataflow analysis.

A dataflow state maps storage places to value terms and carries a set of branch
facts, the locks held and a rule's automaton state.  States with the same key
(automaton state, lockset, active loops, rule-selected facts) are joined at
control-flow merges (property simulation); calls are expanded per call string.
The analysis iterates to a fixpoint over the expanded control-flow graph."""
import heapq
import sys
from .terms import *
from .terms import EMPTY
from .lower import lower, is_agg, LOCK_CLASSES
from .load import AnalysisBroken

sys.setrecursionlimit(20000)

TRANSFER = {"pwrite", "pwritev", "write", "writev", "pread", "preadv", "read", "readv", "pwrite64", "pread64"}
SING_SUFFIX = ("LazyFS", "Cache", "PageCacheEngine", "CustomCacheEngine", "Config")


class Ctx:
    __slots__ = ("id", "parent", "fn", "call", "chain", "order", "inloop", "cfg", "this", "site", "rpo", "scc", "loops", "line")


class S:
    __slots__ = ("env", "mem", "ver", "gver", "facts", "locks", "auto", "loops", "cur", "must", "lastit", "tr", "dead", "pc")

    def copy(self):
        s = S()
        s.env = dict(self.env); s.mem = dict(self.mem); s.ver = dict(self.ver); s.gver = self.gver
        s.facts = dict(self.facts); s.locks = self.locks; s.auto = self.auto; s.loops = self.loops
        s.cur = self.cur; s.must = self.must; s.lastit = self.lastit; s.tr = self.tr; s.dead = self.dead; s.pc = self.pc
        return s


def same(a, b):
    return a.env == b.env and a.mem == b.mem and a.ver == b.ver and a.gver is b.gver and a.facts == b.facts and \
        a.cur == b.cur and a.must == b.must and a.lastit == b.lastit and a.pc == b.pc


# calls that return 0 or -1
ZERO_ON_SUCCESS = {"lstat", "stat", "fstat", "fstatat", "rename", "unlink", "unlinkat", "link", "linkat", "symlink", "symlinkat", "truncate",
                   "ftruncate", "fsync", "fdatasync", "close", "mkdir", "mkdirat", "rmdir", "chmod", "chown", "lchown", "access", "mkfifo"}


class Rule:
    """base class; a rule reacts to events and may ask for facts to be kept apart"""
    name = "rule"
    init = ()

    def on(self, e, st, cx, node, ev):
        pass

    def key(self, e, st):
        return None

    cls = None          # cls(e, st, term): class of a value; variables of different classes are kept apart at merges

    def opaque(self, e, fn):
        return False

    # forks(e, st, cx, node, name, args): follow the outcomes of this external call separately
    forks = None
    # True: a ('read', place) event for every load of a field or through a reference
    reads = False


class Report:
    def __init__(self, rule, fn, line, msg, path, tag=None):
        self.rule = rule; self.fn = fn; self.line = line; self.msg = msg; self.path = path; self.tag = tag


def cfg_info(cfg):
    """reverse postorder, cyclic nodes and natural loops"""
    if getattr(cfg, "rpo", None) is not None:
        return
    n = len(cfg.nodes)
    succ = [[x for x in nd.s if x is not None] + ([h for (_, h) in nd.tr["h"]] if nd.tr else []) for nd in cfg.nodes]
    seen = [False] * n
    order = []
    st = [(0, iter(succ[0]))]
    seen[0] = True
    while st:
        v, it = st[-1]
        for w in it:
            if not seen[w]:
                seen[w] = True
                st.append((w, iter(succ[w])))
                break
        else:
            order.append(v)
            st.pop()
    order.reverse()
    rpo = {v: i for i, v in enumerate(order)}
    cfg.rpo = rpo
    preds = [[] for _ in range(n)]
    for v in range(n):
        if seen[v]:
            for w in succ[v]:
                preds[w].append(v)
    cfg.rpreds = preds
    # natural loops of loophead nodes
    loops = {}
    for h in range(n):
        if seen[h] and cfg.nodes[h].i[0] == "loophead":
            body = {h}
            work = [p for p in preds[h] if rpo[p] >= rpo[h]]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += preds[x]
            if len(body) > 1:
                loops[h] = body
    cfg.loopset = loops
    cyc = set()
    for b in loops.values():
        cyc |= b
    for v in range(n):   # goto-made cycles
        if seen[v] and any(rpo.get(w, 1 << 30) <= rpo[v] for w in succ[v]):
            if not any(v in b for b in loops.values()):
                cyc |= set(x for x in range(n) if seen[x])
    cfg.cyc = cyc
    cfg.headof = {}
    for h in sorted(loops, key=lambda h: -len(loops[h])):
        for v in loops[h]:
            cfg.headof[v] = h          # innermost (smallest processed last)
    # scalar variables modified in each loop, and those only ever incremented by one
    cfg.loopmod = {}
    for h, b in loops.items():
        mod = {}
        for v in b:
            i = cfg.nodes[v].i
            if i[0] == "itinc" and i[1][0] == "v":
                mod.setdefault(i[1][1], []).append("inc" if i[2] == "operator++" else "dec")
            elif i[0] == "store" and i[1][0] == "v":
                x = i[1][1]
                r = i[2]
                if r[0] == "op" and r[1] == "+" and r[2] == ("v", x) and r[3] == ("k", 1):
                    mod.setdefault(x, []).append("inc")
                else:
                    mod.setdefault(x, []).append("set")
            elif i[0] == "set":
                mod.setdefault(i[1], []).append("set")
        cfg.loopmod[h] = mod
    cfg.merge = set(v for v in range(n) if seen[v] and (len(preds[v]) > 1 or cfg.nodes[v].i[0] in ("loophead", "exit", "catch")))


def sameplace(v, site, cont):
    """the iterator (or reference, or element) v with its container's content renamed"""
    if v.k == "it":
        if v.a[0] != site and len(v.a) > 2 and all(site not in x.ids for x in v.a[2:]) and site in v.a[1].ids:
            return mk("it", v.a[0], cont, *v.a[2:])
    elif v.k in ("ref", "P.deref", "kvit", "ikey") and len(v.a) == 1:
        x = sameplace(v.a[0], site, cont)
        if x is not None:
            return mk(v.k, x)
    return None


class Flow:
    def __init__(self, prog, rule, limit=400000):
        self.p = prog
        self.rule = rule
        self.reports = {}
        self.ctxs = []
        self.ctxtab = {}
        self.steps = 0
        self.limit = limit
        self.fns_seen = set()
        self.stats = {"nodes": 0, "states": 0, "contexts": 0, "calls": 0}
        self.sing = {}
        for q in prog.classes:
            suf = q.split("::")[-1]
            if suf in SING_SUFFIX:
                canon = q
                if suf == "PageCacheEngine":
                    subs = [c for c, d in prog.classes.items() if q in d.get("bases", [])]
                    canon = subs[0] if len(subs) == 1 else q
                self.sing[q] = canon
        self.ftypes = prog.field_types()
        self.maxdepth = 14

    # ------------------------------------------------------------ contexts
    def ctx(self, parent, callnode, fn):
        key = (parent.id if parent else None, callnode, fn.id)
        c = self.ctxtab.get(key)
        if c:
            return c
        c = Ctx()
        c.id = len(self.ctxs)
        c.parent = parent
        c.fn = fn
        c.call = callnode
        c.cfg = lower(self.p, fn)
        cfg_info(c.cfg)
        c.chain = (parent.chain | {fn.id}) if parent else frozenset({fn.id})
        c.order = (parent.order + (parent.cfg.rpo.get(callnode, 0),)) if parent else ()
        c.inloop = bool(parent and (parent.inloop or callnode in parent.cfg.cyc))
        c.line = parent.cfg.nodes[callnode].l if parent else fn.line
        self.ctxs.append(c)
        self.ctxtab[key] = c
        self.fns_seen.add(fn.id)
        self.stats["contexts"] += 1
        return c

    def depth(self, cx):
        return len(cx.order)

    def callpath(self, cx, line):
        out = []
        c = cx
        l = line
        while c:
            out.append("%s (%s:%d)" % (c.fn.q, self.p.rel(c.fn.file), l))
            l = c.line
            c = c.parent
        return list(reversed(out))

    def report(self, cx, node, msg, st=None, tag=None):
        line = cx.cfg.nodes[node].l if node is not None else cx.fn.line
        key = (self.rule.name, cx.fn.q, line, msg)
        if key not in self.reports:
            br = []
            t = st.tr if st is not None else None
            while t and len(br) < 14:
                br.append("%s:%d %s" % t[0])
                t = t[1]
            self.reports[key] = Report(self.rule.name, cx.fn, line, msg,
                                       {"calls": self.callpath(cx, line), "branches": list(reversed(br))}, tag)

    # ------------------------------------------------------------ values
    def canon(self, t, ty):
        if ty and ty[0] == "*" and ty[1:] in self.sing and t is not NULL:
            return mk("obj", self.sing[ty[1:]])
        return t

    def look(self, st, cx, x):
        c = cx
        while c is not None:
            v = st.env.get((c.id, x))
            if v is not None:
                return c, v
            if not c.fn.lam:
                break
            c = c.parent
        return cx, None

    def place(self, st, cx, lv):
        k = lv[0]
        if k == "v":
            c, v = self.look(st, cx, lv[1])
            if v is not None and v.k == "ref":
                return v.a[0]
            return mk("P.var", c.id, lv[1])
        if k == "g":
            return mk("P.glob", lv[1])
        if k == "fld":
            b = self.ev(st, cx, lv[1])
            return self.pfld(st, b, lv[2])
        if k == "deref":
            if lv[1] == ("this",):
                return self.pderef(self.ev(st, cx, lv[1]))
            return self.pderef(self.ev(st, cx, lv[1]))
        if k == "idx":
            b, i = self.ev(st, cx, lv[1]), self.ev(st, cx, lv[2])
            return mk("P.idx", b, i)
        if k == "get":
            return self.pget(lv[1], self.place(st, cx, lv[2]))
        if k == "elt":
            pp = self.place(st, cx, lv[1])
            key = self.ev(st, cx, lv[2])
            return mk("P.elt", pp, key)
        if k == "rv":
            p = self.place_of_rv(st, cx, lv[1])
            if p is not None:
                return p
            return mk("P.val", self.ev(st, cx, lv[1]))
        if k == "lib":
            p = self.place_of_rv(st, cx, lv)
            if p is not None:
                return p
        return mk("P.val", self.ev(st, cx, lv))

    def place_of_rv(self, st, cx, rv):
        k = rv[0]
        if k in ("v", "g", "fld", "deref", "idx"):
            return self.place(st, cx, rv)
        if k == "lib":
            n = rv[1]
            if n.startswith("get") and n[3:].isdigit():
                p = self.place_of_rv(st, cx, rv[3])
                if p is None:
                    p = mk("P.val", self.ev(st, cx, rv[3]))
                return self.pget(int(n[3:]), p)
            if n == "at" and len(rv) > 4:
                p = self.place_of_rv(st, cx, rv[3])
                if p is not None:
                    return mk("P.elt", p, self.ev(st, cx, rv[4]))
            if n in ("back", "front"):
                p = self.place_of_rv(st, cx, rv[3])
                if p is not None:
                    return mk("P.elt", p, K("#" + n))
        return None

    def pfld(self, st, b, f):
        if b.k == "&v":
            return mk("P.val", self.proj(b.a[0], f))
        return mk("P.fld", b, f)

    def pderef(self, p):
        if p.k == "&":
            return p.a[0]
        if p.k == "&v":
            return mk("P.val", p.a[0])
        return mk("P.deref", p)

    def pget(self, i, pp):
        if pp.k == "P.deref":
            it = pp.a[0]
            if it.k == "find":
                if i == 0:
                    return mk("P.val", it.a[1])
                if it.a[2] is not None:
                    return mk("P.elt", it.a[2], it.a[1])
            if it.k == "it" and i == 1 and it.a[2] is not None:
                return mk("P.elt", it.a[2], mk("ikey", it))
        if pp.k == "P.val":
            return mk("P.val", GET(i, pp.a[0]))
        return mk("P.get", i, pp)

    def addr(self, P):
        if P.k == "P.deref":
            return P.a[0]
        if P.k == "P.glob":
            g = self.p.globals.get(P.a[0])
            if g and g["t"] in self.sing:
                return mk("obj", self.sing[g["t"]])
        if P.k == "P.val":
            return mk("&v", P.a[0])
        return mk("&", P)

    def proj(self, w, f):
        if w.k == "deagg":      # whole-object value read through a pointer
            return mk("ld", w.a[0], f, w.a[1])
        return mk("proj", w, f)

    def vof(self, st, f):
        v = st.ver.get(f)
        return v if v is not None else st.gver

    def read(self, st, P):
        k = P.k
        if k == "P.var":
            v = st.env.get((P.a[0], P.a[1]))
            if v is None:
                return mk("undef", (P.a[0], -1), P.a[1])
            if v.k == "ref":
                return self.read(st, v.a[0])
            return v
        if k == "P.val":
            return P.a[0]
        v = st.mem.get(P)
        if v is not None:
            return v
        if k == "P.fld":
            b, f = P.a
            if b.k == "&":
                # whole value of the enclosing aggregate
                return self.canonf(self.proj(self.read(st, b.a[0]), f), f)
            return self.canonf(mk("ld", b, f, self.vof(st, f)), f)
        if k == "P.get":
            return GET(P.a[0], self.read(st, P.a[1]))
        if k == "P.elt":
            c = self.read(st, P.a[0])
            if isk(P.a[1]) and P.a[1].a[0] in ("#back", "#front"):
                if c.k == "il" and c.a:
                    return c.a[-1] if P.a[1].a[0] == "#back" else c.a[0]
                return mk("lib", P.a[1].a[0][1:], c)
            return AT(c, P.a[1])
        if k == "P.deref":
            return self.deref(st, P.a[0])
        if k == "P.glob":
            g = self.p.globals.get(P.a[0])
            if g and g["t"][:1] == "*":
                return self.canon(mk("gl", P.a[0], self.vof(st, P.a[0])), g["t"])
            return mk("gl", P.a[0], self.vof(st, P.a[0]))
        if k == "P.idx":
            return AT(P.a[0], P.a[1]) if P.a[0].k == "il" else mk("ld", P.a[0], ("idx", P.a[1]), self.vof(st, "[]")) if False else mk("at", P.a[0], P.a[1])
        return mk("opq", (0, 0), str(P))

    def canonf(self, t, f):
        ft = self.ftypes.get(f)
        if ft:
            return self.canon(t, ft["t"])
        return t

    def deref(self, st, p):
        if p.k == "find":
            return mk("kv", p.a[0], p.a[1])
        if p.k == "it":
            if len(p.a) > 3 and p.a[3] is not None:
                return p.a[1].a[p.a[3]]
            return mk("kvit", p)
        if p.k == "begin":
            c = p.a[0]
            if c.k == "il" and c.a:
                return c.a[0]
            return mk("kv", c, mk("firstkey", c))
        if p.k in ("itnext", "end"):
            return mk("kvit", p)
        if p.k == "&":
            return self.read(st, p.a[0])
        if p.k == "&v":
            return p.a[0]
        return mk("ld", p, "*", self.vof(st, "*"))

    # ------------------------------------------------------------ evaluation
    def ev(self, st, cx, rv):
        k = rv[0]
        if k == "k":
            return K(rv[1])
        if k == "v":
            c, v = self.look(st, cx, rv[1])
            if v is None:
                return mk("undef", (cx.id, -1), rv[1])
            if v.k == "ref":
                if self.rule.reads:
                    self.emit(st, self.where[0], self.where[1], ("read", v.a[0]))
                v = self.read(st, v.a[0])
            return self.canon(v, c.cfg.vtypes.get(rv[1]))
        if k == "this":
            c = cx
            while c is not None:
                v = st.env.get((c.id, "%this"))
                if v is not None:
                    return v
                if not c.fn.lam:
                    break
                c = c.parent
            return mk("this", cx.fn.cls or "")
        if k in ("g", "fld", "deref", "idx"):
            P = self.place(st, cx, rv)
            if self.rule.reads:
                self.emit(st, self.where[0], self.where[1], ("read", P))
            return self.read(st, P)
        if k == "addr":
            P = self.place(st, cx, rv[1])
            return self.addr(P)
        if k == "addrval":
            v = self.ev(st, cx, rv[1])
            if v.k in ("&", "&v"):
                return v
            return mk("&v", v)
        if k == "aggld":
            P = self.place(st, cx, rv[1])
            return self.addr(P)
        if k == "op":
            return self.op(st, cx, rv)
        if k == "lib":
            return self.lib(st, cx, rv)
        if k in ("tup", "il"):
            return mk(k, *[self.ev(st, cx, x) for x in rv[1:]])
        if k == "copy":
            return self.ev(st, cx, rv[1])
        if k == "lam":
            return mk("lam", rv[1], cx.id)
        if k == "fn":
            return mk("fnref", rv[1], rv[2])
        if k == "errno":
            return mk("errno", st.ver.get("errno", ZERO))
        if k == "undef":
            return mk("undef", (cx.id, -2), rv[1])
        if k == "arr":
            return mk("&", mk("P.var", cx.id, "[]" + rv[1]))
        if k == "lockobj":
            return mk("lockobj", cx.id, rv[1])
        if k == "more":
            c = self.ev(st, cx, rv[1])
            return mk("more", (cx.id, rv[2]), c, self.place_of_rv(st, cx, rv[1]))
        if k == "iter":
            c = self.ev(st, cx, rv[1])
            P = self.place_of_rv(st, cx, rv[1])
            ix = st.lastit.get((cx.id, rv[2]))
            u = ix[2] if ix and len(ix) > 2 else None
            if u is not None and c.k == "il" and u < len(c.a):
                return mk("it", (cx.id, rv[2]), c, P, u)
            return mk("it", (cx.id, rv[2]), c, P)
        if k == "lvarg":
            return self.read(st, self.place(st, cx, rv[1]))
        if k == "aggarg":
            return self.ev(st, cx, rv[1])
        if k == "opq":
            return mk("opq", (cx.id, -3), rv[1:2] and rv[1], rv[2] if len(rv) > 2 and not isinstance(rv[2], tuple) else 0)
        raise AnalysisBroken("unknown rvalue %r" % (rv,))

    def op(self, st, cx, rv):
        n = rv[1]
        a = [self.ev(st, cx, x) for x in rv[2:4]] if n not in ("ite",) else [self.ev(st, cx, x) for x in rv[2:5]]
        if n == "==":
            return EQ(a[0], a[1])
        if n == "!=":
            return NOT(EQ(a[0], a[1]))
        if n == "<":
            return LT(a[0], a[1])
        if n == ">":
            return LT(a[1], a[0])
        if n == "<=":
            return NOT(LT(a[1], a[0]))
        if n == ">=":
            return NOT(LT(a[0], a[1]))
        if n == "!":
            return NOT(truthy(a[0]))
        if n == "&&":
            return AND(truthy(a[0]), truthy(a[1]))
        if n == "||":
            return OR(truthy(a[0]), truthy(a[1]))
        if n == "ite":
            return ITE(truthy(a[0]), a[1], a[2])
        if n == "neg":
            return pmul(K(-1), a[0])
        if any(isk(x) and isinstance(x.a[0], (float, str)) for x in a):
            return mk("op", n, *a)
        if n == "+":
            return padd(a[0], a[1])
        if n == "-":
            return padd(a[0], a[1], -1)
        if n == "*":
            return pmul(a[0], a[1])
        if n == "cast":
            return mk("op", "cast", a[0], a[1])
        if n == "dyncast":
            return mk("dyn", a[0], a[1].a[0])
        if len(a) == 2 and isnum(a[0]) and isnum(a[1]):
            x, y = int(a[0].a[0]), int(a[1].a[0])
            try:
                if n == "/" and y:
                    return K(int(x / y))
                if n == "%" and y:
                    return K(x - y * int(x / y))
                if n == "&":
                    return K(x & y)
                if n == "|":
                    return K(x | y)
                if n == "<<":
                    return K(x << y)
                if n == ">>":
                    return K(x >> y)
                if n == "^":
                    return K(x ^ y)
            except Exception:
                pass
        if n == "un~" and isnum(a[0]):
            return K(~int(a[0].a[0]))
        return mk("op", n, *a)

    def lib(self, st, cx, rv):
        n = rv[1]
        if (n.startswith("get") and n[3:].isdigit()) or n in ("at", "back", "front"):
            P = self.place_of_rv(st, cx, rv)
            if P is not None:
                return self.read(st, P)
        a = [self.ev(st, cx, x) for x in rv[3:]]
        if n.startswith("get") and n[3:].isdigit():
            return GET(int(n[3:]), a[0])
        if n == "at" and len(a) > 1:
            return AT(a[0], a[1])
        if n in ("back", "front") and a and a[0].k == "il" and a[0].a:
            return a[0].a[-1 if n == "back" else 0]
        if n in ("c_str", "str", "move", "forward", "data", "as_const") and len(a) == 1:
            return a[0]
        if n in ("begin", "cbegin"):
            return mk("begin", a[0], self.place_of_rv(st, cx, rv[3]))
        if n in ("end", "cend"):
            return mk("end", a[0], None)
        if n == "find" and len(a) == 2 and rv[2] != "std::basic_string":
            return mk("find", a[0], a[1], self.place_of_rv(st, cx, rv[3]))
        if n == "find" and len(a) == 3 and a[0].k == "begin" and a[1].k == "end" and root(a[0].a[0]) == root(a[1].a[0]):
            return mk("find", a[0].a[0], a[2], a[0].a[1])
        if n in ("size", "length"):
            if rv[2] == "std::basic_string":
                return mk("size", mk("strsize", a[0])) if a[0].k != "k" else SIZE(a[0])
            return SIZE(a[0])
        if n == "empty":
            if rv[2] == "std::basic_string":
                return EQ(a[0], K(""))
            return EMP(a[0])
        if n == "count" and len(a) == 2:
            return mk("count", a[0], a[1])
        if n == "contains" and len(a) == 2:
            return HAS(a[0], a[1])
        if n == "compare" and len(a) == 2:
            return mk("strcmp", a[0], a[1])
        if n in ("op==", "op!=") and len(a) == 2:
            return EQ(a[0], a[1]) if n == "op==" else NOT(EQ(a[0], a[1]))
        if n == "max" and len(a) == 2:
            return mk("max", *sorted(a, key=lambda t: t.n))
        if n == "min" and len(a) == 2:
            return mk("min", *sorted(a, key=lambda t: t.n))
        if n == "next":
            return mk("itnext", a[0]) if a[0].k in ITERK else mk("lib", n, *a)
        if n == "has_value" or n == "opbool" or n == "op bool":
            return NOT(EQ(a[0], mk("nullopt"))) if a and a[0].k != "nullopt" else FALSE
        if n == "owns_lock" and a and a[0].k == "lockobj":
            return st.mem.get(mk("P.own", a[0]), FALSE)
        if n == "abs" and len(a) == 1:
            return mk("lib", "abs", a[0])
        return mk("lib", n, *a)

    # ------------------------------------------------------------ facts
    def bounds(self, st, q):
        lo, hi = None, None
        ne = set()
        if q.k in ("size", "count"):
            lo = 0
        elif q.k == "errno":
            lo = 1
        elif q.k in ("max", "min"):
            for x in q.a:
                if isnum(x):
                    if q.k == "max":
                        lo = int(x.a[0])
                    else:
                        hi = int(x.a[0])
        for a, v in st.facts.items():
            if a.k == "lt0" and a.a[0] is q and isnum(a.a[1]):
                c = a.a[1].a[0]
                if v:
                    hi = c - 1 if hi is None else min(hi, c - 1)
                else:
                    lo = c if lo is None else max(lo, c)
            elif a.k == "eq" and a.a[0] is q and isnum(a.a[1]):
                c = int(a.a[1].a[0])
                if v:
                    lo = c if lo is None else max(lo, c)
                    hi = c if hi is None else min(hi, c)
                else:
                    ne.add(c)
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        return lo, hi, ne

    def lift_ite(self, st, t):
        """decide a comparison over a conditional value by its two cases"""
        if t.sz > 60:
            return None
        x = None
        for a in t.a:
            for y in ([m for mm in poly_of(a) for m in mm] if a.k == "poly" else [a]):
                if y.k == "ite":
                    x = y
                    break
            if x is not None:
                break
        if x is None:
            return None
        c = self.entail(st, x.a[0])
        if c is not None:
            return self.entail(st, subst(t, {x: x.a[1] if c else x.a[2]}))
        p, q = self.entail(st, subst(t, {x: x.a[1]})), self.entail(st, subst(t, {x: x.a[2]}))
        return p if p is not None and p is q else None

    def entail(self, st, t):
        """True / False / None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        v = st.facts.get(t)
        if v is not None:
            return v
        k = t.k
        if k == "not":
            r = self.entail(st, t.a[0])
            return None if r is None else not r
        if k == "and":
            x, y = self.entail(st, t.a[0]), self.entail(st, t.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if k == "ite":
            c = self.entail(st, t.a[0])
            if c is True:
                return self.entail(st, truthy(t.a[1]))
            if c is False:
                return self.entail(st, truthy(t.a[2]))
            x, y = self.entail(st, truthy(t.a[1])), self.entail(st, truthy(t.a[2]))
            return x if x is not None and x == y else None
        if k == "lt0" and isnum(t.a[1]):
            lo, hi, ne = self.bounds(st, t.a[0])
            c = t.a[1].a[0]
            if hi is not None and hi < c:
                return True
            if lo is not None and lo >= c:
                return False
            # -q as the other orientation is canonicalised away; nothing more
            return self.lift_ite(st, t)
        if k == "eq":
            a, b = t.a
            # a failed transfer (-1) never equals a byte count
            if a.k == "poly" or not isk(b):
                ms = [m[0] for m in poly_of(a) if len(m) == 1] if a.k == "poly" else []
                xs = ms + [b] if not isk(b) else ms
                if a.k != "poly":
                    xs.append(a)
                if len(xs) > 1:
                    for x in xs:
                        if x.k == "ext" and x.a[1] in TRANSFER and st.facts.get(LT(x, ZERO)):
                            return False
            if isk(b):
                if isnum(b):
                    c = int(b.a[0])
                    lo, hi, ne = self.bounds(st, a)
                    if lo is not None and lo == hi:
                        return lo == c
                    if c in ne or (lo is not None and c < lo) or (hi is not None and c > hi):
                        return False
                    if c == 0 and st.facts.get(mk("eq", a, NULL)) is not None:
                        return st.facts[mk("eq", a, NULL)]
                else:
                    if b is NULL:
                        z = st.facts.get(mk("eq", a, ZERO))
                        if z is not None:
                            return z
                    for f, v in st.facts.items():
                        if v and f.k == "eq" and f.a[0] is a and isk(f.a[1]) and f.a[1] is not b:
                            return False
            if a.k == "dyn" and b is NULL:
                if self.entail(st, EQ(a.a[0], NULL)):
                    return True
            # x known equal to different constants
            if not isk(b):
                ka, kb = self.constof(st, a), self.constof(st, b)
                if ka is not None and kb is not None:
                    return ka is kb
            return self.lift_ite(st, t)
        if k == "has":
            if st.facts.get(mk("empty", t.a[0])):
                return False
            return None
        if k == "empty":
            for f, v in st.facts.items():
                if v and f.k == "has" and f.a[0] is t.a[0]:
                    return False
            lo, hi, ne = self.bounds(st, mk("size", t.a[0]))
            if lo and lo > 0:
                return False
            return None
        if k == "more":
            if self.entail(st, EMP(t.a[1])):
                return False
            return None
        return None

    def constof(self, st, t):
        if isk(t):
            return t
        for f, v in st.facts.items():
            if v and f.k == "eq" and f.a[0] is t and isk(f.a[1]):
                return f.a[1]
        return None

    def distinct(self, st, a, b):
        if a is b:
            return False
        if isk(a) and isk(b):
            return True
        return self.entail(st, EQ(a, b)) is False

    def assume(self, st, t, val):
        """states in which the boolean t has value val (the given state may be consumed)"""
        if t.k == "not":
            return self.assume(st, t.a[0], not val)
        e = self.entail(st, t)
        if e is not None:
            return [st] if e == val else []
        if t.k == "and":
            if val:
                out = []
                for s in self.assume(st, t.a[0], True):
                    out += self.assume(s, t.a[1], True)
                return out
            s2 = st.copy()
            out = self.assume(st, t.a[0], False)
            for s in self.assume(s2, t.a[0], True):
                out += self.assume(s, t.a[1], False)
            return out
        if t.k == "ite":
            s2 = st.copy()
            out = []
            for s in self.assume(st, t.a[0], True):
                out += self.assume(s, truthy(t.a[1]), val)
            for s in self.assume(s2, t.a[0], False):
                out += self.assume(s, truthy(t.a[2]), val)
            return out
        if not is_bool(t):
            return self.assume(st, truthy(t), val)
        st.facts[t] = val
        # x == a constant makes the terms built on it decidable; propagate into the environment
        if t.k == "eq" and val and isk(t.a[1]) and not isk(t.a[0]):
            pass
        if t.k == "more" and val:
            st.facts[EMP(t.a[1])] = False if EMP(t.a[1]).k == "empty" else st.facts.get(EMP(t.a[1]), False)
            st.facts.pop(TRUE, None); st.facts.pop(FALSE, None)
        return [st]

    # ------------------------------------------------------------ creation / staleness
    def fresh(self, st, cx, node, k, *a):
        site = (cx.id, node)
        t = mk(k, site, *a)
        if cx.inloop or node in cx.cfg.cyc:
            self.retire(st, site, cx)
        return t

    def retire(self, st, site, cx=None):
        """the program point is executed again: values of its previous execution lose their name"""
        hit = False
        for kx, v in st.env.items():
            if site in v.ids:
                hit = True
                moved = sameplace(v, site, mk("stale", (kx[0], -5), kx[1] + ".c", site[1]))
                if moved is not None:
                    # a position in a container whose content lost its name
                    st.env[kx] = moved
                    continue
                n = mk("stale", (kx[0], -5), kx[1], site[1])
                keep = []
                if v.k in ("poly", "ext", "errno", "phi", "ite", "new", "ld", "stale"):
                    # what is known about the sign or nullness of the value stays known under its new name
                    for mkf in (lambda t: LT(t, ZERO), lambda t: EQ(t, NULL)):
                        r = self.entail(st, mkf(v))
                        if r is not None:
                            keep.append((mkf(n), r))
                for f in [f for f in st.facts if n in subterms1(f)]:
                    del st.facts[f]
                for f, r in keep:
                    if not isk(f):
                        st.facts[f] = r
                if self.rule.cls is not None:
                    c = self.klass(st, v if v.k != "ref" else self.read(st, v.a[0]))
                    if n in st.pc or c is not None:
                        st.pc = {t: x for t, x in st.pc.items() if t is not n}
                        if c is not None:
                            st.pc[n] = c
                st.env[kx] = n if v.k != "ref" else mk("ref", mk("P.val", n))
        if any(site in t.ids for t in st.pc):
            st.pc = {t: x for t, x in st.pc.items() if site not in t.ids}
        dead = [P for P, v in st.mem.items() if site in P.ids or site in v.ids]
        for P in dead:
            v = st.mem[P]
            del st.mem[P]
            if P.k == "P.fld" and site not in P.ids:
                st.mem[P] = mk("stale", (-1, P.n), P.a[1], 0)
        for f in [f for f in st.facts if site in f.ids]:
            del st.facts[f]
        for f, v in list(st.ver.items()):
            if site in v.ids:
                st.ver[f] = mk("ver", (-2, st.ver[f].n), 0) if False else mk("stale", (-3, 0), f, site[1])
        if site in st.gver.ids:
            st.gver = mk("stale", (-3, 1), site[1])
        if hasaterm(st.auto, site):
            st.auto = rename_auto(st.auto, site)
        if any(hasaterm(l, site) for l in st.locks):
            st.locks = frozenset(rename_auto(l, site) for l in st.locks)

    # ------------------------------------------------------------ stores
    def kill_children(self, st, P):
        """drop what is recorded inside the object stored at P"""
        base = mk("&", P) if P.k != "P.deref" else P.a[0]
        for q in [q for q in st.mem if q is not P and inside(q, P, base)]:
            del st.mem[q]

    def write(self, st, cx, node, P, val, quiet=False):
        k = P.k
        if k == "P.var":
            key = (P.a[0], P.a[1])
            cur = st.env.get(key)
            if cur is not None and cur.k == "ref":
                return self.write(st, cx, node, cur.a[0], val, quiet)
            st.env[key] = val
            self.kill_children(st, P)
            return
        if k == "P.val":
            if not quiet:
                self.emit(st, cx, node, ("store", P, val, P.a[0]))
            return
        old = self.read(st, P)
        if k == "P.fld":
            b, f = P.a
            for q in [q for q in st.mem if q.k == "P.fld" and q.a[1] == f and q.a[0] is not b and self.mayalias(q.a[0], b)]:
                del st.mem[q]
            st.ver[f] = self.fresh(st, cx, node, "ver", f)
            self.kill_children(st, P)
            st.mem[P] = val
        elif k == "P.glob":
            st.mem[P] = val
            self.kill_children(st, P)
        elif k == "P.elt":
            pp, key = P.a
            r = pp
            for q in [q for q in st.mem if q.k == "P.elt" and q is not P and not self.distinct(st, q.a[1], key) and placeroot(q) == placeroot(P)]:
                del st.mem[q]
            self.kill_children(st, P)
            c = self.read(st, pp)
            # storing an element: the container now has the key
            if not (isk(key) and isinstance(key.a[0], str) and key.a[0].startswith("#")):
                h = self.entail(st, HAS(c, key))
                if h is not True:
                    self.mutate(st, cx, node, pp, c, "op[]=", [key, val], None)
            st.mem[P] = val
        elif k == "P.get":
            st.mem[P] = val
        elif k == "P.deref":
            p = P.a[0]
            st.ver["*"] = self.fresh(st, cx, node, "ver", "*")
            for q in [q for q in st.mem if q.k == "P.deref" and q is not P]:
                del st.mem[q]
            st.mem[P] = val
        elif k == "P.idx":
            for q in [q for q in st.mem if q.k == "P.idx" and q.a[0] is P.a[0]]:
                del st.mem[q]
            st.mem[P] = val
        if not quiet:
            self.emit(st, cx, node, ("store", P, val, old))

    def mayalias(self, a, b):
        if a is b:
            return True
        if a.k == "obj" and b.k == "obj":
            return False
        if a.k == "&" and b.k == "&":
            return False if rootvar(a.a[0]) != rootvar(b.a[0]) else True
        for x, y in ((a, b), (b, a)):
            if x.k == "&" and rootvar(x.a[0]) is not None and y.k in ("obj", "new", "param", "ld", "at", "get", "ext"):
                return False
            if x.k == "new" and y.k in ("obj", "new", "param"):
                return False
        return True

    def mutate(self, st, cx, node, P, old, meth, args, dst):
        """container mutation: new value term plus membership facts"""
        new = None
        if old.k == "il" and meth in ("push_back", "emplace_back", "push", "insert", "emplace", "insert_or_assign", "op[]=", "add") and len(old.a) < 12:
            if meth in ("push_back", "emplace_back", "push", "add") and args:
                new = mk("il", *(old.a + (args[0],)))
            elif meth in ("insert", "emplace") and len(args) == 1:
                new = mk("il", *(old.a + (args[0],)))
            elif meth in ("op[]=", "insert_or_assign", "emplace") and len(args) == 2:
                new = mk("il", *(tuple(x for x in old.a if not (x.k == "tup" and x.a and x.a[0] is args[0])) + (mk("tup", args[0], args[1]),)))
            if new is not None and (cx.inloop or node in cx.cfg.cyc):
                new = None      # a growing list in a loop has no fixed shape
        if meth == "clear":
            new = mk("il")
        facts = {}
        if new is None:
            rt = old
            while rt.k == "mv":
                rt = rt.a[1]
            tr = [(f, v) for f, v in st.facts.items() if f.k in ("has", "empty") and f.a[0] is old]
            newt = mk("mv", (cx.id, node), rt)
            keyed = None
            if meth in ("push_back", "emplace_back", "push_front", "insert", "emplace", "push", "insert_or_assign", "try_emplace", "op[]=", "add", "emplace_front"):
                if meth in ("op[]=", "insert_or_assign", "try_emplace"):
                    keyed = args[0] if args else None
                elif args:
                    x = args[-1] if meth in ("insert",) and len(args) <= 2 else args[0]
                    if meth == "insert" and len(args) >= 2 and args[0].k in ITERK:
                        keyed = None
                    else:
                        keyed = x
                facts["t"] = [(f.a[1], True) for f, v in tr if f.k == "has" and v]
                facts["f"] = [f.a[1] for f, v in tr if f.k == "has" and not v and keyed is not None and self.distinct(st, f.a[1], keyed)]
                facts["ne"] = True
            elif meth in ("erase", "remove", "extract", "pop_back", "pop_front", "pop"):
                x = args[0] if args else None
                key = None
                if x is not None:
                    if x.k == "find":
                        key = x.a[1]
                    elif x.k == "it":
                        key = mk("ikey", x)
                    elif x.k in ("begin", "end", "itnext"):
                        key = None
                    elif x.k == "lib" and x.a and x.a[0] == "stdremove":
                        key = x.a[2]
                    else:
                        key = x
                facts["t"] = [(f.a[1], True) for f, v in tr if f.k == "has" and v and key is not None and self.distinct(st, f.a[1], key)]
                facts["f"] = [f.a[1] for f, v in tr if f.k == "has" and not v]
                if key is not None:
                    facts["f"].append(key)
                facts["e"] = any(f.k == "empty" and v for f, v in tr)
            else:
                facts["t"] = []
                facts["f"] = []
            new = self.fresh(st, cx, node, "mv", rt)
            for kk, _ in facts.get("t", ()):
                if (cx.id, node) not in kk.ids:
                    st.facts[HAS(new, kk)] = True
            for kk in facts.get("f", ()):
                if (cx.id, node) not in kk.ids:
                    st.facts[HAS(new, kk)] = False
            if facts.get("ne"):
                st.facts[EMP(new)] = False
                if keyed is not None:
                    kk = keyed.a[0] if keyed.k in ("tup", "il") and keyed.a else keyed
                    st.facts[HAS(new, kk)] = True
                    if keyed.k in ("tup",):
                        st.facts[HAS(new, keyed)] = True
            if facts.get("e"):
                st.facts[EMP(new)] = True
            if meth in ("erase", "clear"):
                for q in [q for q in st.mem if q.k == "P.elt" and q.a[0] is P]:
                    if not (args and self.distinct(st, q.a[1], args[0])):
                        del st.mem[q]
        else:
            for q in [q for q in st.mem if q.k == "P.elt" and q.a[0] is P]:
                del st.mem[q]
        # place now holds the new value; contents of other elements stay
        if P.k == "P.var":
            key = (P.a[0], P.a[1])
            cur = st.env.get(key)
            if cur is not None and cur.k == "ref":
                P = cur.a[0]
        if P.k == "P.var":
            st.env[(P.a[0], P.a[1])] = new
        elif P.k == "P.val":
            pass
        elif P.k == "P.fld":
            b, f = P.a
            st.ver[f] = mk("ver", (cx.id, node), f)
            for q in [q for q in st.mem if q.k == "P.fld" and q.a[1] == f and q.a[0] is not b and self.mayalias(q.a[0], b)]:
                del st.mem[q]
            st.mem[P] = new
        elif P.k == "P.elt":
            for q in [q for q in st.mem if q.k == "P.elt" and q is not P and placeroot(q) == placeroot(P) and not self.distinct(st, q.a[1], P.a[1])]:
                del st.mem[q]
            st.mem[P] = new
        else:
            st.mem[P] = new
        self.emit(st, cx, node, ("mut", P, meth, tuple(args), old, new))
        return new

    # ------------------------------------------------------------ events
    def emit(self, st, cx, node, ev):
        if st.loops and ev[0] in ("mut", "store", "ext", "lock", "unlock", "delete", "setelem"):
            if st.cur:
                c = dict(st.cur)
                for k in c:
                    c[k] = c[k] | {ev}
                st.cur = c
        if not st.dead:
            self.rule.on(self, st, cx, node, ev)

    # ------------------------------------------------------------ locks
    def mutex_tables(self):
        v = getattr(self.p, "_mutex_tables", None)
        if v is None:
            v = self.p._mutex_tables = [x["f"] for c in self.p.classes.values() for x in c["fields"] if "mutex *" in x.get("ft", "") and "<" in x["ft"]]
        return v

    def lockid(self, st, P):
        """identity of a mutex: the field or global, plus the key for a table of mutexes"""
        if P.k == "P.fld":
            return (P.a[1], None)
        if P.k == "P.glob":
            return (P.a[0], None)
        if P.k == "P.var":
            return ("local:" + str(P.a[1]), None)
        if P.k == "P.deref":
            p = P.a[0]
            if p.k == "at":
                r = root(p.a[0])
                if isinstance(r, tuple) and r[0] == "fld":
                    return (r[2] + "[]", p.a[1])
            if p.k == "new":
                return ("new:" + str(p.a[0]), None)
            # a mutex found through a pointer lives in the only table of mutexes of the program
            tabs = self.mutex_tables()
            if len(tabs) == 1:
                return (tabs[0] + "[]", p.a[1] if p.k == "at" else None)
            if p.k == "ld":
                return (str(p.a[1]) + "*", None)
            return ("ptr:" + p.k, p)
        if P.k == "P.elt":
            return (str(placeroot(P)), P.a[1])
        return ("?" + P.k, None)

    def acquire(self, st, cx, node, lid, mode, how="lock"):
        self.emit(st, cx, node, ("lock", lid, mode, how))
        for l in st.locks:
            if l[0] == lid and l[1] == mode:
                st.locks = (st.locks - {l}) | {(lid, mode, l[2] + 1)}
                return
        st.locks = st.locks | {(lid, mode, 1)}

    def release(self, st, cx, node, lid, mode):
        self.emit(st, cx, node, ("unlock", lid, mode))
        for l in st.locks:
            if l[0] == lid and l[1] == mode:
                st.locks = st.locks - {l}
                if l[2] > 1:
                    st.locks = st.locks | {(lid, mode, l[2] - 1)}
                return True
        # same table, key not provably identical
        for l in st.locks:
            if l[0][0] == lid[0] and l[1] == mode and lid[0].endswith("[]"):
                st.locks = st.locks - {l}
                return True
        self.emit(st, cx, node, ("badunlock", lid, mode))
        return False

    # ------------------------------------------------------------ driver
    def run(self, fn, this=None, args=None, setup=None):
        cx = self.ctx(None, None, fn)
        st = S()
        st.env = {}; st.mem = {}; st.ver = {}; st.gver = ZERO; st.facts = {}; st.locks = frozenset()
        st.auto = self.rule.init; st.loops = (); st.cur = {}; st.must = {}; st.lastit = {}; st.tr = None; st.dead = False; st.pc = {}
        if this is None and fn.cls and not fn.static:
            this = mk("obj", self.sing[fn.cls]) if fn.cls in self.sing else mk("this", fn.cls)
        if this is not None:
            st.env[(cx.id, "%this")] = this
        for n, (v, m, t, name) in enumerate(cx.cfg.params):
            if args and n in args:
                val = args[n]
            else:
                val = self.canon(mk("param", n, name), t)
            st.env[(cx.id, v)] = val
        if setup:
            setup(self, st, cx)
        self.root = cx
        self.contrib = {}
        self.stored = {}
        self.visits = {}
        self.dsts = {}
        self.heap = []
        self.inq = set()
        self.push_states("root", [((cx, 0), st)])
        while self.heap:
            _, cid, node, key = heapq.heappop(self.heap)
            self.inq.discard((cid, node, key))
            cur = self.stored.get((cid, node), {}).get(key)
            if cur is None:
                continue
            c = self.ctxs[cid]
            outs = self.chain(c, node, cur.copy())
            self.push_states((cid, node, key), outs)
            self.steps += 1
            if self.steps > self.limit:
                raise AnalysisBroken("fixpoint limit reached in %s for rule %s" % (fn.q, self.rule.name))
        self.stats["nodes"] += len(self.stored)
        self.stats["states"] += sum(len(v) for v in self.stored.values())
        return self

    def klass(self, st, v):
        """class of a value under the rule's classification, also through merges"""
        if v.k == "phi" or v.k == "stale":
            return st.pc.get(v)
        return self.rule.cls(self, st, v)

    def classes(self, cid, node, st):
        cx = self.ctxs[cid]
        live = cx.cfg.live[node]
        out = []
        for k, v in st.env.items():
            if k[0] == cid and not (k[1] in live or k[1] in cx.cfg.pinned or k[1] == "%ret"):
                continue
            c = self.klass(st, v)
            if c is not None:
                out.append((str(k), c))
        return tuple(sorted(out, key=str))

    def key(self, st):
        return (st.auto, st.locks, tuple((l[0], l[1]) for l in st.loops),
                tuple(sorted((k, v[2]) for k, v in st.lastit.items() if len(v) > 2 and v[2] is not None)),
                self.rule.key(self, st))

    def push_states(self, src, outs):
        grouped = {}
        for ((c, n), st) in outs:
            key = self.key(st)
            if self.rule.cls is not None:
                key += (self.classes(c.id, n, st),)
            grouped.setdefault((c.id, n), []).append((key, st))
        olds = self.dsts.get(src, ())
        touched = set(grouped) | set(olds)
        self.dsts[src] = tuple(grouped)
        for d in touched:
            con = self.contrib.setdefault(d, {})
            old = con.get(src, [])
            new = grouped.get(d, [])
            if new:
                con[src] = new
            else:
                con.pop(src, None)
            keys = set(k for k, _ in old) | set(k for k, _ in new)
            for key in keys:
                self.remerge(d, key)

    def remerge(self, d, key):
        sts = [s for lst in self.contrib[d].values() for (k, s) in lst if k == key]
        tab = self.stored.setdefault(d, {})
        if not sts:
            # keep the state: it over-approximates, and dropping it could make the iteration oscillate
            return
        old = tab.get(key)
        vis = self.visits.get((d, key), 0)
        cx = self.ctxs[d[0]]
        m = self.merge(cx, d[1], sts, old if vis >= 3 else None)
        if old is not None and same(old, m):
            return
        tab[key] = m
        if len(tab) > 400:
            raise AnalysisBroken("too many disjuncts at %s:%d for rule %s" % (cx.fn.q, cx.cfg.nodes[d[1]].l, self.rule.name))
        self.visits[(d, key)] = vis + 1
        if vis > 60:
            raise AnalysisBroken("no convergence at %s:%d for rule %s" % (cx.fn.q, cx.cfg.nodes[d[1]].l, self.rule.name))
        it = (d[0], d[1], key)
        if it not in self.inq:
            self.inq.add(it)
            # the key of the heap must be orderable: context order, then position
            heapq.heappush(self.heap, HeapItem(cx.order + (cx.cfg.rpo.get(d[1], 1 << 20),), d[0], d[1], key))

    def merge(self, cx, node, sts, widen):
        cfg = cx.cfg
        site = (cx.id, node)
        head = cfg.nodes[node].i[0] == "loophead"
        live = cfg.live[node]
        pinned = cfg.pinned
        r = S()
        r.tr = sts[0].tr
        r.dead = False
        r.auto = sts[0].auto
        r.locks = sts[0].locks
        r.loops = sts[0].loops
        # loop must-sets
        def inter(name):
            out = {}
            ks = set()
            for s in sts:
                ks |= set(getattr(s, name))
            for k in ks:
                v = None
                for s in sts:
                    x = getattr(s, name).get(k)
                    if x is None:
                        if name == "cur":
                            v = frozenset() if v is None else v & frozenset()
                        continue
                    v = x if v is None else v & x
                out[k] = v
            return out
        r.cur = inter("cur")
        r.must = inter("must")
        lit = {}
        for s in sts:
            for k, v in s.lastit.items():
                if k in lit and lit[k] != v:
                    v = (v[0] if lit[k][0] is v[0] else None, v[1] if lit[k][1] is v[1] else None) + ((v[2],) if len(v) > 2 else ())
                lit[k] = v
        r.lastit = lit
        if len(sts) == 1 and not head and widen is None:
            s = sts[0]
            c = s.copy()
            c.env = {k: v for k, v in s.env.items() if k[0] != cx.id or k[1] in live or k[1] in pinned or k[1][0] == "%" and k[1] in ("%this", "%ret") or node == cfg.exit and k[1] == "%ret"}
            c.cur = r.cur; c.must = r.must; c.lastit = r.lastit
            return c
        # environment
        env = {}
        subs = [dict() for _ in sts]       # value -> phi, per contributor
        phis = {}                          # phi -> [value per contributor]
        keys = set(sts[0].env)
        for s in sts[1:]:
            keys &= set(s.env)
        mod = cfg.loopmod.get(node, {}) if head else {}
        for k in keys:
            if k[0] == cx.id and not (k[1] in live or k[1] in pinned or k[1] in ("%this", "%ret")):
                continue
            vals = [s.env[k] for s in sts]
            v0 = vals[0]
            if head and k[0] == cx.id and k[1] in mod:
                kinds = set(mod[k[1]])
                if kinds == {"inc"}:
                    b = None
                    for v in vals:
                        if v.k == "begin":
                            b = mk("it", site, v.a[0], v.a[1])
                        elif v is ZERO:
                            b = mk("ix", site, k[1])
                        elif v.k == "itnext" and v.a[0].k == "it" and v.a[0].a[0] == site:
                            # only states from the end of an iteration meet here
                            b = v.a[0]
                        elif v.k == "poly" and v is padd(mk("ix", site, k[1]), K(1)):
                            b = mk("ix", site, k[1])
                    if b is not None:
                        if b.k == "it":
                            cs = [itercont(v) for v in vals]
                            if any(c is not cs[0] for c in cs):
                                b = mk("it", b.a[0], mk("phi", site, (k, "c")), *b.a[2:])
                        env[k] = b
                        for i, v in enumerate(vals):
                            if not isk(v):
                                subs[i][v] = b
                        phis[b] = vals
                        continue
                elif any(v.k == "begin" for v in vals):
                    # advanced by hand or through erase(): still an iterator of that container
                    bv = [v for v in vals if v.k == "begin"][0]
                    b = mk("it", site, bv.a[0], bv.a[1])
                    env[k] = b
                    for i, v in enumerate(vals):
                        subs[i][v] = b
                    phis[b] = vals
                    continue
            if widen is not None and widen.env.get(k) is not None and widen.env[k].k == "phi" and widen.env[k].a[0] == site:
                same_ = False
            else:
                same_ = all(v is v0 for v in vals) and not (site in v0.ids and v0.k != "ref" and v0.a and not head is None and site in v0.ids)
                if not same_ and v0.k == "it" and all(v.k == "it" and v.a[0] == v0.a[0] and v.a[2:] == v0.a[2:] for v in vals) and site not in v0.ids:
                    # one position of one loop, reached with different contents of the container
                    b = mk("it", v0.a[0], mk("phi", site, (k, "c")), *v0.a[2:])
                    env[k] = b
                    phis[b] = vals
                    for i, v in enumerate(vals):
                        subs[i][v] = b
                    continue
            if same_:
                env[k] = v0
            else:
                if v0.k == "ref" or any(v.k == "ref" for v in vals):
                    if all(v is v0 for v in vals):
                        env[k] = v0
                        continue
                    ph = mk("phi", site, k)
                    env[k] = mk("ref", mk("P.val", ph))
                    if all(v.k == "ref" for v in vals):
                        phis[ph] = [self.read(s, v.a[0]) for s, v in zip(sts, vals)]
                    continue
                ph = mk("phi", site, k)
                env[k] = ph
                phis[ph] = vals
                for i, v in enumerate(vals):
                    if not isk(v):
                        subs[i].setdefault(v, ph)
        r.env = env
        # memory
        mem = {}
        pk = set()
        for s in sts:
            pk |= set(s.mem)
        for P in pk:
            if site in P.ids:
                continue
            rv_ = rootvar(P)
            if rv_ is not None and rv_[0] == cx.id and not (rv_[1] in live or rv_[1] in pinned):
                continue
            vals = [s.mem.get(P) for s in sts]
            vals = [v if v is not None else self.read(s, P) for v, s in zip(vals, sts)]
            v0 = vals[0]
            w = widen is not None and widen.mem.get(P) is not None and widen.mem[P].k == "phi" and widen.mem[P].a[0] == site
            if not w and all(v is v0 for v in vals) and site not in v0.ids:
                mem[P] = v0
            else:
                if P.sz > 30:
                    continue
                ph = mk("phi", site, P)
                mem[P] = ph
                phis[ph] = vals
                for i, v in enumerate(vals):
                    if not isk(v):
                        subs[i].setdefault(v, ph)
        r.mem = mem
        ver = {}
        fk = set()
        for s in sts:
            fk |= set(s.ver)
        for f in fk:
            vs = [self.vof(s, f) for s in sts]
            if all(v is vs[0] for v in vs) and site not in vs[0].ids:
                ver[f] = vs[0]
            else:
                ver[f] = mk("phi", site, ("ver", f))
        r.ver = ver
        r.gver = sts[0].gver if all(s.gver is sts[0].gver for s in sts) and site not in sts[0].gver.ids else mk("phi", site, "gver")
        r.pc = {}
        if self.rule.cls is not None:
            for ph, vals in phis.items():
                cs = {self.klass(s, v) for s, v in zip(sts, vals)}
                # a merge seen again: the part that comes around keeps the class of the rest
                if len(cs) > 1 and any(v is ph for v in vals):
                    cs = {self.klass(s, v) for s, v in zip(sts, vals) if v is not ph}
                if len(cs) == 1 and None not in cs:
                    r.pc[ph] = cs.pop()
            for ph, c in sts[0].pc.items():
                if ph not in phis and all(s.pc.get(ph) == c for s in sts[1:]):
                    r.pc[ph] = c
            if widen is not None:
                had = set(widen.env.values()) | set(widen.mem.values())
                r.pc = {ph: c for ph, c in r.pc.items() if widen.pc.get(ph) == c or ph not in had}
        # facts
        facts = {}
        cand = {}
        if len(sts) == 1 and not phis:
            facts = {f: v for f, v in sts[0].facts.items() if site not in f.ids}
        else:
            for i, s in enumerate(sts):
                sub = subs[i]
                for f, v in s.facts.items():
                    if site not in f.ids:
                        cand[f] = v if cand.get(f, v) == v else None
                    if sub and f.sz < 60:
                        g = subst(f, sub) if touches(f, sub) else f
                        if g is not f and g.k not in ("k",):
                            # the substituted fact may still mention the retired site through other terms
                            if all(x == site for x in ()):
                                pass
                            gv = v
                            while g.k == "not":
                                g = g.a[0]; gv = not gv
                            if g.k in ("eq", "lt0", "has", "empty"):
                                cand[g] = gv if cand.get(g, gv) == gv else None
            for ph, vals in phis.items():
                ks = [v for v in vals if isk(v)]
                if ks and len(ks) < len(vals) and len(set(ks)) == 1 and len(vals) > 1:
                    pass
            # lower bounds of counters that start at a constant
            for ph, vals in phis.items():
                ks = [int(v.a[0]) for v in vals if isnum(v)]
                if ks:
                    cand.setdefault(LT(ph, K(min(ks))), False) if LT(ph, K(min(ks))).k == "lt0" else None
            # sign of merged results, nullness of merged pointers
            for ph, vals in phis.items():
                for g in (LT(ph, ZERO), LT(ph, K(1)), EQ(ph, NULL)):
                    if g.k in ("lt0", "eq") and g not in cand:
                        v0 = vals[0]
                        x = (v0.a[0] < kval(g.a[1]) if g.k == "lt0" else False) if isnum(v0) else self.entail(sts[0], subst(g, {ph: v0}))
                        if x is not None:
                            cand[g] = x
            backs = [{ph: vals[i] for ph, vals in phis.items()} for i in range(len(sts))]
            for f, v in cand.items():
                if v is None:
                    continue
                ok = True
                bad = False
                for i, s in enumerate(sts):
                    b = backs[i]
                    g = subst(f, b) if b and touches(f, b) else f
                    if g is f and site in f.ids and not touches(f, b):
                        ok = False
                        break
                    if self.entail(s, g) is not v:
                        ok = False
                        break
                if ok:
                    facts[f] = v
        if widen is not None:
            # a variable may hold another value now than in the stored state: compare what is known of the variable
            back = {}
            for now, then in ((env, widen.env), (mem, widen.mem)):
                for k, v in now.items():
                    w = then.get(k)
                    if w is None or w is v or isk(v) or v.k == "ref" or w.k == "ref" or v.sz > 30:
                        continue
                    if v.k == "phi" and v.a[0] == site and site in w.ids:
                        continue
                    back.setdefault(v, []).append(w)
            def kept(f, v):
                if widen.facts.get(f) is v or self.entail(widen, f) is v:
                    return True
                if back and f.k in ("lt0", "eq") and touches(f, back):
                    ks = [x for x in back if touches(f, {x: x})]
                    return len(ks) == 1 and all(self.entail(widen, subst(f, {ks[0]: w})) is v for w in back[ks[0]])
                return False
            facts = {f: v for f, v in facts.items() if kept(f, v)}
        r.facts = facts
        if head and len(sts) >= 1:
            r.auto = retire_auto(r.auto, site)
        self.gc(r, cx)
        return r

    def gc(self, st, cx):
        """drop facts about values nothing refers to any more"""
        if len(st.facts) < 40:
            return
        chain = set()
        c = cx
        while c:
            chain.add(c.id)
            c = c.parent
        refs = set()
        for v in st.env.values():
            refs |= v.ids
        for P, v in st.mem.items():
            refs |= v.ids
            refs |= P.ids
        collect_ids(st.auto, refs)
        for v in st.ver.values():
            refs |= v.ids
        for f in [f for f in st.facts if any(i not in refs and i[0] >= 0 for i in f.ids)]:
            del st.facts[f]

    # ------------------------------------------------------------ transfer
    def chain(self, cx, node, st):
        """run from a merge point to the next ones"""
        outs = []
        work = [(cx, node, st, True)]
        while work:
            cx, node, st, first = work.pop()
            while not st.dead:
                if not first and (node in cx.cfg.merge):
                    outs.append(((cx, node), st))
                    break
                first = False
                nxt = self.step(cx, node, st)
                if len(nxt) == 1:
                    cx, node, st = nxt[0]
                    continue
                for (c2, n2, s2) in nxt:
                    work.append((c2, n2, s2, False))
                break
        return outs

    def goto(self, cx, nd, st):
        return [(cx, nd.s[0], st)] if nd.s else []

    def step(self, cx, node, st):
        nd = cx.cfg.nodes[node]
        i = nd.i
        k = i[0]
        self.where = (cx, node)
        extra = []
        if nd.tr and k in ("call", "libcall", "throw", "icall", "mut"):
            t = nd.tr
            for (_, h) in t["h"]:
                extra.append((cx, h, st.copy()))
        r = getattr(self, "i_" + k)(cx, node, nd, i, st)
        return r + extra if extra else r

    def i_entry(self, cx, node, nd, i, st):
        return self.goto(cx, nd, st)

    i_nop = i_entry
    def i_catch(self, cx, node, nd, i, st):
        self.emit(st, cx, node, ("catch", i[1] if len(i) > 1 else None))
        return self.i_entry(cx, node, nd, i, st)

    def i_exit(self, cx, node, nd, i, st):
        val = st.env.get((cx.id, "%ret"))
        if cx.parent is None:
            self.emit(st, cx, node, ("exit", val))
            return []
        for l in [l for l in st.loops if l[0] == cx.id]:
            self.emit(st, cx, node, ("loopbreak", l[1], l[2], l[3]))
        st.loops = tuple(l for l in st.loops if l[0] != cx.id)
        st.cur = {k: v for k, v in st.cur.items() if k[0] != cx.id}
        st.must = {k: v for k, v in st.must.items() if k[0] != cx.id}
        st.lastit = {k: v for k, v in st.lastit.items() if k[0] != cx.id}
        self.emit(st, cx, node, ("leave", cx.fn, val))
        par = cx.parent
        cn = par.cfg.nodes[cx.call]
        dst = cn.i[1] if cn.i[0] in ("call", "icall") else None
        for kk in [kk for kk in st.env if kk[0] == cx.id]:
            del st.env[kk]
        for P in [P for P in st.mem if (rootvar(P) or (None,))[0] == cx.id]:
            del st.mem[P]
        if dst:
            v = val if val is not None else mk("call", (par.id, cx.call), cx.fn.q)
            v = self.canon(v, par.cfg.vtypes.get(dst))
            st.env[(par.id, dst)] = v
        return [(par, cn.s[0], st)] if cn.s else []

    def i_ret(self, cx, node, nd, i, st):
        if i[1] is not None:
            v = self.ev(st, cx, i[1])
            if is_agg(cx.fn.rt) and not cx.fn.rf:
                v = self.read(st, self.pderef(v))
            v = self.canon(v, cx.fn.rt)
            st.env[(cx.id, "%ret")] = v
        self.emit(st, cx, node, ("ret", st.env.get((cx.id, "%ret"))))
        return self.goto(cx, nd, st)

    def i_loophead(self, cx, node, nd, i, st):
        hit = [l for l in st.loops if l[0] == cx.id and l[1] == node]
        if hit:
            l = hit[0]
            self.emit(st, cx, node, ("iterend", node, l[2], l[3]))
            st.must = dict(st.must)
            st.must[(cx.id, node)] = st.cur.get((cx.id, node), frozenset())
            st.cur = {k: v for k, v in st.cur.items() if k != (cx.id, node)}
            idx = st.loops.index(l)
            st.loops = st.loops[:idx]
        self.emit(st, cx, node, ("head", node))
        return self.goto(cx, nd, st)

    def i_loopexit(self, cx, node, nd, i, st):
        h = i[1]
        hit = [l for l in st.loops if l[0] == cx.id and l[1] == h]
        if hit:
            self.emit(st, cx, node, ("loopbreak", h, hit[0][2], hit[0][3]))
            st.loops = st.loops[:st.loops.index(hit[0])]
            st.cur = {k: v for k, v in st.cur.items() if k != (cx.id, h)}
        else:
            li = st.lastit.get((cx.id, h))
            self.emit(st, cx, node, ("loopdone", h, li[0] if li else None, li[1] if li else None, st.must.get((cx.id, h))))
        st.must = {k: v for k, v in st.must.items() if k != (cx.id, h)}
        st.lastit = {k: v for k, v in st.lastit.items() if k != (cx.id, h)}
        return self.goto(cx, nd, st)

    def itertest(self, cx, node, t):
        """(container, iterator) if the branch at node is the iteration test of its loop"""
        x = t
        if x.k == "not":
            x = x.a[0]
        if x.k == "more":
            return x.a[1], mk("it", *x.a), x.a[0]
        if x.k == "empty":
            return None
        if x.k == "lt0" or x.k == "eq":
            # ix < size(c)   (canonical: ix - size < 0, or size - ix < 1 negated)
            d = poly_of(x.a[0])
            ixs = [m[0] for m in d if len(m) == 1 and m[0].k == "ix"]
            szs = [m[0] for m in d if len(m) == 1 and m[0].k in ("size", "op", "lib", "ld", "param", "phi", "proj", "get")]
            if len(ixs) == 1 and len(d) == 2 and len(szs) == 1:
                s = szs[0]
                cont = s.a[0] if s.k == "size" else s
                full = False
                if d[(ixs[0],)] == 1 and d[(szs[0],)] == -1 and isnum(x.a[1]):
                    # ix - size < c
                    full = x.k == "lt0" and x.a[1].a[0] == 0 or x.k == "eq" and x.a[1].a[0] == 0
                elif d[(ixs[0],)] == -1 and d[(szs[0],)] == 1 and isnum(x.a[1]):
                    full = x.k == "lt0" and x.a[1].a[0] == 1 or x.k == "eq" and x.a[1].a[0] == 0
                if full and s.k == "size":
                    return cont, ixs[0], ixs[0].a[0]
        return None

    def i_br(self, cx, node, nd, i, st):
        rv = i[1]
        h = cx.cfg.headof.get(node)
        unroll = None
        if rv[0] == "more":
            # concrete unrolling over a literal list
            c = self.ev(st, cx, rv[1])
            hd = rv[2]
            self.retire_more(st, (cx.id, hd))
            if c.k == "il" and len(c.a) <= 12:
                li = st.lastit.get((cx.id, hd))
                idx = 0 if not li or len(li) < 3 or li[2] is None else li[2] + 1
                st.lastit = dict(st.lastit)
                if idx < len(c.a):
                    it = mk("it", (cx.id, hd), c, None, idx)
                    st.lastit[(cx.id, hd)] = (c, it, idx)
                    self.enter_iter(st, cx, node, hd, c, it)
                    return [(cx, nd.s[0], st)]
                st.lastit[(cx.id, hd)] = (c, None, None)
                return [(cx, nd.s[1], st)]
        t = truthy(self.ev(st, cx, rv))
        itt = self.itertest(cx, node, t) if h is not None else None
        if itt and itt[2][0] != cx.id:
            itt = None
        s2 = st.copy()
        outs = []
        for val, s, dst in ((True, st, nd.s[0]), (False, s2, nd.s[1])):
            for ns in self.assume(s, t, val):
                ns.tr = (("%s" % cx.fn.name, nd.l, "true" if val else "false"), ns.tr)
                if itt:
                    hd = itt[2][1]
                    body = cx.cfg.loopset.get(hd, ())
                    ns.lastit = dict(ns.lastit)
                    ns.lastit[(cx.id, hd)] = (itt[0], itt[1])
                    if dst in body and not any(l[0] == cx.id and l[1] == hd for l in ns.loops):
                        self.enter_iter(ns, cx, node, hd, itt[0], itt[1])
                    if dst not in body:
                        # the test fact of a finished loop is about the last position only
                        pass
                outs.append((cx, dst, ns))
                self.emit(ns, cx, node, ("branch", t, val, dst))
        return outs

    def retire_more(self, st, site):
        for f in [f for f in st.facts if f.k == "more" and f.a[0] == site]:
            del st.facts[f]

    def enter_iter(self, st, cx, node, hd, c, it):
        st.loops = st.loops + ((cx.id, hd, c, it),)
        st.cur = dict(st.cur)
        st.cur[(cx.id, hd)] = frozenset()
        self.emit(st, cx, node, ("iter", hd, c, it))

    def i_set(self, cx, node, nd, i, st):
        x = i[1]
        rv = i[2]
        if rv[0] == "iter":
            site = (cx.id, rv[2])
            # new element: forget the previous one
            if node in cx.cfg.cyc:
                keep = st.lastit.get(site)
                self.retire(st, site)
        if rv[0] == "opq":
            v = self.fresh(st, cx, node, "opq", 0)
        elif rv[0] == "undef":
            v = self.fresh(st, cx, node, "undef", x)
        else:
            v = self.ev(st, cx, rv)
            if v.sz > 320:
                v = self.fresh(st, cx, node, "opq", 1)
        v = self.canon(v, cx.cfg.vtypes.get(x))
        st.env[(cx.id, x)] = v
        if rv[0] != "lockobj":
            self.kill_children(st, mk("P.var", cx.id, x))
        return self.goto(cx, nd, st)

    def i_ref(self, cx, node, nd, i, st):
        P = self.place(st, cx, i[2])
        if P.k == "P.val" and P.a[0].k == "ref":
            P = P.a[0].a[0]
        st.env[(cx.id, i[1])] = mk("ref", P)
        return self.goto(cx, nd, st)

    def i_store(self, cx, node, nd, i, st):
        v = self.ev(st, cx, i[2]) if i[2][0] != "opq" else self.fresh(st, cx, node, "opq", 0)
        P = self.place(st, cx, i[1])
        if v.sz > 320:
            v = self.fresh(st, cx, node, "opq", 1)
        if P.k == "P.var":
            v = self.canon(v, cx.cfg.vtypes.get(P.a[1]) if P.a[0] == cx.id else None)
            st.env[(P.a[0], P.a[1])] = v
            self.kill_children(st, P)
            self.emit(st, cx, node, ("setvar", P, v))
        else:
            if P.k == "P.fld":
                v = self.canonf(v, P.a[1])
            if P.k == "P.glob" and P.a[0] == "errno":
                pass
            self.write(st, cx, node, P, v)
        return self.goto(cx, nd, st)

    def i_aggdecl(self, cx, node, nd, i, st):
        P = mk("P.var", cx.id, i[1])
        self.kill_children(st, P)
        st.env[(cx.id, i[1])] = self.fresh(st, cx, node, "agg", i[1])
        return self.goto(cx, nd, st)

    def i_agginit(self, cx, node, nd, i, st):
        return self.goto(cx, nd, st)

    def copyagg(self, st, cx, node, dst, src):
        """*dst = *src for aggregates"""
        D = self.pderef(dst)
        Sp = self.pderef(src)
        whole = self.read(st, Sp) if Sp.k != "P.deref" else mk("deagg", src, mk("snap", st.gver))
        if Sp.k == "P.deref" and Sp not in st.mem:
            # through a pointer: read each known field
            fields = self.fields_of(src, dst, st)
        kids = []
        sb = self.addr(Sp)
        db = self.addr(D)
        for q, v in st.mem.items():
            if q.k == "P.fld" and q.a[0] is sb:
                kids.append((q.a[1], v))
        if D.k == "P.var":
            st.env[(D.a[0], D.a[1])] = whole
            self.kill_children(st, D)
        else:
            self.write(st, cx, node, D, whole, quiet=False)
        for f, v in kids:
            st.mem[mk("P.fld", db, f)] = v

    def fields_of(self, *a):
        return ()

    def i_aggcopy(self, cx, node, nd, i, st):
        self.copyagg(st, cx, node, self.ev(st, cx, i[1]), self.ev(st, cx, i[2]))
        return self.goto(cx, nd, st)

    def i_aggstore(self, cx, node, nd, i, st):
        P = self.place(st, cx, i[1])
        self.copyagg(st, cx, node, self.addr(P), self.ev(st, cx, i[2]))
        return self.goto(cx, nd, st)

    def i_itinc(self, cx, node, nd, i, st):
        P = self.place(st, cx, i[1])
        v = self.read(st, P)
        n = mk("itnext", v) if v.k in ITERK and v.sz < 40 else self.fresh(st, cx, node, "opq", 2)
        if P.k == "P.var":
            st.env[(P.a[0], P.a[1])] = n
        else:
            self.write(st, cx, node, P, n)
        return self.goto(cx, nd, st)

    def i_new(self, cx, node, nd, i, st):
        st.env[(cx.id, i[1])] = self.canon(self.fresh(st, cx, node, "new", i[2]), "*" + i[2])
        self.emit(st, cx, node, ("new", st.env[(cx.id, i[1])], i[2]))
        return self.goto(cx, nd, st)

    def i_delete(self, cx, node, nd, i, st):
        self.emit(st, cx, node, ("delete", self.ev(st, cx, i[1]), i[2]))
        return self.goto(cx, nd, st)

    def i_throw(self, cx, node, nd, i, st):
        self.emit(st, cx, node, ("throw",))
        return []

    def i_libcall(self, cx, node, nd, i, st):
        args = tuple(self.ev(st, cx, a) for a in i[4])
        recv = self.ev(st, cx, i[3]) if i[3] is not None else None
        self.emit(st, cx, node, ("libcall", i[2], recv, args))
        if i[2] == "at" and recv is not None and args:
            h = HAS(recv, args[0])
            if h.k == "has" and self.entail(st, h) is None and recv.k not in ("il",):
                pass
        if i[1]:
            st.env[(cx.id, i[1])] = mk("lib", i[2], *args)
        return self.goto(cx, nd, st)

    def i_mut(self, cx, node, nd, i, st):
        _, dst, lv, meth, args = i
        P = self.place(st, cx, lv)
        av = [self.ev(st, cx, a) for a in args]
        old = self.read(st, P)
        if P.k == "P.val":
            rp = self.place_of_value(st, P.a[0])
            if rp is not None:
                P = rp
        self.mutate(st, cx, node, P, old, meth, av, dst)
        if dst:
            st.env[(cx.id, dst)] = mk("mres", (cx.id, node), meth)
        return self.goto(cx, nd, st)

    def place_of_value(self, st, v):
        """place of a container value read through an iterator or element"""
        if v.k == "at":
            pp = self.place_of_value(st, v.a[0])
            if pp is not None:
                return mk("P.elt", pp, v.a[1])
        if v.k == "ld" and isinstance(v.a[1], str) and v.a[1] not in ("*",):
            return mk("P.fld", v.a[0], v.a[1])
        if v.k == "mv":
            return self.place_of_value(st, v.a[1])
        return None

    PURE_EXT = {"strcmp", "strlen", "strerror", "getpid", "getuid", "__errno_location", "strchr", "strrchr", "strstr", "strcasestr", "toupper", "tolower"}

    def i_ext(self, cx, node, nd, i, st):
        _, dst, name, args, outs, ty = i
        av = tuple(self.ev(st, cx, a) for a in args)
        if name == "strcmp":
            v = mk("strcmp", av[0], av[1])
        elif name == "strlen":
            v = mk("size", mk("strsize", av[0])) if not isk(av[0]) else SIZE(av[0])
        elif name == "getpid":
            v = mk("getpid")
        elif name == "strdup":
            v = av[0]
        else:
            v = self.fresh(st, cx, node, "ext", name)
            v = self.canon(v, ty)
        self.emit(st, cx, node, ("ext", name, av, v))
        if name not in self.PURE_EXT and not name.startswith("spdlog"):
            for o in outs:
                if o < len(av):
                    a = av[o]
                    if a.k in ("&",) or a.k in ("param", "phi", "ext", "ld", "new", "poly"):
                        if name in ("free", "close"):
                            continue
                        P = self.pderef(a)
                        if a.k == "&" and P.k == "P.var" and str(P.a[1]).startswith("[]"):
                            continue
                        ov = mk("out", (cx.id, node), o)
                        self.kill_children(st, P)
                        if P.k == "P.var":
                            st.env[(P.a[0], P.a[1])] = ov
                        elif P.k == "P.deref":
                            b = P.a[0]
                            for q in [q for q in st.mem if q.k == "P.fld" and q.a[0] is b]:
                                del st.mem[q]
                            st.mem[P] = ov
                            st.mem[mk("P.whole", b)] = ov
                        else:
                            st.mem[P] = ov
            if name not in ("memcpy", "memset", "free", "malloc", "calloc", "memmove", "clock_gettime", "fuse_get_context"):
                st.ver["errno"] = mk("ver", (cx.id, node), "errno")
        if dst:
            st.env[(cx.id, dst)] = v
        if self.rule.forks is not None and self.rule.forks(self, st, cx, node, name, av):
            # the two outcomes of the call are followed separately
            t = EQ(v, NULL) if name in ("opendir", "fopen", "malloc", "calloc") else LT(v, ZERO)
            outs = []
            s2 = st.copy()
            for val, s in ((True, st), (False, s2)):
                for ns in self.assume(s, t, val):
                    if val and t.k != "eq":
                        for n2 in self.assume(ns, EQ(v, K(-1)), True):
                            self.emit(n2, cx, node, ("extres", name, av, v, True))
                            outs += self.goto(cx, nd, n2)
                    else:
                        if name in ZERO_ON_SUCCESS:
                            ns.facts[EQ(v, ZERO)] = True
                        self.emit(ns, cx, node, ("extres", name, av, v, val))
                        outs += self.goto(cx, nd, ns)
            return outs
        return self.goto(cx, nd, st)

    # ---- calls
    def i_call(self, cx, node, nd, i, st):
        _, dst, info, recv, args = i
        fid = info["f"]
        targets = [fid]
        if fid in self.p.overriders and (info.get("virt") or fid not in self.p.fns):
            targets = list(self.p.overriders[fid])
            if fid in self.p.fns and not targets:
                targets = [fid]
        self.stats["calls"] += 1
        rt = self.ev(st, cx, recv) if recv is not None else None
        out = []
        for n, t in enumerate(targets):
            f = self.p.fns.get(t)
            s = st if n == len(targets) - 1 else st.copy()
            if f is None or f.body is None or f.id in cx.chain or self.depth(cx) > self.maxdepth or self.rule.opaque(self, f):
                av = tuple(self.ev(s, cx, a) for a in args)
                self.emit(s, cx, node, ("opaque", f, rt, av))
                s2 = self.havoc(s, cx, node, f, info, dst)
                out.append((cx, nd.s[0], s2) if nd.s else None)
                continue
            out += self.enter(cx, node, f, rt, args, s)
        return [o for o in out if o]

    def enter(self, cx, node, f, this, args, st):
        c2 = self.ctx(cx, node, f)
        self.retire_ctx(st, c2)
        vals = []
        for n, (v, m, t, name) in enumerate(c2.cfg.params):
            if n >= len(args):
                st.env[(c2.id, v)] = mk("defarg", f.id, n)
                vals.append(st.env[(c2.id, v)])
                continue
            a = args[n]
            if a[0] == "lvarg" and (m in ("r", "c") or is_agg(t)):
                P = self.place(st, cx, a[1])
                if m == "v" and is_agg(t):
                    self.copyagg(st, cx, node, mk("&", mk("P.var", c2.id, v)), self.addr(P))
                else:
                    st.env[(c2.id, v)] = mk("ref", P)
                vals.append(self.read(st, P))
                continue
            if a[0] == "aggarg" or (m == "v" and is_agg(t)):
                src = self.ev(st, cx, a)
                self.copyagg(st, cx, node, mk("&", mk("P.var", c2.id, v)), src)
                vals.append(src)
                continue
            x = self.ev(st, cx, a)
            if m in ("r", "c") and is_agg(t) and x.k in ("&", "&v", "param"):
                st.env[(c2.id, v)] = mk("ref", self.pderef(x))
                vals.append(x)
                continue
            x = self.canon(x, t)
            st.env[(c2.id, v)] = x
            vals.append(x)
        if this is not None:
            st.env[(c2.id, "%this")] = mk("obj", self.sing[f.cls]) if f.cls in self.sing else this
        # only what the caller still needs survives the call
        cfg = cx.cfg
        nxt = cfg.nodes[node].s
        if nxt and not f.lam:
            live = cfg.live[nxt[0]]
            tr = cfg.nodes[node].tr
            if not tr:
                for k in [k for k in st.env if k[0] == cx.id and k[1] not in live and k[1] not in cfg.pinned and k[1] not in ("%this",)]:
                    del st.env[k]
        self.emit(st, c2, 0, ("enter", f, tuple(vals), this, cx, node))
        return [(c2, 0, st)]

    def retire_ctx(self, st, c2):
        """re-entering a context from a loop: its old frame is gone already; names created in it are stale"""
        if not c2.inloop:
            return
        sites = set()
        for v in st.env.values():
            for s in v.ids:
                if s[0] == c2.id:
                    sites.add(s)
        for P, v in st.mem.items():
            for s in v.ids | P.ids:
                if s[0] == c2.id:
                    sites.add(s)
        for f in st.facts:
            for s in f.ids:
                if s[0] == c2.id:
                    sites.add(s)
        for s in sites:
            self.retire(st, s)

    def havoc(self, st, cx, node, f, info, dst):
        ms = self.modset(f) if f is not None else None
        if ms is None:
            st.gver = self.fresh(st, cx, node, "ver", "*all")
            st.ver = {}
            for P in [P for P in st.mem if not islocal(P)]:
                del st.mem[P]
        else:
            for fl in ms:
                st.ver[fl] = self.fresh(st, cx, node, "ver", fl)
                for P in [P for P in st.mem if fieldof(P) == fl]:
                    del st.mem[P]
        if dst:
            v = self.fresh(st, cx, node, "call", f.q if f is not None else info.get("q", "?"))
            st.env[(cx.id, dst)] = self.canon(v, cx.cfg.vtypes.get(dst))
        return st

    def modset(self, f):
        """fields a function may modify, transitively; None = anything"""
        tab = self.p.__dict__.setdefault("_modsets", {})
        if f.id in tab:
            return tab[f.id]
        seen = set()
        work = [f]
        res = set()
        while work:
            g = work.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            cfg = lower(self.p, g)
            for nd in cfg.nodes:
                i = nd.i
                if i[0] in ("store", "aggstore"):
                    res |= lvfields(i[1])
                elif i[0] == "mut":
                    res |= lvfields(i[2])
                elif i[0] == "call":
                    fid = i[2]["f"]
                    for t in ([fid] if fid in self.p.fns else []) + list(self.p.overriders.get(fid, [])):
                        work.append(self.p.fns[t])
                elif i[0] == "icall":
                    lam = i[2]
                    if lam[0] == "lam" and lam[1] in self.p.fns:
                        work.append(self.p.fns[lam[1]])
        tab[f.id] = res
        return res

    def i_icall(self, cx, node, nd, i, st):
        _, dst, fx, args = i
        v = self.ev(st, cx, fx)
        if v.k == "lam" and v.a[0] in self.p.fns and self.p.fns[v.a[0]].id not in cx.chain:
            return self.enter(cx, node, self.p.fns[v.a[0]], None, args, st)
        if v.k == "fnref" and v.a[0] in self.p.fns and v.a[0] not in cx.chain:
            return self.enter(cx, node, self.p.fns[v.a[0]], None, args, st)
        av = tuple(self.ev(st, cx, a) for a in args)
        self.emit(st, cx, node, ("icall", v, av))
        if dst:
            st.env[(cx.id, dst)] = self.fresh(st, cx, node, "call", "icall")
        return self.goto(cx, nd, st)

    def i_dtor(self, cx, node, nd, i, st):
        x, t = i[1], i[2]
        if t in LOCK_CLASSES:
            lo = mk("lockobj", cx.id, x)
            v = st.env.get((cx.id, x))
            if v is not None and v.k == "lockobj":
                lo = v
            self.unlockobj(st, cx, node, lo)
            for q in [q for q in st.mem if q.k in ("P.own", "P.mx") and q.a[0] is lo]:
                del st.mem[q]
            return self.goto(cx, nd, st)
        for f in self.p.fns.values():
            if f.dtor and f.cls == t and f.id not in cx.chain:
                # the destructor returns to this node's successor
                return self.enter(cx, node, f, mk("&", mk("P.var", cx.id, x)), [], st)
        return self.goto(cx, nd, st)

    def mxs(self, st, lo):
        return [q for q in st.mem if q.k == "P.mx" and q.a[0] is lo]

    def unlockobj(self, st, cx, node, lo):
        if st.mem.get(mk("P.own", lo)) is TRUE:
            for q in self.mxs(st, lo):
                P = st.mem[q]
                self.release(st, cx, node, self.lockid(st, P), q.a[2])
            st.mem[mk("P.own", lo)] = FALSE

    def i_lkbind(self, cx, node, nd, i, st):
        _, x, mlv, mode, how = i
        lo = mk("lockobj", cx.id, x)
        P = self.place(st, cx, mlv)
        n = len(self.mxs(st, lo))
        if n and st.mem.get(mk("P.own", lo)) is None:
            for q in self.mxs(st, lo):
                del st.mem[q]
            n = 0
        st.mem[mk("P.mx", lo, n, mode)] = P
        if how in ("lock", "adopt", "try"):
            if how == "lock":
                self.acquire(st, cx, node, self.lockid(st, P), mode)
            elif how == "try":
                s2 = st.copy()
                s2.mem[mk("P.own", lo)] = FALSE
                self.acquire(st, cx, node, self.lockid(st, P), mode, "try")
                st.mem[mk("P.own", lo)] = TRUE
                return [(cx, nd.s[0], st), (cx, nd.s[0], s2)]
            st.mem[mk("P.own", lo)] = TRUE
        else:
            st.mem[mk("P.own", lo)] = FALSE
        return self.goto(cx, nd, st)

    def i_lkmove(self, cx, node, nd, i, st):
        src = self.ev(st, cx, i[2])
        lo = mk("lockobj", cx.id, i[1])
        if src.k == "lockobj":
            st.env[(cx.id, i[1])] = lo
            for q in self.mxs(st, src):
                st.mem[mk("P.mx", lo, q.a[1], q.a[2])] = st.mem[q]
            st.mem[mk("P.own", lo)] = st.mem.get(mk("P.own", src), FALSE)
            st.mem[mk("P.own", src)] = FALSE
        return self.goto(cx, nd, st)

    def i_lkop(self, cx, node, nd, i, st):
        _, dst, lv, opn = i
        P = self.place(st, cx, lv)
        lo = self.read(st, P)
        if lo.k == "lockobj":
            own = st.mem.get(mk("P.own", lo))
            if opn in ("lock", "try_lock"):
                s2 = st.copy() if opn == "try_lock" else None
                for q in self.mxs(st, lo):
                    self.acquire(st, cx, node, self.lockid(st, st.mem[q]), q.a[2], "lock" if opn == "lock" else "try")
                st.mem[mk("P.own", lo)] = TRUE
                if s2 is not None:
                    if dst:
                        st.env[(cx.id, dst)] = TRUE
                        s2.env[(cx.id, dst)] = FALSE
                    return [(cx, nd.s[0], st), (cx, nd.s[0], s2)]
            else:
                if own is not TRUE:
                    self.emit(st, cx, node, ("badunlock", ("lockobj", None), "X"))
                self.unlockobj(st, cx, node, lo)
        if dst:
            st.env[(cx.id, dst)] = TRUE
        return self.goto(cx, nd, st)

    def i_mxop(self, cx, node, nd, i, st):
        _, dst, lv, opn = i
        P = self.place(st, cx, lv)
        lid = self.lockid(st, P)
        mode = "S" if "shared" in opn else "X"
        if opn.startswith("try"):
            s2 = st.copy()
            self.acquire(st, cx, node, lid, mode, "try")
            if dst:
                st.env[(cx.id, dst)] = TRUE
                s2.env[(cx.id, dst)] = FALSE
            return [(cx, nd.s[0], st), (cx, nd.s[0], s2)]
        if opn.startswith("lock"):
            self.acquire(st, cx, node, lid, mode)
        else:
            self.release(st, cx, node, lid, mode)
        return self.goto(cx, nd, st)


class HeapItem(tuple):
    def __new__(cls, order, cid, node, key):
        return tuple.__new__(cls, (order, cid, node, key))

    def __lt__(self, o):
        return (self[0], self[1], self[2]) < (o[0], o[1], o[2])

    def __le__(self, o):
        return (self[0], self[1], self[2]) <= (o[0], o[1], o[2])


# ---------------------------------------------------------------- helpers
def placeroot(P):
    while P.k in ("P.elt", "P.get"):
        P = P.a[0] if P.k == "P.elt" else P.a[1]
    if P.k == "P.fld":
        return ("fld", P.a[1])
    return P


def rootvar(P):
    """(ctx, var) of the local variable a place lies in, or None"""
    while True:
        if P.k == "P.var":
            return (P.a[0], P.a[1])
        if P.k == "P.fld" and P.a[0].k == "&":
            P = P.a[0].a[0]
        elif P.k == "P.idx" and P.a[0].k == "&":
            P = P.a[0].a[0]
        elif P.k == "P.elt":
            P = P.a[0]
        elif P.k == "P.get":
            P = P.a[1]
        elif P.k in ("P.own", "P.mx"):
            return (P.a[0].a[0], P.a[0].a[1]) if P.a[0].k == "lockobj" else None
        else:
            return None


def islocal(P):
    return rootvar(P) is not None


def fieldof(P):
    r = placeroot(P)
    return r[1] if isinstance(r, tuple) else None


def inside(q, P, base):
    """q is a place strictly inside the object stored at P (whose address is base)"""
    x = q
    while True:
        if x.k == "P.fld":
            b = x.a[0]
            if b is base:
                return True
            if b.k == "&":
                x = b.a[0]
                if x is P:
                    return True
                continue
            return False
        if x.k == "P.elt":
            x = x.a[0]
            if x is P:
                return True
            continue
        if x.k == "P.get":
            x = x.a[1]
            if x is P:
                return True
            continue
        return False


def lvfields(lv):
    out = set()
    k = lv[0]
    if k == "fld":
        out.add(lv[2])
        b = lv[1]
        if b[0] == "addr":
            out |= lvfields(b[1])
    elif k == "elt":
        out |= lvfields(lv[1])
    elif k == "get":
        out |= lvfields(lv[2])
    elif k == "g":
        out.add(lv[1])
    elif k in ("deref", "idx"):
        out.add("*")
    return out


def subterms1(t, d=0):
    """subterms of an atom, to a small depth"""
    out = [t]
    if d < 4:
        for x in t.a:
            if isinstance(x, T):
                out += subterms1(x, d + 1)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        out += subterms1(y, d + 1)
                    elif isinstance(y, tuple):
                        out += [z for z in y if isinstance(z, T)]
    return out


def touches(t, sub):
    """t contains one of the keys of sub"""
    if t in sub:
        return True
    if t.k == "poly":
        return any(touches(x, sub) for m, _ in t.a[0] for x in m)
    return any(isinstance(x, T) and touches(x, sub) for x in t.a)


def hasaterm(a, site):
    if isinstance(a, T):
        return site in a.ids
    if isinstance(a, (tuple, frozenset)):
        return any(hasaterm(x, site) for x in a)
    return False


def rename_auto(a, site):
    if isinstance(a, T):
        return mk("old", site, a.k) if site in a.ids else a
    if isinstance(a, tuple):
        r = tuple(rename_auto(x, site) for x in a)
        return type(a)._make(r) if hasattr(a, "_fields") else r
    if isinstance(a, frozenset):
        return frozenset(rename_auto(x, site) for x in a)
    return a


def retire_auto(a, site):
    return rename_auto(a, site) if hasaterm(a, site) else a


def collect_ids(a, out):
    if isinstance(a, T):
        out |= a.ids
    elif isinstance(a, (tuple, frozenset)):
        for x in a:
            collect_ids(x, out)
