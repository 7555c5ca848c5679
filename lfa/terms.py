"""Hash-consed value terms, polynomial normal form for integers and the atoms
used as branch facts.

A term names a value.  Terms created at a program point carry that point (the
"site", a (context, node) pair) in `ids`, so that re-executing the point can
retire everything known about the value of the previous execution."""

EMPTY = frozenset()


class T:
    __slots__ = ("k", "a", "ids", "n", "sz")

    def __hash__(self):
        # creation order: set and dict orders are then the same in every run
        return self.n

    def __repr__(self):
        return show(self)


_tab = {}
CREATORS = {"call", "ext", "out", "phi", "mv", "new", "it", "ix", "opq", "undef", "stale", "ver", "mres", "more", "old", "agg"}


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.k = k
    t.a = a
    t.n = len(_tab)
    ids = EMPTY
    sz = 1
    for x in a:
        if isinstance(x, T):
            ids = ids | x.ids if ids else x.ids
            sz += x.sz
    if k in CREATORS:
        ids = ids | {a[0]}
    t.ids = ids
    t.sz = sz
    _tab[key] = t
    return t


def K(c):
    # bool and int constants must not be conflated by Python's 1 == True
    return mk("k", c, type(c).__name__)


TRUE = K(True)
FALSE = K(False)
NULL = K(None)
ZERO = K(0)


def isk(t):
    return t.k == "k"


def kval(t):
    return t.a[0]


def isnum(t):
    return t.k == "k" and isinstance(t.a[0], (int, bool)) and t.a[0] is not None


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """dict: monomial (tuple of terms sorted by id) -> coefficient"""
    if t.k == "k":
        v = t.a[0]
        if v is None:
            return {(): 0}
        if isinstance(v, (int, bool)):
            return {(): int(v)} if v else {}
        return {(t,): 1}
    if t.k == "poly":
        return dict(t.a[0])
    return {(t,): 1}


def mk_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if len(m) == 1 and c == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple(x.n for x in mc[0])))
    return mkpolyterm(items)


def mkpolyterm(items):
    key = ("poly", (items,))
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.k = "poly"
    t.a = (items,)
    t.n = len(_tab)
    ids = EMPTY
    sz = 1
    for m, c in items:
        for x in m:
            ids = ids | x.ids
            sz += x.sz
    t.ids = ids
    t.sz = sz
    _tab[key] = t
    return t


def padd(x, y, s=1):
    d = poly_of(x)
    for m, c in poly_of(y).items():
        d[m] = d.get(m, 0) + s * c
    return mk_poly(d)


def pmul(x, y):
    a, b = poly_of(x), poly_of(y)
    if len(a) * len(b) > 12:
        return mk("op", "*", x, y)
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=lambda z: z.n))
            if len(m) > 4:
                return mk("op", "*", x, y)
            d[m] = d.get(m, 0) + c1 * c2
    return mk_poly(d)


def split_const(t):
    """(non-constant part, constant)"""
    d = poly_of(t)
    c = d.pop((), 0)
    return mk_poly(d), c


# ---------------------------------------------------------------- booleans
def NOT(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.k == "not":
        return t.a[0]
    if isnum(t):
        return FALSE if t.a[0] else TRUE
    return mk("not", t)


def AND(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return mk("and", a, b)


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


BOOLK = {"not", "and", "eq", "lt0", "has", "empty", "more"}


def is_bool(t):
    return t.k in BOOLK or t is TRUE or t is FALSE


def truthy(t):
    """the boolean meaning of a value used as a condition"""
    if is_bool(t):
        return t
    if t.k == "k":
        return TRUE if t.a[0] else FALSE
    if t.k == "ite":
        return ITE(t.a[0], truthy(t.a[1]), truthy(t.a[2]))
    return NOT(EQ(t, ZERO))


def ITE(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if is_bool(a) and is_bool(b):
        if b is FALSE:
            return AND(c, a)
        if a is TRUE:
            return OR(c, b)
        if a is FALSE:
            return AND(NOT(c), b)
        if b is TRUE:
            return OR(NOT(c), a)
    return mk("ite", c, a, b)


def root(c):
    """the storage a container value comes from, ignoring the mutations in between"""
    while True:
        if c.k == "mv":
            c = c.a[1]
        elif c.k == "ld":
            return ("fld", c.a[0], c.a[1])
        elif c.k == "at":
            return ("at", root(c.a[0]), c.a[1])
        else:
            return c


ITERK = {"begin", "end", "find", "it", "itnext"}


def itercont(t):
    if t.k in ("begin", "end", "find"):
        return t.a[0]
    if t.k == "it":
        return t.a[1]
    if t.k == "itnext":
        return itercont(t.a[0])
    return None


def EQ(a, b):
    if a is b:
        return TRUE
    if b.k == "ite" and a.k != "ite":
        a, b = b, a
    if a.k == "ite":
        x, y = EQ(a.a[1], b), EQ(a.a[2], b)
        if (x.k == "k") and (y.k == "k"):
            return ITE(a.a[0], x, y)
    # booleans compared with constants
    if is_bool(a) and b.k == "k":
        return a if b.a[0] else NOT(a)
    if is_bool(b) and a.k == "k":
        return b if a.a[0] else NOT(b)
    # iterators
    if a.k in ITERK or b.k in ITERK:
        if b.k != "end" and a.k == "end":
            a, b = b, a
        if b.k == "end":
            if a.k == "find":
                return NOT(HAS(a.a[0], a.a[1]))
            if a.k == "begin":
                return EMP(a.a[0])
            if a.k == "it":
                return NOT(mk("more", *a.a[:3]))
    if a.k == "k" and b.k == "k":
        va, vb = a.a[0], b.a[0]
        if va is None or vb is None:
            return TRUE if (not va) and (not vb) and not isinstance(va, str) and not isinstance(vb, str) else FALSE
        return TRUE if va == vb else FALSE
    for x, y in ((a, b), (b, a)):
        if y.k == "k":
            if x.k == "strcmp" and y.a[0] == 0:
                return EQ(x.a[0], x.a[1])
            if x.k in ("&", "new", "obj", "&v", "fnref") and (y.a[0] is None or y.a[0] == 0):
                return FALSE
            if x.k == "size" and y.a[0] == 0:
                return EMP(x.a[0])
            if x.k == "count" and y.a[0] == 0:
                return NOT(HAS(x.a[0], x.a[1]))
            if x.k == "op" and x.a[0] == "strcat" and isinstance(y.a[0], str) and y.a[0] == "":
                return AND(EQ(x.a[1], y), EQ(x.a[2], y))
    if a.k == "k" and (a.a[0] is None or isinstance(a.a[0], str)):
        a, b = b, a
    if b.k == "k" and (b.a[0] is None or isinstance(b.a[0], str)):
        if b.a[0] is None and a.k == "poly":
            pass
        else:
            return mk("eq", a, b)
    if a.k == "poly" or b.k == "poly" or isnum(a) or isnum(b):
        d = padd(a, b, -1)
        if isk(d):
            return TRUE if d.a[0] == 0 else FALSE
        p = poly_of(d)
        lead = min((m for m in p if m != ()), key=lambda m: tuple(x.n for x in m))
        if p[lead] < 0:
            d = mk_poly({m: -c for m, c in p.items()})
        q, c = split_const(d)
        return mk("eq", q, K(-c))
    if a.n > b.n:
        a, b = b, a
    return mk("eq", a, b)


def LT(a, b):
    """a < b over the integers"""
    if a.k == "k" and b.k == "k":
        try:
            return TRUE if (a.a[0] or 0) < (b.a[0] or 0) else FALSE
        except TypeError:
            return mk("lt0", mk("cmp", a, b), ZERO)
    if (isk(a) and isinstance(a.a[0], (float, str))) or (isk(b) and isinstance(b.a[0], (float, str))):
        return mk("lt0", mk("cmp", a, b), ZERO)
    d = padd(a, b, -1)
    if isk(d):
        return TRUE if d.a[0] < 0 else FALSE
    p = poly_of(d)
    lead = min((m for m in p if m != ()), key=lambda m: tuple(x.n for x in m))
    if p[lead] < 0:
        # d < 0  <=>  -d > 0  <=>  not (-d < 1)
        q, c = split_const(mk_poly({m: -cc for m, cc in p.items()}))
        return NOT(_lt(q, 1 - c))
    q, c = split_const(d)
    return _lt(q, -c)


def _lt(q, c):
    """q < c"""
    if q.k == "size":
        if c <= 0:
            return FALSE
        if c == 1:
            return EMP(q.a[0])
    if q.k == "count":
        if c <= 0:
            return FALSE
        if c == 1:
            return NOT(HAS(q.a[0], q.a[1]))
    return mk("lt0", q, K(c))


def HAS(c, k):
    if c.k == "il":
        allk = True
        for x in c.a:
            kk = x.a[0] if x.k == "tup" and x.a else x
            if kk is k:
                return TRUE
            if not (isk(kk) and isk(k)):
                allk = False
        if allk:
            return FALSE
    return mk("has", c, k)


def EMP(c):
    if c.k == "il":
        return TRUE if not c.a else FALSE
    if c.k == "k" and isinstance(c.a[0], str):
        return TRUE if c.a[0] == "" else FALSE
    if c.k == "strsize":
        return EQ(c.a[0], K(""))
    return mk("empty", c)


def subst(t, m, memo=None):
    """replace terms (identity) by m: dict T->T"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.k == "poly":
        ch = False
        acc = ZERO
        for mono, c in t.a[0]:
            v = K(c)
            for x in mono:
                y = subst(x, m, memo)
                ch = ch or y is not x
                v = pmul(v, y)
            acc = padd(acc, v)
        r = acc if ch else t
    else:
        ch = False
        na = []
        for x in t.a:
            if isinstance(x, T):
                y = subst(x, m, memo)
                ch = ch or y is not x
                na.append(y)
            else:
                na.append(x)
        r = rebuild(t.k, na) if ch else t
    memo[t] = r
    return r


def rebuild(k, a):
    if k == "eq":
        return EQ(*a)
    if k == "has":
        return HAS(*a)
    if k == "empty":
        return EMP(*a)
    if k == "not":
        return NOT(*a)
    if k == "and":
        return AND(*a)
    if k == "ite":
        return ITE(*a)
    if k == "lt0":
        if a[0].k == "cmp":
            return mk(k, *a)
        return LT(a[0], a[1])
    if k == "get":
        return GET(a[0], a[1])
    if k == "size":
        return SIZE(a[0])
    return mk(k, *a)


def GET(i, t):
    if t.k in ("tup", "il") and i < len(t.a):
        return t.a[i]
    if t.k == "kv" and i < 2:
        return t.a[1] if i == 0 else AT(t.a[0], t.a[1])
    if t.k == "kvit" and i < 2:
        it = t.a[0]
        if i == 0:
            return mk("ikey", it)
        return AT(itercont(it), mk("ikey", it))
    return mk("get", i, t)


def AT(c, k):
    if c.k == "il":
        if isnum(k) and 0 <= k.a[0] < len(c.a) and not all(x.k == "tup" and len(x.a) == 2 for x in c.a):
            return c.a[k.a[0]]
        for x in c.a:
            if x.k == "tup" and len(x.a) == 2 and x.a[0] is k:
                return x.a[1]
    return mk("at", c, k)


def SIZE(c):
    if c.k == "il":
        return K(len(c.a))
    if c.k == "k" and isinstance(c.a[0], str):
        return K(len(c.a[0]))
    return mk("size", c)


def show(t, d=0):
    k, a = t.k, t.a
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if k == "k":
        return repr(a[0]) if a[0] is not None else "null"
    if k == "poly":
        out = []
        for m, c in a[0]:
            b = "*".join(s(x) for x in m)
            out.append((str(c) + "*" if c != 1 and b else ("" if b else str(c))) + b)
        return "(" + " + ".join(out) + ")"
    if k == "not":
        return "!" + s(a[0])
    if k == "eq":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if k == "and":
        return "(%s && %s)" % (s(a[0]), s(a[1]))
    if k == "lt0":
        return "%s<%s" % (s(a[0]), s(a[1]))
    if k == "ld":
        return "%s.%s" % (s(a[0]), str(a[1]).split("::")[-1])
    if k == "obj":
        return a[0].split("::")[-1]
    if k == "param":
        return "%s" % a[1]
    if k in ("ext",):
        return "%s()@%s" % (a[1], a[0][1])
    if k == "phi":
        return "phi@%s" % (a[0][1],)
    if k in CREATORS:
        return "%s@%s%s" % (k, a[0][1] if isinstance(a[0], tuple) else a[0], ("(" + ",".join(s(x) for x in a[1:]) + ")") if a[1:] else "")
    return "%s(%s)" % (k, ",".join(s(x) for x in a))
