"""The FIFO worker: which command does what (part of C11, C18, C19), C16: faults are installed exactly when valid, C17: no command stops the worker."""
import re
from collections import namedtuple
from ..run import Prop, Job, PyJob
from ..flow import Rule
from ..load import AnalysisBroken
from ..model import *
from ..terms import *
from .p_ops import sub

W = namedtuple("W", "rd cmd exact eff note err maxes nul neg")
# rd: result of the read that delivered the command;  cmd: the command recognised;  exact: 2 the whole text was compared, 1 its start, 0 a part
# eff: what was done for it;  note: completion messages written;  err: an error was noted;  maxes: multi-path operation?
# nul: the text received is terminated;  neg: a part of the command was just found to be bad
ZERO_W = W(None, None, 0, (), 0, 0, None, 0, 0)

# command -> effects, in order
TABLE = {
    "lazyfs::clear-cache": "clear", "lazyfs::cache-checkpoint": "checkpoint", "lazyfs::unsynced-data-report": "report",
    "lazyfs::display-cache-usage": "usage", "lazyfs::help": None, "lazyfs::crash": "crash", "lazyfs::torn-op": "torn-op", "lazyfs::torn-seq": "torn-seq",
}
INSTALL = ("crash", "torn-op", "torn-seq")
STOPS = {"exit", "_exit", "_Exit", "abort", "quick_exit", "std::terminate", "kill", "raise", "pthread_exit", "pthread_kill", "tgkill"}
DONE = "finished::clear-cache\n"

# what a pattern must accept and reject
NUMBER = (["0", "1", "7", "12", "345"], ["", "x", "-1", "1,2", "1 ", "1x", "x1", ","])
LIST = (["1", "12", "1,2", "10,20,3"], ["", ",", "1,", ",1", "1,,2", "a", "1,a", "1;2", "-1", "1, 2"])


def effects(m):
    """method of LazyFS -> effect"""
    d = {}
    for name, calls, eff in (("command_fault_clear_cache", "clear_all_cache", "clear"), ("command_checkpoint", "full_checkpoint", "checkpoint"),
                             ("command_unsynced_data_report", "report_unsynced_data", "report"),
                             ("command_display_cache_usage", "get_cache_usage", "usage")):
        d[m.command(name, calls).id] = eff
    for name, eff in (("add_crash_fault", "crash"), ("add_torn_op_fault", "torn-op"), ("add_torn_seq_fault", "torn-seq")):
        d[m.find_fn(("lazyfs::LazyFS::" + name,), None, name).id] = eff
    return d


def matches(pat, spec):
    try:
        r = re.compile(pat)
    except re.error:
        return False
    return all(r.fullmatch(x) for x in spec[0]) and not any(r.fullmatch(x) for x in spec[1])


class Worker(Rule):
    name = "worker"
    init = ZERO_W

    def __init__(self, what):
        self.what = what
        self.count = {}
        self.seen = set()
        self.opens = {}
        self.bufread = {}
        self.rdonly = False     # the FIFO ends when its last writer closes it

    def opaque(self, e, fn):
        return fn.cls is not None and fn.id != self.m.worker.id

    def hit(self, k, v):
        self.count.setdefault(k, set()).add(v)

    def say(self, e, cx, node, topic, msg, st):
        if topic == self.what or self.what == "robust" and topic != "install":
            e.report(cx, node, msg, st)

    # ---- what a value was checked to be
    def cls(self, e, st, t):
        if t in st.pc:
            return st.pc[t]
        if t is TRUE or isk(t) and kval(t) == 1:
            return "T"
        if t is FALSE or isk(t) and kval(t) == 0:
            return "F"
        if isk(t) and kval(t) == "none":
            return "none"
        return None

    def learn(self, st, t, c):
        if t.k != "k" and (t not in st.pc or st.pc[t] == "given"):
            st.pc = dict(st.pc)
            st.pc[t] = c

    def truth(self, e, st, t):
        """value of a condition as far as the classes decide it"""
        if t.k == "not":
            r = self.truth(e, st, t.a[0])
            return None if r is None else not r
        if t.k == "eq":
            x, y = t.a
            for a, b in ((x, y), (y, x)):
                if isk(b) and kval(b) == "none":
                    c = e.klass(st, a)
                    return None if c is None or c in ("T", "F") else c == "none"
                if isk(b) and kval(b) in (0, False, 1, True) and e.klass(st, a) in ("T", "F"):
                    return (e.klass(st, a) == "T") == bool(kval(b))
            a, b = self.truth(e, st, x), self.truth(e, st, y)
            if a is not None and b is not None:
                return a == b
        if e.klass(st, t) in ("T", "F"):
            return e.klass(st, t) == "T"
        return None

    def command_of(self, t, val):
        """(command, matched) if the atom is about the text of the command"""
        ks = [kval(x) for x in sub(t) if isk(x) and isinstance(kval(x), str) and kval(x).startswith("lazyfs::")]
        if not ks:
            return None
        exact, text = 0, ks[0]
        if t.k == "eq" and any(x is y for x in t.a if hasattr(x, "k") for y in sub(t) if isk(y) and kval(y) == text):
            exact = 2
        elif t.k == "eq" and any(isk(x) and isinstance(kval(x), int) and kval(x) != 0 for x in t.a):
            val = not val           # != npos
        else:
            lib = next((x for x in sub(t) if x.k in ("lib", "call") and any(hasattr(y, "k") and isk(y) and kval(y) == text for y in x.a)), None)
            name = lib.a[0] if lib is not None and isinstance(lib.a[0], str) else ""
            n = next((kval(x) for x in (lib.a[::-1] if lib is not None else ()) if hasattr(x, "k") and isk(x) and isinstance(kval(x), int)), None)
            if name.endswith(("strncmp", "strncasecmp")) and n is not None:
                exact = 2 if n > len(text) else 1
                text = text[:n]
            elif name.endswith(("strcmp", "strcasecmp")):
                exact = 2
            elif name == "compare":
                exact = 2 if n is None else 1
            elif name in ("rfind", "find", "starts_with") or name.endswith("strstr"):
                exact = 1
        if t.k == "lt0":
            return text, None, 0
        return text, val, exact

    def close(self, e, st, cx, node):
        """the command received last is finished"""
        a = st.auto
        if a.rd is None:
            return
        if a.cmd is not None:
            want = TABLE.get(a.cmd)
            got = tuple(x for x in a.eff if x != "?")
            topic = want if want in ("clear", "checkpoint", "report") else "install" if want in INSTALL else "robust"
            if want is not None and not got and a.err < (1 if want in INSTALL else 2):
                self.say(e, cx, node, topic, "the command %s can end without %s" %
                         (a.cmd, "its effect" if want not in INSTALL else "the fault installed and without an error"), st)
            if want == "clear" and got and not a.note and a.err < 2:
                n = [f for f, v in st.facts.items() if f.k == "eq" and v and any(isk(x) and kval(x) == "" for x in f.a)]
                if not n:
                    self.say(e, cx, node, topic, "clear-cache can end without its completion message", st)
        st.auto = ZERO_W

    def on(self, e, st, cx, node, ev):
        k = ev[0]
        a = st.auto
        m = self.m
        if k == "ext" and ev[1].startswith("open") and len(ev[2]) > 1 and isk(ev[2][1]):
            self.opens[ev[3]] = kval(ev[2][1])
        if k == "ext" and ev[1] == "read":
            if ev[2] and ev[2][0] in self.opens and self.opens[ev[2][0]] & 3 == 0:
                self.rdonly = True
            self.close(e, st, cx, node)
            n = self.bufsize(cx, ev[2][1]) if len(ev[2]) > 2 else None
            short = n is not None and isk(ev[2][2]) and kval(ev[2][2]) < n
            st.auto = ZERO_W._replace(rd=ev[3] if len(ev) > 3 else None, nul=1 if short and self.zeroed(cx, ev[2][1]) else 0)
            self.hit("reads", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
            self.check_read(e, st, cx, node, ev)
            return
        if k == "extres":
            return
        if k == "branch":
            for t, val in atoms(ev[1], ev[2]):
                r = self.truth(e, st, t)
                if r is not None and r != val:
                    st.dead = True
                    return
                c = self.command_of(t, val)
                if c is not None:
                    if c[0] in TABLE:
                        self.seen.add(c[0])
                    if c[1] is None:
                        self.say(e, cx, node, "robust", "the text of a command is only compared to come before or after '%s'" % c[0], st)
                    raw = not any(x is a.rd for x in sub(t)) if a.rd is not None else False
                    if raw and not a.nul and any(x.k == "out" for x in sub(t)):
                        self.say(e, cx, node, "robust", "the text of a command is read past the bytes received", st)
                    if c[1]:
                        if a.cmd is None:
                            a = a._replace(cmd=c[0], exact=c[2])
                        self.hit("commands", c[0])
                    st.auto = a
                    continue
                self.checked(e, st, t, val)
                a = st.auto
        elif k == "opaque":
            eff = self.eff.get(ev[1].id)
            if eff is not None:
                self.effect(e, st, cx, node, ev, eff)
        elif k == "ext" and ev[1] in ("write", "writev", "dprintf", "fprintf", "fputs", "fwrite") and a.rd is not None:
            text = [kval(x) for x in ev[2] if isk(x) and isinstance(kval(x), str)]
            if any("finished" in x for x in text):
                self.hit("notifications", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
                if a.cmd != "lazyfs::clear-cache" or "clear" not in a.eff:
                    self.say(e, cx, node, "clear", "the completion of clear-cache is announced before or without clearing", st)
                elif a.note:
                    self.say(e, cx, node, "clear", "the completion of clear-cache is announced twice", st)
                if DONE not in text and not any(x.startswith(DONE) for x in text):
                    self.say(e, cx, node, "clear", "the completion message is %s" % text[:1], st)
                elif ev[1] == "write" and isk(ev[2][2]) and kval(ev[2][2]) != len(DONE):
                    self.say(e, cx, node, "clear", "the completion message is cut or padded", st)
                st.auto = a._replace(note=1)
        elif k == "ext" and ev[1] in STOPS and a.rd is not None:
            self.say(e, cx, node, "robust", "handling a command calls %s" % ev[1], st)
        elif k == "catch" and a.rd is not None:
            st.auto = a._replace(err=2)     # what may end here is decided on the syntax tree
        elif k == "mut" and ev[2] in ("push_back", "emplace_back", "insert") and ev[1].k == "P.var" and a.rd is not None:
            if ev[3] and isk(ev[3][0]) and isinstance(kval(ev[3][0]), str):
                if not a.err and not a.neg and TABLE.get(a.cmd) in INSTALL and self.wellformed(e, st, cx, TABLE[a.cmd]):
                    self.say(e, cx, node, "install", "a valid %s command is rejected (%s)" % (TABLE[a.cmd], kval(ev[3][0])), st)
                st.auto = a._replace(err=max(a.err, 1), neg=0)
        elif k == "store" and ev[1].k == "P.idx" and a.rd is not None:
            self.check_store(e, st, cx, node, ev)
        elif k == "exit":
            self.hit("ends", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
            if a.rd is not None:
                lo, hi, ne = e.bounds(st, a.rd)
                if (hi is None or hi > 0) or a.cmd is not None:
                    self.say(e, cx, node, "robust", "the worker can stop while it handles a command", st)
                elif self.rdonly and (hi is None or hi >= 0) and (lo is None or lo <= 0):
                    self.say(e, cx, node, "robust", "the worker stops when a sender of commands closes the FIFO", st)
                self.close(e, st, cx, node)

    def checked(self, e, st, t, val):
        """facts about parts of the command"""
        a = st.auto
        neg = self.negative(t, val)
        if neg is not None and neg != a.neg:
            a = st.auto = a._replace(neg=neg)
        if t.k == "has" and len(t.a) > 1:
            f = str(t.a[0].a[1] if t.a[0].k in ("ld", "proj", "stale", "phi") and len(t.a[0].a) > 1 else t.a[0])
            if "multi_path" in f:
                st.auto = a._replace(maxes=val)
            elif "allow" in f and val:
                self.learn(st, t.a[1], "op")
            return
        u = t.a[0] if t.k == "eq" and len(t.a) > 1 and isk(t.a[1]) and kval(t.a[1]) in (0, False) else t
        pos = val if u is t else not val
        if u.k == "lib" and u.a and u.a[0] == "regex_match":
            pats = [kval(x) for x in sub(u) if isk(x) and isinstance(kval(x), str)]
            if pos and len(pats) == 1:
                for x in u.a[1:2]:
                    self.learn(st, x, "m:" + pats[0])
            return
        if t.k == "eq":
            for x, y in (t.a, t.a[::-1]):
                if isk(y) and isinstance(kval(y), str) and not isk(x):
                    if kval(y) in ("before", "after") and val:
                        self.learn(st, x, "time")
                    elif kval(y) == "" and not val and x not in st.pc:
                        self.learn(st, x, "given")
        elif t.k == "empty" and not val and t.a[0] not in st.pc:
            self.learn(st, t.a[0], "given")

    def negative(self, t, val):
        """1: a part of the command is bad, 0: it is something in order or the next one"""
        if t.k == "has" and "allow" in show(t.a[0]):
            return 0 if val else 1
        libs = [x.a[0] for x in sub(t) if x.k == "lib" and x.a]
        if "rfind" in libs or "find" in libs or "starts_with" in libs or "compare" in libs:
            return 0
        if "regex_match" in libs:
            u = t.a[0] if t.k == "eq" and len(t.a) > 1 and isk(t.a[1]) and kval(t.a[1]) in (0, False) else t
            return 0 if (val if u is t else not val) else 1
        if t.k == "eq" and any(isk(x) and isinstance(kval(x), str) and kval(x) != "none" for x in t.a):
            empty = any(isk(x) and kval(x) == "" for x in t.a)
            return int(val) if empty else int(not val)
        if t.k == "empty":
            return int(val)
        return None

    def argvars(self, eff):
        """variables of the worker that are the arguments of an installing call, by the names of its parameters"""
        if not hasattr(self, "_av"):
            self._av = {}
        if eff not in self._av:
            d = {}
            ids = {i for i, x in self.eff.items() if x == eff}
            for x in walk(self.m.worker.body):
                if x.get("k") in ("call", "mcall") and x.get("f") in ids:
                    fn = self.m.p.fns[x["f"]]
                    for p, y in zip(fn.ps, x.get("a", ())):
                        while y.get("k") == "ctor" and len(y.get("a", ())) == 1 or y.get("k") in ("cast", "par") and y.get("e"):
                            y = y["a"][0] if y.get("k") == "ctor" else y["e"]
                        if y.get("k") == "var":
                            d[p["n"]] = y["i"]
            self._av[eff] = d
        return self._av[eff]

    def wellformed(self, e, st, cx, eff):
        """everything read from the command so far is known to make a complete fault"""
        c = {}
        for n, i in self.argvars(eff).items():
            v = st.env.get((cx.id, str(i)))
            v = st.env.get((cx.id, i)) if v is None else v
            c[n] = e.klass(st, v) if v is not None else None

        def get(*keys):
            return next((c[n] for n in c if any(k in n for k in keys) and not (keys == ("parts",) and "bytes" in n)), None)
        if eff == "crash":
            fr, to, mp = get("from"), get("to"), st.auto.maxes
            if get("tim") != "time" or get("op") != "op" or mp is None or fr is None or to is None:
                return False
            return not (fr == "none" and to == "none") if mp else fr != "none" and to == "none"
        if get("path", "file") in (None, "none") or get("persist") in (None, "none"):
            return False
        if eff == "torn-op":
            pa, pb = get("parts"), get("parts_bytes", "bytes")
            return pa is not None and pb is not None and (pa == "none") != (pb == "none")
        return True

    def effect(self, e, st, cx, node, ev, eff):
        a = st.auto
        if eff not in INSTALL and a.exact < 2 and TABLE.get(a.cmd) == eff:
            self.say(e, cx, node, "robust", "%s happens on a text of which only a part was compared with %s" % (eff, a.cmd), st)
        elif eff in INSTALL and a.exact < 1 and TABLE.get(a.cmd) == eff:
            self.say(e, cx, node, "robust", "%s happens on a text that does not start with %s" % (eff, a.cmd), st)
        self.hit("effects", eff)
        want = TABLE.get(a.cmd) if a.cmd is not None else None
        topic = lambda x: x if x in ("clear", "checkpoint", "report") else "install" if x in INSTALL else "robust"
        if a.rd is None or want != eff:
            for tp in {topic(eff), topic(want) if want else topic(eff)}:
                self.say(e, cx, node, tp, "%s happens on %s" % (eff, a.cmd or "another text than a command"), st)
        elif eff in a.eff:
            self.say(e, cx, node, topic(eff), "%s happens twice for one command" % eff, st)
        st.auto = a._replace(eff=a.eff + (eff,) if eff not in a.eff else a.eff)
        if eff in INSTALL:
            if a.err:
                self.say(e, cx, node, "install", "a %s command with errors installs a fault" % eff, st)
            self.arguments(e, st, cx, node, ev, eff)

    def arguments(self, e, st, cx, node, ev, eff):
        args = [x for x in (ev[3] if len(ev) > 3 else ()) if hasattr(x, "k")]
        names = [p["n"] for p in ev[1].ps]
        c = {}
        for n, t in zip(names, args):
            c[n] = e.klass(st, t)

        def get(*keys):
            for n in c:
                if any(k in n for k in keys) and not (keys == ("parts",) and "bytes" in n):
                    return c[n]
            return "?"
        bad = []
        if eff == "crash":
            tim, op, fr, to = get("tim"), get("op"), get("from"), get("to")
            if tim not in ("time", "?"):
                bad.append("a timing not checked to be 'before' or 'after'")
            if op not in ("op", "?"):
                bad.append("an operation not checked against the available ones")
            mp = st.auto.maxes
            if mp is None:
                bad.append("without a check of its paths")
            elif mp and fr == "none" and to == "none":
                bad.append("for two paths with neither 'from_rgx' nor 'to_rgx'")
            elif not mp and (fr == "none" or to != "none"):
                bad.append("for one path without 'from_rgx' or with 'to_rgx'")
        else:
            fi, pe = get("path", "file"), get("persist")
            if fi == "none":
                bad.append("without a file")
            if pe == "none" or pe is None or pe.startswith("m:") and not matches(pe[2:], LIST):
                bad.append("with 'persist' not checked to be a list of numbers")
            if eff == "torn-op":
                pa, pb = get("parts"), get("parts_bytes", "bytes")
                if pa is None or pa.startswith("m:") and not matches(pa[2:], NUMBER):
                    bad.append("with 'parts' not checked to be a number")
                if pb is None or pb.startswith("m:") and not matches(pb[2:], LIST):
                    bad.append("with 'parts_bytes' not checked to be a list of numbers")
                if pa == "none" and pb == "none":
                    bad.append("without 'parts' and 'parts_bytes'")
                elif pa not in ("none", "?") and pb not in ("none", "?"):
                    bad.append("with both 'parts' and 'parts_bytes'")
        for b in bad:
            self.say(e, cx, node, "install", "the command can install a %s fault %s" % (eff, b), st)

    # ---- the buffer
    def zeroed(self, cx, t):
        """the buffer is all zeros before each read (memset, or declared in the loop with an initialiser)"""
        ids = {str(P.a[1]) for P in sub(t) if P.k == "P.var"}
        reads = lambda x: any(y.get("q") == "read" for y in walk(x))
        for l in walk(cx.fn.body):
            if l.get("s") in ("while", "for", "do") and reads(l):
                for y in walk(l):
                    if y.get("k") == "call" and y.get("q") in ("memset", "std::memset", "bzero") and any(str(z.get("i")) in ids for z in walk(y) if z.get("k") == "var"):
                        return True
                    if str(y.get("i")) in ids and y.get("arr") and y.get("init"):
                        return True
        return False

    def check_read(self, e, st, cx, node, ev):
        args = ev[2]
        n = self.bufsize(cx, args[1]) if len(args) > 2 else None
        if n is not None and isk(args[2]) and len(ev) > 3:
            self.bufread[ev[3]] = (kval(args[2]), n)
        if n is not None and isk(args[2]) and kval(args[2]) > n:
            self.say(e, cx, node, "robust", "reading a command writes %d bytes into a buffer of %d" % (kval(args[2]), n), st)

    def bufsize(self, cx, t):
        """size of the local array a value points to"""
        for P in sub(t):
            if P.k == "P.var":
                for v in walk(cx.fn.body):
                    if str(v.get("i")) == str(P.a[1]) and v.get("arr") and "ft" in v:
                        g = re.match(r"(?:unsigned |signed )?char ?\[(\d+)\]$", v["ft"])
                        if g:
                            return int(g.group(1))
        return None

    def check_store(self, e, st, cx, node, ev):
        P = ev[1]
        idx = P.a[1] if len(P.a) > 1 else None
        if idx is None or not hasattr(idx, "k") or not any(x is st.auto.rd for x in sub(idx)):
            return
        self.hit("terminations", "%s:%d" % (cx.fn.name, cx.cfg.nodes[node].l))
        if e.entail(st, LT(idx, ZERO)) is not False:
            self.say(e, cx, node, "robust", "the command buffer is written before its start", st)
        rd = st.auto.rd
        n, cap = self.bufread.get(rd, (None, None))
        if n is not None and e.entail(st, LT(idx, padd(rd, K(cap - n)))) is not True:
            self.say(e, cx, node, "robust", "the command buffer is written past its end", st)
        if isk(ev[2]) and kval(ev[2]) == 0 and e.entail(st, LT(rd, idx)) is False:
            st.auto = st.auto._replace(nul=1)

    def finish(self, e):
        pass


def mk_worker(what):
    def make():
        return _W(what)
    return make


class _W(Worker):
    @property
    def eff(self):
        if not hasattr(self, "_eff"):
            self._eff = effects(self.m)
        return self._eff

    def finish(self, e):
        for c, want in TABLE.items():
            if c not in self.seen and self.seen:
                topic = want if want in ("clear", "checkpoint", "report") else "install" if want in INSTALL else "robust"
                cx = next(iter(e.ctxs.values())) if isinstance(e.ctxs, dict) else e.ctxs[0]
                self.say(e, cx, cx.cfg.entry, topic, "the command %s is not recognised" % c, None)


def worker_jobs(m, what):
    return [Job("worker:" + what, mk_worker(what), m.worker)]


THROWS = re.compile(r"^(std::(__cxx11::)?(stoi|stol|stoll|stoul|stoull|stof|stod|stold|regex_match|regex_search|regex_replace)|"
                    r"std::(__cxx11::)?(basic_)?regex(::.*)?|std::(__cxx11::)?regex_token_iterator.*|std::optional::value|std::variant.*::get|std::any_cast)$")
THROWM = ("std::vector::at", "std::map::at", "std::unordered_map::at", "std::basic_string::at", "std::basic_string::substr", "std::array::at", "std::deque::at")


def covers(t):
    """the handler for this type catches every standard exception"""
    return t is None or t in ("", "...") or t.replace("const ", "").replace("&", "").strip() in ("std::exception", "exception")


def bare(n, prot=False):
    """nodes below n that are not inside a try block whose handlers take every standard exception"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get("s") == "try" and any(covers(h.get("t")) for h in x["h"]):
                st.extend(h["b"] for h in x["h"])
                continue
            if x.get("k") == "lambda":
                continue
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def throwing(p):
    """functions that can end with an exception of the argument parsers"""
    why = {}

    def direct(x):
        q = str(x.get("q", ""))
        return x.get("k") == "throw" or x.get("k") in ("call", "ctor") and (THROWS.match(q) or q in THROWM[4:])
    work = True
    for f in p.fns.values():
        if f.body is not None:
            for x in bare(f.body):
                if direct(x):
                    why[f.id] = "throw" if x.get("k") == "throw" else str(x.get("q"))
                    break
    while work:
        work = False
        for f in p.fns.values():
            if f.body is None or f.id in why:
                continue
            for x in bare(f.body):
                if x.get("k") in ("call", "ctor") and x.get("f") in why:
                    why[f.id] = why[x["f"]]
                    work = True
                    break
    return why, direct


def escapes(m, o):
    """nothing that handling a command calls lets an exception leave the loop of the worker"""
    w = m.worker
    why, direct = throwing(m.p)
    o.fns.add(w.q)
    loops = [x for x in walk(w.body) if x.get("s") in ("while", "for", "do") and any(y.get("k") == "call" and y.get("q") == "read" for y in walk(x))]
    if not loops:
        o.report("escapes", m.p.rel(w.file), w.line, w.q, "the worker does not read commands in a loop")
        return
    outer = max(loops, key=lambda x: sum(1 for _ in walk(x)))
    o.hit("loops")
    for x in walk(outer):
        if x.get("k") in ("call", "ctor") and (direct(x) or x.get("f") in why):
            o.hit("throwing calls")
    for x in bare(outer):
        if direct(x) or x.get("k") in ("call", "ctor") and x.get("f") in why:
            o.report("escapes", m.p.rel(w.file), x.get("l", w.line), w.q,
                     "a command can end the process: %s may throw and no handler around it keeps the worker running" % (x.get("q") or "throw"))


class C17(Prop):
    minimum = {"reads": 1, "commands": 4, "throwing calls": 1}
    rule_text = ("Automaton over every path of the FIFO worker between two reads of the FIFO: each documented command is recognised, has its effect exactly once and no "
                 "other, any other text has none; no path leaves the loop or ends the process after a command was read, every call below it that may throw is "
                 "inside a handler for std::exception, and the command buffer is read and terminated within its bounds.")

    def jobs(self, m, tier):
        return worker_jobs(m, "robust") + [PyJob("escapes", escapes)]


class C16(Prop):
    minimum = {"effects": 3, "errors": 6, "installations": 4, "validations": 3, "entries": 1, "operation tables": 2, "constructors": 3}
    rule_text = ("Every path of the worker that installs a fault has checked each argument against its documented form and noted no error, every path that does not install has "
                 "noted one; the validators return no error exactly on the paths that establish every demand; every path that puts a fault object into the table has "
                 "its empty validation result, all required keys, and a completed search for another fault of the kind; rejected objects are released.")

    def jobs(self, m, tier):
        from . import p_install as pi

        def fn(q):
            return m.find_fn((q,), None, q)
        return worker_jobs(m, "install") + \
            [Job("validate:" + c, (lambda c=c: pi.Validate(c)), fn("faults::%s::validate" % c)) for c in ("ReorderF", "SplitWriteF", "ClearF")] + \
            [Job("install:" + n, (lambda: pi.Install(False)), fn("lazyfs::LazyFS::" + n)) for n in ("add_torn_op_fault", "add_torn_seq_fault")] + \
            [Job("install:config", (lambda: pi.Install(True)), m.find_fn((), lambda f: f.name == "load_config", "load_config")),
             Job("install:crash", pi.Crash, fn("lazyfs::LazyFS::add_crash_fault")), PyJob("tables", pi.tables)] + pi.keep_jobs(m)


PROPS = {"C16": C16(), "C17": C17()}
