"""C05: failures of the backing file system are reported with the right error."""
from ..run import Prop, Job
from ..flow import Rule
from ..model import *

# the calls whose outcome is the outcome of the operation
PRIMARY = {
    "getattr": {"lstat", "fstat", "stat", "fstatat", "lstat64"}, "readdir": {"opendir", "fdopendir"}, "open": {"open", "openat"},
    "create": {"open", "openat", "creat"}, "write": {"open", "pwrite", "pread", "pwrite64", "pread64", "write", "pwritev"},
    "read": {"open", "pread", "pread64", "read", "preadv"},
    "fsync": {"fsync", "fdatasync", "open", "pwritev", "pwrite", "writev", "write", "ftruncate", "truncate"},
    "rename": {"rename", "renameat", "renameat2"}, "truncate": {"lstat", "fstat", "stat", "ftruncate", "truncate"},
    "symlink": {"symlink", "symlinkat"}, "access": {"access", "faccessat"}, "mkdir": {"mkdir", "mkdirat"}, "link": {"link", "linkat"},
    "readlink": {"readlink", "readlinkat"}, "rmdir": {"rmdir", "unlinkat"}, "chmod": {"chmod", "fchmod", "fchmodat"},
    "chown": {"lchown", "chown", "fchown", "fchownat"}, "utimens": {"utimensat", "futimens", "utimes", "utime", "lutimes"},
    "lseek": {"open", "lseek", "lseek64"}, "unlink": {"unlink", "unlinkat", "remove"},
    "setxattr": {"lsetxattr", "setxattr"}, "getxattr": {"lgetxattr"}, "listxattr": {"llistxattr"}, "removexattr": {"lremovexattr"},
    "statfs": {"statvfs", "statfs"}, "mknod": {"mknod", "mkfifo", "mknodat"}, "fallocate": {"posix_fallocate", "fallocate"},
}
# failures of a nested operation that are failures of the outer one
NESTED = {"open": {"truncate": {"ftruncate", "truncate"}}, "truncate": {"getattr": {"lstat", "fstat", "stat"}}}
SIMPLE = {"rename", "symlink", "access", "mkdir", "link", "rmdir", "chmod", "chown", "utimens", "unlink", "readlink", "getattr", "readdir",
          "create"}


class Errors(Rule):
    name = "error-propagation"
    init = ("none",)
    LOOSE = {"truncate"}

    def __init__(self, op):
        self.op = op
        self.count = {}

    def opaque(self, e, fn):
        h = self.m.handler_ids.get(fn.id)
        return fn.id in self.m.triggers or (self.op in ("truncate", "open") and h == "write") or \
            (self.op not in ("truncate", "getattr") and h == "getattr") or \
            (self.op != "fsync" and fn.cls is not None and fn.cls.split("::")[-1] in ("Cache", "PageCacheEngine", "CustomCacheEngine", "Page"))

    def cls(self, e, st, t):
        # results are not merged with one another
        if isk(t):
            return kval(t) if isinstance(kval(t), int) and not isinstance(kval(t), bool) and kval(t) < 0 else None
        if t.k == "ite":
            return ("arms", self.cls(e, st, t.a[1]), self.cls(e, st, t.a[2]))
        return "errno" if t.k == "poly" and errno_of(t) else None

    def chain(self, cx):
        """operations between the call and the request, innermost first"""
        out = []
        c = cx
        while c is not None:
            s = self.m.handler_ids.get(c.fn.id)
            if s is not None:
                out.append(s)
            c = c.parent
        return out

    def forks(self, e, st, cx, node, name, av):
        ch = self.chain(cx)
        op = self.op
        if name not in PRIMARY.get(op, ()) and name not in {n for v in NESTED.get(op, {}).values() for n in v}:
            return False
        if ch == [op]:
            if name not in PRIMARY[op]:
                return False
        else:
            ok = NESTED.get(op, {})
            inner = ch[:-1]
            if len(inner) == 1 and inner[0] in ok and name in ok[inner[0]]:
                pass
            else:
                return False
        if torn_context(self.m, cx):
            return False
        if op == "truncate" and name not in ("ftruncate", "truncate") and st.auto[0] != "none":
            return False
        if op == "write" and name == "open":
            fl = av[1] if len(av) > 1 else None
            if fl is None or not isk(fl) or not (kval(fl) & 3):
                return False
        self.count.setdefault("calls followed", set()).add("%s: %s in %s" % (op, name, cx.fn.name))
        return True

    def on(self, e, st, cx, node, ev):
        a = st.auto
        if ev[0] == "exit" and ev[1] is not None and ev[1].k == "ite":
            val = ev[1]
            for x, c in ((val.a[1], True), (val.a[2], False)):
                for s in e.assume(st.copy(), val.a[0], c):
                    self.on(e, s, cx, node, ("exit", x) + tuple(ev[2:]))
            return
        if ev[0] == "extres":
            if ev[4]:
                if a[0] == "fail":
                    st.auto = ("fails", a[1])
                elif a[0] != "fails":
                    # the value errno has right after the call
                    st.auto = ("fail", mk("errno", st.ver.get("errno", ZERO)), ev[1], self.chain(cx)[0] == self.op)
            elif a[0] == "none":
                st.auto = ("ok",)
            elif a[0] in ("fail", "fails") and ev[1] in ("ftruncate", "truncate") and "truncate" in self.chain(cx):
                # setting the size was retried
                st.auto = ("ok",)
            return
        if ev[0] != "exit":
            return
        val = ev[1]
        self.count["returns"] = self.count.get("returns", 0) + 1
        if val is None:
            return
        if a[0] in ("fail", "fails"):
            if not negative(e, st, val):
                e.report(cx, node, "'%s' does not report an error although the backing call %s failed (it returns %s)" %
                         (self.op, a[2] if a[0] == "fail" else "", show(val)), st)
            elif a[0] == "fail" and a[3] and self.op not in self.LOOSE:
                want = NEG(a[1])
                if self.op in ("fsync", "write", "read") and isk(val) and kval(val) == -5:
                    return      # a short transfer before it
                if val is not want and (isk(val) or errno_of(val) or val.k == "ext" or e.entail(st, EQ(val, K(-1))) is True):
                    e.report(cx, node, "'%s' returns %s instead of the error set by the failed call %s" % (self.op, show(val), a[2]), st)
        elif a[0] == "ok" and self.op in SIMPLE:
            if negative(e, st, val):
                e.report(cx, node, "'%s' reports an error although the backing call succeeded" % self.op, st)
            elif isk(val) and kval(val) != 0:
                e.report(cx, node, "'%s' returns %s after success" % (self.op, show(val)), st)


def NEG(t):
    return pmul(K(-1), t)


def errno_of(t):
    """-errno of some call"""
    n = NEG(t)
    return n.k == "errno"


class C05(Prop):
    minimum = {"calls followed": 16}
    rule_text = ("For every FUSE handler the outcomes of the backing calls that decide the operation are followed separately through the "
                 "interprocedural flow graph: on every path where one fails the handler returns a negative value, which for a single failure is "
                 "the negated errno that very call left (not a constant and not the errno of a later call); on paths where it succeeds a "
                 "pass-through operation returns no error.")
    assumptions = ["logging does not change errno", "calls made only to inject a torn write, to pre-read attributes, or as best effort (utimes, close) "
                   "do not decide the outcome"]

    def jobs(self, m, tier):
        return [Job(o, (lambda o=o: Errors(o)), f) for o, f in sorted(m.handlers.items()) if o in PRIMARY]


PROPS = {"C05": C05()}
