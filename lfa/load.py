"""Front end: runs the libTooling extractor over every translation unit of the
repository and assembles the resolved program (functions, classes, globals)."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LFA_REPO", "/repo")
FLAGS = ["-resource-dir=/usr/lib/llvm-18/lib/clang/18", "-std=c++17", "-w",
         "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL",
         "-Wno-c++11-narrowing", "-Wno-narrowing", "-Wno-c++11-narrowing-const-reference"]


class AnalysisBroken(Exception):
    """The rule's anchors are gone: neither a pass nor a violation."""


def source_files(repo):
    srcs = []
    for pat in ("lazyfs/src/**/*.cpp", "libs/libpcache/src/**/*.cpp",
                "lazyfs/src/**/*.cc", "libs/libpcache/src/**/*.cc"):
        srcs += glob.glob(os.path.join(repo, pat), recursive=True)
    return sorted(set(s for s in srcs if "/build/" not in s))


def header_files(repo):
    hs = []
    for d in ("lazyfs/include", "libs/libpcache/include", "lazyfs/src", "libs/libpcache/src"):
        for ext in ("h", "hpp", "cpp", "hh", "inl", "ipp", "tpp"):
            hs += glob.glob(os.path.join(repo, d, "**/*." + ext), recursive=True)
    return sorted(set(hs))


def build_dir():
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    return d


def extractor():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(build_dir(), "lfa-extract-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        subprocess.check_call(["bash", os.path.join(VERIF, "tool", "build.sh"), tmp])
        os.replace(tmp, exe)
    return exe


def tree_hash(repo, exe):
    h = hashlib.sha256()
    h.update(os.path.basename(exe).encode())
    h.update(repo.encode())
    for f in header_files(repo):
        h.update(f.encode())
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def extract(repo):
    exe = extractor()
    key = tree_hash(repo, exe)
    cdir = os.path.join(build_dir(), "cache")
    os.makedirs(cdir, exist_ok=True)
    cfile = os.path.join(cdir, key + ".json")
    if os.path.exists(cfile):
        try:
            return json.load(open(cfile))
        except Exception:
            pass
    srcs = source_files(repo)
    if not srcs:
        raise AnalysisBroken("no translation units under %s" % repo)
    incs = ["-I" + os.path.join(repo, "lazyfs/include"), "-I" + os.path.join(repo, "libs/libpcache/include")]
    tmp = tempfile.mkdtemp(prefix="lfa")

    def one(i_src):
        i, src = i_src
        out = os.path.join(tmp, "%d.json" % i)
        p = subprocess.run([exe, repo, src, out] + FLAGS + incs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or not os.path.exists(out):
            raise AnalysisBroken("front end failed on %s:\n%s" % (src, p.stdout.decode(errors="replace")[-3000:]))
        d = json.load(open(out))
        d["tu"] = os.path.relpath(src, repo)
        return d
    try:
        with ThreadPoolExecutor(8) as ex:
            tus = list(ex.map(one, enumerate(srcs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        # keep the cache small
        old = sorted(glob.glob(os.path.join(cdir, "*.json")), key=os.path.getmtime)
        for f in old[:-6]:
            os.unlink(f)
        t = cfile + ".%d" % os.getpid()
        json.dump(tus, open(t, "w"))
        os.replace(t, cfile)
    except OSError:
        pass
    return tus


class Fn:
    __slots__ = ("id", "q", "ps", "file", "line", "eline", "rt", "rf", "cls", "static", "ov", "ctor", "dtor",
                 "inits", "body", "lam", "tu", "cfg", "name")

    def __init__(self, d, tu):
        self.id = d["id"]; self.q = d["q"]; self.file = d["file"]; self.line = d["l"]; self.eline = d["el"]
        self.rt = d["rt"]; self.rf = d.get("rf", False)
        self.cls = d.get("cls"); self.static = d.get("static", False); self.ov = d.get("ov", [])
        self.ctor = d.get("ctor", False); self.dtor = d.get("dtor", False)
        self.inits = d.get("inits", []); self.body = d["body"]; self.lam = d.get("lam", False)
        self.tu = tu
        self.ps = d["ps"]
        self.cfg = None
        self.name = self.q.split("::")[-1]

    def __repr__(self):
        return "<%s>" % self.q


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        tus = extract(self.repo)
        self.fns = {}
        self.classes = {}
        self.globals = {}
        self.overriders = {}
        self.tus = [t["tu"] for t in tus]
        for ti, t in enumerate(tus):
            for f in t["funcs"]:
                if f["id"] and f["id"] not in self.fns:
                    self.fns[f["id"]] = Fn(f, ti)
            for c in t["classes"]:
                self.classes.setdefault(c["q"], c)
            for g in t["globals"]:
                if g["q"] not in self.globals or ("e" in g and "e" not in self.globals[g["q"]]):
                    self.globals[g["q"]] = g
        for f in self.fns.values():
            for o in f.ov:
                self.overriders.setdefault(o, []).append(f.id)
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)

    def rel(self, path):
        return os.path.relpath(path, self.repo) if path.startswith(self.repo) else path

    def field_types(self):
        r = {}
        for c in self.classes.values():
            for f in c["fields"]:
                r[f["f"]] = f
        return r

    def resolve_field(self, cls_suffix, name, type_pred=None):
        """Field by name, else the unique field of that class whose type satisfies type_pred."""
        cands = [c for q, c in self.classes.items() if q.split("::")[-1] == cls_suffix]
        for c in cands:
            for f in c["fields"]:
                if f["f"].split("::")[-1] == name:
                    return f["f"]
        if type_pred:
            m = [f["f"] for c in cands for f in c["fields"] if type_pred(f["ft"], f["t"])]
            if len(m) == 1:
                return m[0]
        return None
