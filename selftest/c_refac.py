# refactorings applied to whole files: every check must stay quiet
import re
H = "lazyfs/include/lazyfs/lazyfs.hpp"


def each_handler(f):
    """f(header, body) for every int LazyFS::lfs_* function"""
    def g(s):
        out, pos = [], 0
        for m in re.finditer(r"^(int|void|bool|void\*) LazyFS::\w+ ?\([^;{]*\) *\{\n", s, re.M):
            if m.start() < pos:
                continue
            e = s.index("\n}\n", m.end())
            out.append(s[pos:m.start()])
            out.append(f(m.group(0), s[m.end():e]))
            pos = e
        out.append(s[pos:])
        return "".join(out)
    return g


def sub_(a, b, n=0):
    return lambda s: re.sub(a, b, s, count=n)


FINDNE = sub_(r"([\w>.\-() ]+?)\.find ?\((\w+(?:\.\w+)?)\) != \1\.end ?\(\)", r"\1.count (\2) > 0")
FINDEQ = sub_(r"([\w>.\-() ]+?)\.find ?\((\w+(?:\.\w+)?)\) == \1\.end ?\(\)", r"\1.count (\2) == 0")
R("g-count", [(x, lambda s: FINDEQ(FINDNE(s))) for x in (L, E, C, D, B)])
R("g-lt0", [(L, sub_(r"if \(res == -1\)", "if (res < 0)"))])
R("g-errno", [(L, sub_(r"return -errno;", "{ int saved = errno; return -saved; }"))])
R("g-errno-fn", [(L, lambda s: s.replace("namespace lazyfs {", "namespace lazyfs {\n\nstatic int failed () { return -errno; }\n", 1).replace("return -errno;", "return failed ();").replace("{ return failed (); }", "{ return -errno; }", 1))])
R("g-self", [(L, each_handler(lambda h, b: h + ("    LazyFS* self = this_ ();\n" + b.replace("this_ ()->", "self->") if "::lfs_" in h and b.count("this_ ()->") > 1 else b)))])
R("g-cache", [(L, each_handler(lambda h, b: h + ("    auto* cache = this_ ()->FSCache;\n" + b.replace("this_ ()->FSCache->", "cache->") if "::lfs_" in h and "this_ ()->FSCache->" in b else b)))])
R("g-constowner", [(L, sub_(r"string owner \(path\);", "const std::string owner = path;"))])
R("g-defer", [(L, sub_(r"std::shared_lock<std::shared_mutex> lock \(cache_command_lock\);", "std::shared_lock<std::shared_mutex> lock (cache_command_lock, std::defer_lock);\n    lock.lock ();"))])
R("g-null", [(L, lambda s: re.sub(r"fi == NULL", "!fi", re.sub(r"fi != NULL", "fi", s)))])
R("g-nullptr", [(x, lambda s: re.sub(r"\bNULL\b", "nullptr", s)) for x in (L,)])
R("g-nullptr-not", [(x, lambda s: re.sub(r"(\w+) == nullptr", r"!\1", re.sub(r"(\w+) != nullptr", r"\1", s))) for x in (E, C)])
R("g-nothis", [(x, lambda s: re.sub(r"this->(\w+_mapping|contents|search_index|free_pages)\b", r"\1", s)) for x in (C,)])
R("g-notkw", [(C, lambda s: re.sub(r"\bnot ", "!", s)), (E, lambda s: re.sub(r"\bnot ", "!", s))])
R("g-scoped-lock", [(C, lambda s: s.replace("lock_guard<std::shared_mutex> lock (lock_cache_mtx);", "std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);").replace("std::std::", "std::"))])
R("g-direct-lock", [(x, lambda s: re.sub(r"(std::unique_lock<(?:std::)?shared_mutex> lock \(lock_cache_mtx), std::defer_lock\);\s*lock\.lock \(\);", r"\1);", s)) for x in (C, E)])
R("g-iter-structured", [(C, lambda s: s.replace("for (auto const& it : this->file_inode_mapping)\n        this->sync_owner (it.second, false, (char*)it.first.c_str ());", "for (auto const& [file, inode] : this->file_inode_mapping)\n        this->sync_owner (inode, false, (char*)file.c_str ());"))])
R("g-debuglog", [(L, sub_(r"(std::shared_lock<std::shared_mutex> lock \(cache_command_lock\);)", r'\1\n    spdlog::debug ("[lazyfs]: locked");'))])

INJ = re.compile(r'this_ \(\)->trigger_crash_fault \("(\w+)", "(\w+)", (\w+), ([^;]*?), CLEAR\);\s*\n\s*this_ \(\)->trigger_configured_clear_fault \("\1", "\2", \3, \4\);')
R("g-inject-helper", [(L, lambda s: INJ.sub(r'faults_at ("\1", "\2", \3, \4);', s).replace("void* LazyFS::lfs_init", """void LazyFS::faults_at (const string& op, const string& timing, const string& from, const string& to) {
    this_ ()->trigger_crash_fault (op, timing, from, to, CLEAR);
    this_ ()->trigger_configured_clear_fault (op, timing, from, to);
}

void* LazyFS::lfs_init""", 1)), (H, sub_(r"(    void trigger_crash_fault)", r"    static void faults_at (const std::string& op, const std::string& timing, const std::string& from, const std::string& to);\n\1", 1))])
