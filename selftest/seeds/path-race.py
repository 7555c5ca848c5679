PROP = "C04"
NEEDS = "one thread looks up a file while another creates or renames one"
BREAKS = "the table of paths is searched without its lock, so a concurrent insertion (rehash) can make the lookup read freed memory"
EDITS = [(C, '''string Cache::get_original_inode (string path) {
    lock_guard<std::shared_mutex> lock (lock_cache_mtx);
    if (this->file_inode_mapping.find (path) != this->file_inode_mapping.end ()) {
        return this->file_inode_mapping.at (path);
    }
    return "";
''', '''string Cache::get_original_inode (string path) {
    auto entry = this->file_inode_mapping.find (path);
    if (entry == this->file_inode_mapping.end ())
        return "";
    lock_guard<std::shared_mutex> lock (lock_cache_mtx);
    return entry->second;
''')]
DEMO = r'''
import os, subprocess, sys, tempfile

SRC = """
#include <cache/cache.hpp>
#include <cache/config/config.hpp>
#include <cache/engine/backends/custom/custom_cache.hpp>
#include <thread>
#include <vector>
#include <string>
using namespace cache;
int main () {
    static char buf[4096];
    cache::config::Config cfg (4096, 4096, 64);
    cache::engine::backends::custom::CustomCacheEngine eng (&cfg);
    Cache c (&cfg, &eng);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++)
        ts.emplace_back ([&, t] {
            std::string id = std::to_string (1000 + t);
            for (int i = 0; i < 40; i++) {
                std::map<int, std::tuple<const char*, size_t, int, int>> b;
                b[i % 10] = std::make_tuple ((const char*)buf, (size_t)4096, 0, 4095);
                c.put_data_blocks (id, b, cache::engine::OP_WRITE);
                c.insert_inode_mapping ("/f" + id + "_" + std::to_string (i), id, false);
                c.get_original_inode ("/f" + id + "_3");
                if (i % 10 == 9)
                    c.remove_cached_item (id, "/none", true);
            }
        });
    for (auto& t : ts) t.join ();
    return 0;
}
"""
R = os.getcwd() + "/libs/libpcache"
with tempfile.TemporaryDirectory(prefix="lfsdemo_") as d:
    open(d + "/m.cpp", "w").write(SRC)
    srcs = [os.path.join(r, f) for r, _, fs in os.walk(R + "/src") for f in fs if f.endswith(".cpp")]
    inc = ["-I" + R + "/include", "-I/opt/vp/cmake/toml11", "-I/opt/vp/cmake/toml11/include"]
    defs = ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL"]
    ps = []
    for i, s in enumerate(srcs + [d + "/m.cpp"]):
        ps.append(subprocess.Popen(["g++", "-std=c++17", "-g", "-O1", "-fsanitize=thread", "-c", s, "-o", "%s/o%d.o" % (d, i)] + inc + defs))
    for p in ps:
        assert p.wait() == 0, "compile"
    subprocess.check_call(["g++", "-fsanitize=thread", "-o", d + "/m"] + ["%s/o%d.o" % (d, i) for i in range(len(ps))] + ["-lspdlog", "-lfmt", "-lpthread"])
    for k in range(5):
        r = subprocess.run(["setarch", "-R", d + "/m"], capture_output=True, text=True, env=dict(os.environ, TSAN_OPTIONS="exitcode=66"))
        if r.returncode and "personality" in r.stderr:
            r = subprocess.run([d + "/m"], capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[:3000])
            sys.exit(1)
print("no race")
'''
