PROP = "C02"
NEEDS = "a mkdir issued while the checkpoint command is writing to the backing file system"
BREAKS = "mkdir no longer takes part in the exclusion between operations and cache commands: it completes in the middle of a running command"
EDITS = [(L, '''int LazyFS::lfs_mkdir (const char* path, mode_t mode) {

    std::shared_lock<std::shared_mutex> lock (cache_command_lock);
''', '''int LazyFS::lfs_mkdir (const char* path, mode_t mode) {
''')]
DEMO = '''
def mkdir_waits():
    with FS() as f:
        f.put("/a", b"0123")
        n = f.node("/")
        os.unlink(f.root + "/a")
        os.mkfifo(f.root + "/a")            # the checkpoint blocks when it opens this
        f.cmd("lazyfs::cache-checkpoint")
        time.sleep(0.5)
        t = threading.Thread(target=lambda: errno_of(f.req, MKDIR, 1, struct.pack("<II", 0o755, 0) + b"d\\0"), daemon=True)
        t.start()
        t.join(1.0)
        during = os.path.exists(f.root + "/d")
        r = os.open(f.root + "/a", os.O_RDWR)      # lets the checkpoint go on
        t.join(5)
        os.close(r)
        assert not during, "mkdir took effect while the checkpoint was running"

main(mkdir_waits)
'''
