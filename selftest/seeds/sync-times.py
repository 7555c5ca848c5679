PROP = "C24"
NEEDS = "a file whose access and modification times differ, then a full fsync and a look at the backing file (or a remount)"
BREAKS = "fsync gives the backing file the cached access time as its modification time"
EDITS = [("libs/libpcache/src/cache.cpp", "TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));", "TIMESPEC_TO_TIMEVAL (&times[1], &(meta->atim));")]
DEMO = '''
def times():
    with FS() as f:
        with open(f.root + "/a", "wb") as b:
            b.write(b"x" * 100)
        os.utime(f.root + "/a", (1000, 2000))
        assert f.getattr("/a").mtime == 2000
        h = f.open("/a", os.O_RDONLY)
        f.fsync(h)
        f.close(h)
        assert int(os.stat(f.root + "/a").st_mtime) == 2000

main(times)
'''
