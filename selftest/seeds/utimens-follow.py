PROP = "C07"
NEEDS = "setting the times of a symbolic link"
BREAKS = "utimens on a symbolic link changes the times of the link's target"
EDITS = [(L, 'res = utimensat (0, path, ts, AT_SYMLINK_NOFOLLOW);', 'res = utimensat (0, path, ts, 0);')]
DEMO = '''
def times():
    with FS() as f:
        f.put("/a", b"x", sync=True)
        os.utime(f.root + "/a", (1000, 1000))
        f.symlink(f.root + "/a", "/s")
        f.utimens("/s", (5, 0), (7, 0))
        assert os.lstat(f.root + "/s").st_mtime == 7
        assert os.stat(f.root + "/a").st_mtime == 1000

main(times)
'''
