PROP = "C05"
NEEDS = "symlink onto a name that already exists"
BREAKS = "an application creating a symbolic link over an existing name is told it succeeded although the backing file system refused"
EDITS = [(L, '''    res = symlink (from, to);
    if (res == -1)''', '''    res = symlink (from, to);
    if (res == -1 && errno != EEXIST)''')]
DEMO = '''
def refused():
    with FS() as f:
        f.put("/a", b"data")
        assert errno_of(f.symlink, "t", "/a") == errno.EEXIST
        f.symlink("t", "/s")
        assert f.readlink("/s") == "t"

main(refused)
'''
