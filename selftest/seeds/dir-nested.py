PROP = "C13"
NEEDS = "a renamed directory with a file and a cached file in a subdirectory, then a new file at the old path of the latter"
BREAKS = "the old path of the nested file still designates it, so a new file at that path shares its cache entry"
EDITS = [(L, '''                result->push_back (base_path);

            lfs_get_dir_filenames (base_path.c_str (), result);
''', '''                result->push_back (base_path);
            else if (result->empty ())
                lfs_get_dir_filenames (base_path.c_str (), result);
''')]
DEMO = '''
def renamed_dir():
    with FS() as f:
        for r in range(3):
            to = "/b%d" % r
            for d in ("/aa", "/aa/s", "/aa/t"):
                f.mkdir(d)
            for p in ("/aa/x", "/aa/s/y", "/aa/t/z"):
                f.put(p, b"old content of " + p.encode())
            f.rename("/aa", to)
            for d in ("/aa", "/aa/s", "/aa/t"):
                f.mkdir(d)
            for p in ("/x", "/s/y", "/t/z"):
                f.put("/aa" + p, b"new")
                got = f.get(to + p)
                assert got == b"old content of /aa" + p.encode(), (to + p, got)
                assert f.get("/aa" + p) == b"new"
            for p in ("/x", "/s/y", "/t/z"):
                f.unlink("/aa" + p)
            for d in ("/aa/s", "/aa/t", "/aa"):
                f.rmdir(d)

main(renamed_dir)
'''
