PROP = "C13"
NEEDS = "two hard-linked files used after the cache was cleared, so that their paths have to be looked up again"
BREAKS = "paths of files with several names are not given an identity, so all such files share one cache entry and read each other's data"
EDITS = [(L, '''        inode = to_string (stbuf->st_ino);
        this_ ()->FSCache->insert_inode_mapping (content_owner, inode, false);
''', '''        inode = to_string (stbuf->st_ino);
        if (stbuf->st_nlink == 1)
            this_ ()->FSCache->insert_inode_mapping (content_owner, inode, false);
''')]
DEMO = '''
def linked_files_are_distinct():
    with FS() as f:
        for n in "ab":
            h = f.create("/" + n); f.write(h, 0, n.encode() * 5000); f.fsync(h); f.close(h)
            f.link("/" + n, "/" + n + "2")
        f.clear()
        ha, hb = f.open("/a"), f.open("/b")
        f.write(ha, 0, b"x" * 100)
        f.write(hb, 0, b"y" * 100)
        got = f.read(ha, 0, 100)
        assert got == b"x" * 100, got[:10]
        f.close(ha); f.close(hb)

main(linked_files_are_distinct)
'''
