PROP = "C06"
NEEDS = "link onto a name that already exists and has unsynced data in the cache"
BREAKS = "the destination path is redirected to the source's cached file before the backing link is attempted; when link fails the cached link count is wrong and removing the file no longer drops it"
EDITS = [(L, '''    res = link (from, to);

    if (res == -1)
        return -errno;

    string inode = this_ ()->FSCache->get_original_inode (from);
''', '''    string inode = this_ ()->FSCache->get_original_inode (from);
    if (!inode.empty ())
        this_ ()->FSCache->insert_inode_mapping (to, inode, true);

    res = link (from, to);

    if (res == -1)
        return -errno;

    if (!inode.empty ()) {
        lock.unlock ();
        this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
        this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
        return 0;
    }
''')]
DEMO = '''
def failed_link():
    with FS() as f:
        f.put("/a", b"aaaa")
        f.put("/b", b"bbbbbb")
        assert errno_of(f.link, "/a", "/b") == errno.EEXIST
        assert f.getattr("/a").nlink == 1, f.getattr("/a").nlink

main(failed_link)
'''
