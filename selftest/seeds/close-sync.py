PROP = "C08"
NEEDS = "a file opened for appending is written and closed, then the cache is cleared"
BREAKS = "closing a file that was opened with O_APPEND writes its unsynced data to the backing file, so it survives a simulated power failure"
EDITS = [(L, '''    (void)path;

    close (fi->fh);

    return 0;''', '''    string inode = this_ ()->FSCache->get_original_inode (path);
    if ((fi->flags & O_APPEND) && this_ ()->FSCache->has_content_cached (inode))
        this_ ()->FSCache->sync_owner (inode, true, (char*)path);

    close (fi->fh);

    return 0;''')]
DEMO = '''
def close_is_lazy():
    with FS() as f:
        f.put("/a", b"0123", sync=True)
        h = f.open("/a", os.O_WRONLY | os.O_APPEND)
        f.write(h, 4, b"more")
        f.close(h)
        assert f.get("/a") == b"0123more"
        assert f.backing("/a") == b"0123", f.backing("/a")
        f.clear()
        assert f.get("/a") == b"0123"

main(close_is_lazy)
'''
