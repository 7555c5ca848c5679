M("trig-unlink-after-missing", "C01", [(L, '''    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
''', "")])
M("trig-link-wrong-op", "C01", [(L, '''trigger_crash_fault ("link", "after", from, to, CLEAR)''', '''trigger_crash_fault ("symlink", "after", from, to, CLEAR)''')])
M("trig-rename-swapped", "C01", [(L, '''trigger_crash_fault ("rename", "before", from, to, CLEAR)''', '''trigger_crash_fault ("rename", "before", to, from, CLEAR)''')])
M("trig-read-eof", "C01", [(L, '''        lock.unlock ();

        this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
        this_ ()->trigger_configured_clear_fault ("read", "after", path, "");

        return 0;
''', '''        return 0;
''')])
M("trig-fsync-order", "C01", [(L, '''    std::shared_lock<std::shared_mutex> lock (cache_command_lock);

    struct stat stats;
    lfs_getattr (path, &stats, fi);

    if (this_ ()->FSConfig->log_all_operations) {
        spdlog::info ("[lazyfs.ops]: {}(path={},isdatasync={})", __FUNCTION__, path, isdatasync);
    }
''', '''    std::shared_lock<std::shared_mutex> lock (cache_command_lock);
    struct stat stats;

    if (this_ ()->FSConfig->log_all_operations) {
        spdlog::info ("[lazyfs.ops]: {}(path={},isdatasync={})", __FUNCTION__, path, isdatasync);
    }
'''), (L, '''    this_ ()->trigger_crash_fault ("fsync", "before", path, "", CLEAR);
    this_ ()->trigger_configured_clear_fault ("fsync", "before", path, "");
''', '''    { struct stat st0; lfs_getattr (path, &st0, fi); }
    this_ ()->trigger_crash_fault ("fsync", "before", path, "", CLEAR);
    this_ ()->trigger_configured_clear_fault ("fsync", "before", path, "");
''')])
M("trig-timing", "C01", [(L, '''trigger_configured_clear_fault ("access", "after", path, "")''', '''trigger_configured_clear_fault ("access", "before", path, "")''')])
M("trig-access-after-early", "C01", [(L, '''    res = access (path, mask);
    if (res == -1)
        return -errno;

    lock.unlock ();

    this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
''', '''    lock.unlock ();

    this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
    res = access (path, mask);
    if (res == -1)
        return -errno;

''')])
R("trig-helper", [(L, '''void LazyFS::add_crash_fault (string crash_timing,''', '''static void fire (LazyFS* l, const char* op, const char* when, const char* a, const char* b) {
    l->trigger_crash_fault (op, when, a, b, CLEAR);
    l->trigger_configured_clear_fault (op, when, a, b);
}

void LazyFS::add_crash_fault (string crash_timing,'''),
 (L, '''    this_ ()->trigger_crash_fault ("unlink", "before", path, "", CLEAR);
    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
''', '''    fire (this_ (), "unlink", "before", path, "");
'''), (L, '''    this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
''', '''    fire (this_ (), "unlink", "after", path, "");
''')])
R("single-exit-link", [(L, '''    res = link (from, to);

    if (res == -1)
        return -errno;

    string inode = this_ ()->FSCache->get_original_inode (from);

    // the file can be cached although this name of it is not mapped yet
    struct stat stats;
    if (inode.empty () && lstat (to, &stats) == 0 && S_ISREG (stats.st_mode))
        inode = to_string (stats.st_ino);

    if (!inode.empty ())
        this_ ()->FSCache->insert_inode_mapping (to, inode, true);

    lock.unlock ();

    this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
    this_ ()->trigger_configured_clear_fault ("link", "after", from, to);

    return 0;
''', '''    res = link (from, to) == -1 ? -errno : 0;

    if (res == 0) {
        string inode = this_ ()->FSCache->get_original_inode (from);

        // the file can be cached although this name of it is not mapped yet
        struct stat stats;
        if (inode.empty () && lstat (to, &stats) == 0 && S_ISREG (stats.st_mode))
            inode = to_string (stats.st_ino);

        if (!inode.empty ())
            this_ ()->FSCache->insert_inode_mapping (to, inode, true);

        lock.unlock ();

        this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
        this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
    }

    return res;
''')])
R("raii-block-access", [(L, '''    std::shared_lock<std::shared_mutex> lock (cache_command_lock);

    if (this_ ()->FSConfig->log_all_operations) {
        spdlog::info ("[lazyfs.ops]: {}(path={})", __FUNCTION__, path);
    }

    int res;

    res = access (path, mask);
    if (res == -1)
        return -errno;

    lock.unlock ();
''', '''    {
        std::shared_lock<std::shared_mutex> guard (cache_command_lock);

        if (this_ ()->FSConfig->log_all_operations)
            spdlog::info ("[lazyfs.ops]: {}(path={})", __FUNCTION__, path);

        if (access (path, mask) != 0)
            return -errno;
    }
''')])
