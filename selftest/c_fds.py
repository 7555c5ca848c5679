# descriptor ownership: C23
M("fd-write-noclose", "C23", [(L, '''        close (fd_caching);
''', '')])
M("fd-readdir-noclose", "C23", [(L, '''    closedir (dp);
''', '')])
M("fd-read-eof", "C23", [(L, '''            close (fd);
''', '', 'all')])
M("fd-read-close-always", "C23", [(L, '''    if (fi == NULL)
        close (fd);
''', '''    close (fd);
''', 'all')])
M("fd-sync-early", "C23", [(E, '''    close (fd);
''', '''    if (res == 0)
        close (fd);
''', 'all')])
M("fd-split-noclose", "C23", [(L, '''                            close (fd);
                            return res;''', '''                            return res;''')])
M("fd-split-close-twice", "C23", [(L, '''                            close (fd);
                            return res;''', '''                            close (fd);
                            break;''')])
M("fd-open-noclose", "C23", [(L, '''            close (fi->fh);
''', '')])
M("fd-trunc-buf", "C23", [(L, '''        free (buf);
''', '''        if (r == add_bytes_total)
            free (buf);
''')])
M("fd-fill-free", "C23", [(L, '''                    free (fill_zeros);
''', '')])

M("fd-sync-before", "C23", [(E, '''    close (fd);
''', '', 'all')])
M("fd-close-early", "C23", [(E, '''    if (ftruncate (fd, size) < 0) {''', '''    close (fd);
    if (ftruncate (fd, size) < 0) {''')])
R("fd-guard-class", [(E, '''int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
''', '''static int open_backing (const char* at) {
    int fd = open (at, O_WRONLY);
    return fd;
}

static void done_with (int fd) { close (fd); }

int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
'''), (E, '''    int fd  = open (orig_path, O_WRONLY);''', '''    int fd  = open_backing (orig_path);'''), (E, '''    close (fd);

    return res;''', '''    done_with (fd);

    return res;''')])
R("fd-opened-here", [(L, '''    int fd;
    int res;

    if (fi == NULL)
        fd = open (path, O_RDONLY);
    else
        fd = fi->fh;

    if (fd == -1)
        return -errno;

    std::string OWNER (path);''', '''    int res;

    const bool own = fi == NULL;
    const int fd   = own ? open (path, O_RDONLY) : (int)fi->fh;

    if (fd < 0)
        return -errno;

    std::string OWNER (path);'''), (L, '''    if (fi == NULL)
        close (fd);

    lock.unlock ();

    this_ ()->trigger_crash_fault ("read"''', '''    if (own)
        close (fd);

    lock.unlock ();

    this_ ()->trigger_crash_fault ("read"''')])
M("fd-release-none", "C23", [(L, '''    close (fi->fh);

    return 0;''', '''    return 0;''')])
