# breakages of the operations themselves (C01-C08)
def aft(op, a):
    return '    lock.unlock ();\n\n    this_ ()->trigger_crash_fault ("%s", "after", %s, CLEAR);' % (op, a)


# ---- C02
M("op-chmod-nolock", "C02", [(L, '''int LazyFS::lfs_chmod (const char* path, mode_t mode, struct fuse_file_info* fi) {

    std::shared_lock<std::shared_mutex> lock (cache_command_lock);''', '''int LazyFS::lfs_chmod (const char* path, mode_t mode, struct fuse_file_info* fi) {''')])
M("op-unlink-late-lock", "C02", [(L, '''    res = unlink (path);

    if (res == -1)
        return -errno;
''', '''    lock.unlock ();
    res = unlink (path);

    if (res == -1)
        return -errno;
    lock.lock ();
''')])
M("op-getattr-early-unlock", "C02", [(L, '''    if (not S_ISREG (stbuf->st_mode))
        return 0;
''', '''    lock.unlock ();
    if (not S_ISREG (stbuf->st_mode))
        return 0;
''')])
M("op-write-norelock", "C02", [(L, '''                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
                    lock.lock ();
''', '''                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
''')])
M("op-trunc-keeplock", "C02,C03", [(L, '''        lock.unlock ();
        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
        lock.lock ();
''', '''        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
''')])
M("op-checkpoint-shared", "C02", [(L, '''void LazyFS::command_checkpoint () {

    std::unique_lock<std::shared_mutex> lock (cache_command_lock);''', '''void LazyFS::command_checkpoint () {

    std::shared_lock<std::shared_mutex> lock (cache_command_lock);''')])
# ---- C03
M("op-trunc-item-locked", "C03", [(C, '''            item->get_data ()->remove_all_blocks ();
        }

        unlockItem (owner);
        return true;''', '''            item->get_data ()->remove_all_blocks ();
            unlockItem (owner);
        }

        return true;''')])
M("op-remove-locked", "C03", [(C, '''    if (!is_from_cache && before_nlinks > 1) {

        unlockItem (owner);
        lock.unlock ();''', '''    if (!is_from_cache && before_nlinks > 1) {

        lock.unlock ();''')])
M("op-rename-locked", "C03", [(C, '''                if (before_nlinks > 1) {

                    unlockItem (to_remove_inode);
                    return return_val;''', '''                if (before_nlinks > 1) {

                    return return_val;''')])
M("op-put-order", "C03", [(C, '''    lockItem (cid);
    lock.unlock ();

    for (auto const& it : blocks) {

        int bid ''', '''    lock.unlock ();
    lockItem (cid);
    lock.lock ();
    lock.unlock ();

    for (auto const& it : blocks) {

        int bid ''')])
M("op-pending-locked", "C03", [(L, '''                        (this->write_lock).unlock();
                        return res;''', '''                        return res;''')])
M("op-getattr-double", "C03", [(L, '''            this_ ()->FSCache->update_content_metadata (
                inode,
                meta,
                {"size", "atime", "ctime", "mtime", "nlinks"});
''', '''            if (!this_ ()->FSCache->is_block_cached (inode, 0))
                this_ ()->FSCache->update_content_metadata (
                    inode,
                    meta,
                    {"size", "atime", "ctime", "mtime", "nlinks"});
''')])
M("op-write-itemlock", "C03", [(L, '''            if (meta.size > FILE_SIZE_BEFORE) {

                meta.ctim = modify_time;''', '''            if (meta.size > FILE_SIZE_BEFORE) {

                this_ ()->FSCache->lockItemCheckExists (inode);
                meta.ctim = modify_time;''')])
# ---- C05
M("op-mkdir-exist", "C05", [(L, '''    res = mkdir (path, mode);
    if (res == -1)
        return -errno;''', '''    res = mkdir (path, mode);
    if (res == -1 && errno != EEXIST)
        return -errno;''')])
M("op-unlink-errno-late", "C05", [(L, '''    res = unlink (path);

    if (res == -1)
        return -errno;
''', '''    res = unlink (path);

    if (res == -1) {
        is_file = lstat (path, &stats) == 0;
        return -errno;
    }
''')])
M("op-rmdir-eio", "C05", [(L, '''    res = rmdir (path);
    if (res == -1)
        return -errno;''', '''    res = rmdir (path);
    if (res == -1)
        return errno == ENOTEMPTY ? -ENOTEMPTY : -EIO;''')])
M("op-access-einval", "C05", [(L, '''    res = access (path, mask);
    if (res == -1)
        return -errno;''', '''    res = access (path, mask);
    if (res == -1)
        return -EACCES;''')])
M("op-readdir-null", "C05", [(L, '''    dp = opendir (path);
    if (dp == NULL)
        return -errno;''', '''    dp = opendir (path);
    if (dp == NULL)
        return errno == EACCES ? 0 : -errno;''')])
M("op-read-partial", "C05", [(L, '''    if (pread_error != 0)
        res = -pread_error;''', '''    if (pread_error != 0 && BUF_ITERATOR == 0)
        res = -pread_error;''')])
M("op-read-mid", "C05", [(L, '''                if (pread_res < 0) {
                    pread_error           = errno;''', '''                if (pread_res < 0) {
                    pread_error           = 0;''')])
M("op-write-pre", "C05", [(L, "                        // We assume that the file is not reachable\n\n                        res = -errno;\n", "\n", 0)])
M("op-write-short", "C10", [(L, '''                    if (pwrite_res != (blk_readable_to - blk_readable_from + 1)) {
                        res = pwrite_res < 0 ? -errno : -EIO;''', '''                    if (pwrite_res < 0) {
                        res = -errno;''')])
M("op-fsync-positive", "C05", [(L, '''    if (!is_owner_cached && res == -1)
        res = -errno;
''', '''''')])
M("op-fsync-cached", "C05", [(C, '''    unlockItem (owner);

    return res;
}

bool Cache::rename_item''', '''    unlockItem (owner);

    return only_sync_data ? res : 0;
}

bool Cache::rename_item''')])
M("op-sync-open", "C05", [(E, '''    if (fd < 0)
        return -errno;
''', '''    if (fd < 0)
        return 0;
''')])
M("op-sync-ftrunc", "C05", [(E, '''        if (res == 0)
            res = -errno;''', '''        if (res != 0)
            res = -errno;''')])
M("op-trunc-errno", "C05", [(L, '''    if (res == -1)
        return -errno;

    lock.unlock ();

    this_ ()->trigger_crash_fault ("truncate", "after"''', '''    if (res == -1)
        res = -errno;

    lock.unlock ();

    this_ ()->trigger_crash_fault ("truncate", "after"''')])
M("op-readlink-range", "C05", [(L, '''    res = readlink (path, buf, size - 1);
    if (res == -1)
        return -errno;
''', '''    res = readlink (path, buf, size - 1);
    if (res == -1)
        res = 0;
''')])
M("op-direct", "C05", [(L, '''        res = pwrite (fd, buf, size, offset);
        if (res == -1)
            res = -errno;
''', '''        res = pwrite (fd, buf, size, offset);
''')])
# ---- C06
M("op-link-mapfirst", "C06", [(L, '''    res = link (from, to);

    if (res == -1)
        return -errno;
''', '''    if (!this_ ()->FSCache->get_original_inode (from).empty () && access (to, F_OK) != 0)
        this_ ()->FSCache->insert_inode_mapping (to, this_ ()->FSCache->get_original_inode (from), false);
    res = link (from, to);

    if (res == -1)
        return -errno;
''')])
M("op-unlink-enoent", "C06", [(L, '''    res = unlink (path);

    if (res == -1)
        return -errno;
''', '''    res = unlink (path);

    if (res == -1) {
        int err = errno;
        if (err == ENOENT || err == EBUSY)
            this_ ()->FSCache->remove_cached_item (this_ ()->FSCache->get_original_inode (path), path, false);
        return -err;
    }
''')])
M("op-rename-enotempty", "C06", [(L, '''    res = rename (from, to);

    if (res == -1)
        return -errno;
''', '''    res = rename (from, to);

    if (res == -1) {
        int err = errno;
        if (err == ENOENT)
            this_ ()->FSCache->rename_item (last_owner, new_owner);
        return -err;
    }
''')])
M("op-create-early", "C06", [(L, '''    res = open (path, fi->flags, mode);

    if (res == -1)
        return -errno;
''', '''    res = open (path, fi->flags, mode);

    if (res == -1) {
        int err = errno;
        this_ ()->FSCache->remove_cached_item (this_ ()->FSCache->get_original_inode (path), path, false);
        return -err;
    }
''')])
M("op-getattr-stale", "C06", [(L, '''    res = lstat (path, stbuf);

    if (res == -1)
        return -errno;
''', '''    res = lstat (path, stbuf);

    if (res == -1) {
        int err = errno;
        if (err == ENOENT)
            this_ ()->FSCache->remove_cached_item (this_ ()->FSCache->get_original_inode (content_owner), path, false);
        return -err;
    }
''')])
M("op-open-trunc-first", "C06", [(L, '''    res = open (path, access_tmp);

    if (res == -1)
        return -errno;
''', '''    if (fi->flags & O_TRUNC)
        this_ ()->FSCache->truncate_item (this_ ()->FSCache->get_original_inode (path), 0);
    res = open (path, access_tmp);

    if (res == -1)
        return -errno;
''')])
# ---- C07
M("op-mkdir-mode", "C07", [(L, "res = mkdir (path, mode);", "res = mkdir (path, mode & 0777);")])
M("op-chown-follow", "C07", [(L, "res = lchown (path, uid, gid);", "res = chown (path, uid, gid);")])
M("op-chown-gid", "C07", [(L, "res = lchown (path, uid, gid);", "res = lchown (path, uid, uid == (uid_t) -1 ? gid : uid);")])
M("op-chmod-skip", "C07", [(L, "    res = chmod (path, mode);\n", "    res = 0;\n    if (!fi)\n        res = chmod (path, mode);\n")])
M("op-readdir-hidden", "C07", [(L, '''    while ((de = readdir (dp)) != NULL) {
''', '''    while ((de = readdir (dp)) != NULL) {
        if (strncmp (de->d_name, ".fuse", 5) == 0)
            continue;
''')])
M("op-access-mask", "C07", [(L, "res = access (path, mask);", "res = access (path, mask & ~W_OK);")])
M("op-create-flags", "C07", [(L, "res = open (path, fi->flags, mode);", "res = open (path, fi->flags & ~O_EXCL, mode);")])
M("op-open-ro", "C07", [(L, "res = open (path, access_tmp);", "res = open (path, access_tmp & ~O_APPEND);")])
M("op-rename-noop", "C07", [(L, '''    res = rename (from, to);

    if (res == -1)
        return -errno;
''', '''    if (same_file)
        return 0;
    res = rename (from, to);

    if (res == -1)
        return -errno;
''')])
M("op-readlink-full", "C07", [(L, "res = readlink (path, buf, size - 1);", "res = readlink (path, buf, size);")])
M("op-utimens-now", "C07", [(L, "res = utimensat (0, path, ts, AT_SYMLINK_NOFOLLOW);", "res = utimensat (0, path, ts[0].tv_nsec == UTIME_NOW ? NULL : ts, AT_SYMLINK_NOFOLLOW);")])
M("op-link-follow", "C07", [(L, "res = link (from, to);", "res = linkat (AT_FDCWD, from, AT_FDCWD, to, AT_SYMLINK_FOLLOW);")])
M("op-release-noclose", "C07,C23", [(L, '''    (void)path;

    close (fi->fh);''', '''    (void)path;
    if (fi->flags & O_ACCMODE)
        close (fi->fh);''')])
M("op-symlink-swapped", "C07", [(L, "res = symlink (from, to);", "res = symlink (to, from);")])
M("op-rename-replace", "C07", [(L, "    res = rename (from, to);\n", "    if (to_exists)\n        unlink (to);\n    res = rename (from, to);\n")])
M("op-attr-timeout", "C07", [(L, "cfg->attr_timeout     = 0;", "cfg->attr_timeout     = 1;")])
M("op-utimes-open", "C07", [(L, '''    fi->fh = res;

    struct stat st;
''', '''    fi->fh = res;
    utimensat (0, path, NULL, AT_SYMLINK_NOFOLLOW);

    struct stat st;
''')])
# ---- C08
M("op-release-sync", "C08", [(L, '''    (void)path;

    close (fi->fh);''', '''    if (fi->flags & O_SYNC)
        this_ ()->FSCache->sync_owner (this_ ()->FSCache->get_original_inode (path), true, (char*) path);
    close (fi->fh);''')])
M("op-open-otrunc", "C08", [(L, "int access_tmp = fi->flags & ~O_TRUNC;", "int access_tmp = fi->flags;")])
M("op-trunc-backing", "C08", [(L, '''        this_ ()->FSCache->truncate_item (inode, truncate_size);
''', '''        this_ ()->FSCache->truncate_item (inode, truncate_size);
        if (truncate_size == 0)
            res = truncate (path, 0);
''')])
M("op-rename-sync", "C08", [(L, '''        this_ ()->FSCache->rename_item (last_owner, new_owner);
''', '''        this_ ()->FSCache->sync_owner (inode, true, (char*) to);
        this_ ()->FSCache->rename_item (last_owner, new_owner);
''')])
M("op-unlink-trunc", "C08", [(L, '''    res = unlink (path);

    if (res == -1)''', '''    if (is_file && stats.st_nlink == 1)
        truncate (path, 0);
    res = unlink (path);

    if (res == -1)''')])
M("op-write-through", "C08", [(L, '''                        if (cache_full ||
                            (!curr_block''', '''                        if (cache_full || pread_res == 0 ||
                            (!curr_block''')])
M("op-read-back", "C08", [(L, '''    bool cache_had_owner = this_ ()->FSCache->has_content_cached (inode);

    Metadata meta;''', '''    bool cache_had_owner = this_ ()->FSCache->has_content_cached (inode);
    if (fi != NULL && fi->direct_io)
        this_ ()->FSCache->sync_owner (inode, true, (char*) path);

    Metadata meta;''')])
M("op-create-trunc", "C08", [(L, '''    this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);''', '''    if (ftruncate (fi->fh, 0) < 0) spdlog::info ("failed");
    this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);''')])
M("op-fsync-others", "C08", [(L, '''    lock.unlock ();

    this_ ()->trigger_crash_fault ("fsync", "after"''', '''    if (!isdatasync)
        this_ ()->FSCache->full_checkpoint ();
    lock.unlock ();

    this_ ()->trigger_crash_fault ("fsync", "after"''')])
