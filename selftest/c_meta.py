# C24: sizes and times
W_SIZE = '''            meta.size = was_written_until_offset > FILE_SIZE_BEFORE ? was_written_until_offset
                                                                    : FILE_SIZE_BEFORE;
'''
GA_MISS = '''                {"size", "atime", "ctime", "mtime", "nlinks"});'''
M("mt-write-shrinks", "C24", [(L, W_SIZE, "            meta.size = was_written_until_offset;\n")])
M("mt-write-le", "C24", [(L, W_SIZE, "            meta.size = FILE_SIZE_BEFORE;\n            if (FILE_SIZE_BEFORE == offset)\n                meta.size = was_written_until_offset;\n")])
M("mt-write-sizeonly", "C24", [(L, W_SIZE, "            meta.size = std::max ((off_t)size, FILE_SIZE_BEFORE);\n")])
M("mt-write-nogrow", "C24", [(L, '''            values_to_change.push_back ("size");

            struct timespec modify_time;
            clock_gettime (CLOCK_REALTIME, &modify_time);
            meta.mtim = modify_time;''', '''            if (offset <= FILE_SIZE_BEFORE)
                values_to_change.push_back ("size");

            struct timespec modify_time;
            clock_gettime (CLOCK_REALTIME, &modify_time);
            meta.mtim = modify_time;''')])
M("mt-write-nomtime", "C24", [(L, '''            meta.mtim = modify_time;
            values_to_change.push_back ("mtime");

            if (meta.size > FILE_SIZE_BEFORE) {
''', '''            meta.mtim = modify_time;

            if (meta.size > FILE_SIZE_BEFORE) {
                values_to_change.push_back ("mtime");
''')])
M("mt-write-skip-same", "C24", [(L, '''            this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);

            // std::printf ("\\twrite''', '''            if (res == (int)size)
                this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);

            // std::printf ("\\twrite''')])
M("mt-trunc-size", "C24", [(L, "        new_meta.size = truncate_size;\n", "        new_meta.size = std::max (truncate_size, previous_size);\n")])
M("mt-trunc-grow-only", "C24", [(L, '''        if (locked) {

            this_ ()->FSCache->update_content_metadata (inode, new_meta, values_to_change);''', '''        if (locked && truncate_size > previous_size) {

            this_ ()->FSCache->update_content_metadata (inode, new_meta, values_to_change);''')])
M("mt-trunc-nomtime", "C24", [(L, '''        new_meta.mtim = modify_time;
        values_to_change.push_back ("mtime");

        if (new_meta.size > previous_size) {''', '''        new_meta.mtim = modify_time;
        if (truncate_size < previous_size)
            values_to_change.push_back ("mtime");

        if (new_meta.size > previous_size) {''')])
M("mt-ga-stsize", "C24", [(L, "            stbuf->st_size         = get_size;\n", "            stbuf->st_size         = std::max (get_size, stbuf->st_size);\n")])
M("mt-ga-nomtime", "C24", [(L, "            stbuf->st_mtim.tv_nsec = meta->mtim.tv_nsec;\n", "")])
M("mt-ga-swap", "C24", [(L, "            stbuf->st_ctim.tv_sec  = meta->ctim.tv_sec;", "            stbuf->st_ctim.tv_sec  = meta->mtim.tv_sec;")])
M("mt-ga-nlink", "C24", [(L, "            stbuf->st_nlink        = meta->nlinks;\n", "")])
M("mt-ga-fresh-nolinks", "C24", [(L, GA_MISS, '''                {"size", "atime", "ctime", "mtime"});''')])
M("mt-ga-fresh-nosize", "C24", [(L, GA_MISS, '''                {"atime", "ctime", "mtime", "nlinks"});''')])
M("mt-ga-fresh-blocks", "C24", [(L, "            meta.size   = stbuf->st_size;\n", "            meta.size   = stbuf->st_blocks * 512;\n")])
M("mt-ga-fresh-time", "C24", [(L, "            meta.mtim   = stbuf->st_mtim;\n", "            meta.mtim   = stbuf->st_ctim;\n")])
M("mt-ga-fi", "C24", [(L, "        if (meta != nullptr) {\n\n            off_t get_size ", "        if (meta != nullptr && meta->size > 0) {\n\n            off_t get_size ")])
M("mt-ga-refresh", "C24", [(L, '''        Metadata* meta = this_ ()->FSCache->get_content_metadata (inode);

        if (meta != nullptr) {

            off_t get_size ''', '''        Metadata* meta = this_ ()->FSCache->get_content_metadata (inode);

        if (meta != nullptr && fi == NULL && stbuf->st_mtim.tv_sec > meta->mtim.tv_sec) {
            meta->size = stbuf->st_size;
            meta->mtim = stbuf->st_mtim;
        }

        if (meta != nullptr) {

            off_t get_size ''')])
M("mt-copy-swap", "C24", [("libs/libpcache/src/item/item.cpp", "oldmeta->ctim = new_meta.ctim;", "oldmeta->ctim = new_meta.mtim;")])
M("mt-copy-elif", "C24", [("libs/libpcache/src/item/item.cpp", '''        else if (str == "mtime")
            oldmeta->mtim = new_meta.mtim;''', '''        else if (str == "mtime" && new_meta.mtim.tv_sec >= oldmeta->mtim.tv_sec)
            oldmeta->mtim = new_meta.mtim;''')])
M("mt-copy-grow", "C24", [("libs/libpcache/src/item/item.cpp", '''            oldmeta->size = new_meta.size;''', '''            oldmeta->size = new_meta.size > oldmeta->size ? new_meta.size : oldmeta->size;''')])
M("mt-copy-break", "C24", [("libs/libpcache/src/item/item.cpp", '''        if (str == "size")
            oldmeta->size = new_meta.size;''', '''        if (str == "size") {
            oldmeta->size = new_meta.size;
            if (new_meta.size == 0)
                break;
        }''')])
M("mt-open-size", "C24", [(L, '''        meta.mtim = time_register;
        update_meta_values.push_back ("mtime");
    }

    bool locked''', '''        meta.mtim = time_register;
        update_meta_values.push_back ("mtime");
        update_meta_values.push_back ("size");
    }

    bool locked''')])
M("mt-utimens-swap", "C24", [(L, "            meta.atim = stats.st_atim;\n            values_to_change.push_back (\"atime\");", "            meta.atim = stats.st_mtim;\n            values_to_change.push_back (\"atime\");")])
M("mt-utimens-omit", "C24", [(L, "if (ts == NULL || ts[1].tv_nsec != UTIME_OMIT) {\n            meta.mtim", "if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT) {\n            meta.mtim")])
M("mt-utimens-mtime", "C24", [(L, '''            meta.mtim = stats.st_mtim;
            values_to_change.push_back ("mtime");
        }

        if''', '''            meta.mtim = stats.st_mtim;
        }

        if''')])
M("mt-sync-times", "C24", [("libs/libpcache/src/cache.cpp", "TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));", "TIMESPEC_TO_TIMEVAL (&times[1], &(meta->atim));")])
M("mt-sync-now", "C24", [("libs/libpcache/src/cache.cpp", "utimes (orig_path, times);", "utimes (orig_path, NULL);")])
M("mt-read-size", "C24", [(L, '''            if (old_meta != nullptr)
                meta.size = old_meta->size;
''', '''            if (old_meta != nullptr) {
                meta.size = old_meta->size;
                if (meta.size < stats.st_size)
                    old_meta->size = stats.st_size;
            }
''')])
M("mt-fsync-size", "C24", [("libs/libpcache/src/cache.cpp", "#include <sys/time.h>\n", "#include <sys/time.h>\n#include <sys/stat.h>\n"),
                           ("libs/libpcache/src/cache.cpp", '''    off_t last_size = get_content_metadata (owner)->size;
''', '''    off_t last_size = get_content_metadata (owner)->size;
    struct stat st;
    if (stat (orig_path, &st) == 0 && st.st_size > last_size)
        get_content_metadata (owner)->size = last_size = st.st_size;
''')])
M("mt-chmod-mtime", "C24", [(L, '''    res = chmod (path, mode);
''', '''    res = chmod (path, mode);
    string ino = this_ ()->FSCache->get_original_inode (path);
    if (this_ ()->FSCache->lockItemCheckExists (ino)) {
        Metadata m;
        clock_gettime (CLOCK_REALTIME, &m.mtim);
        this_ ()->FSCache->update_content_metadata (ino, m, {"mtime"});
        this_ ()->FSCache->unlockItem (ino);
    }
''')])
M("mt-utimens-notsize", "C24", [(L, '''        meta.ctim = stats.st_ctim;
        values_to_change.push_back ("ctime");

        if (ts == NULL''', '''        meta.ctim = stats.st_ctim;
        values_to_change.push_back ("ctime");
        meta.size = stats.st_size;
        values_to_change.push_back ("size");

        if (ts == NULL''')])
R("mt-r-list", [(L, '''            vector<string> values_to_change;
            values_to_change.push_back ("size");

            struct timespec modify_time;
            clock_gettime (CLOCK_REALTIME, &modify_time);
            meta.mtim = modify_time;
            values_to_change.push_back ("mtime");
''', '''            struct timespec modify_time;
            clock_gettime (CLOCK_REALTIME, &modify_time);
            meta.mtim = modify_time;

            vector<string> values_to_change = {"size", "mtime"};
''')])
R("mt-r-max", [(L, W_SIZE, "            meta.size = std::max (was_written_until_offset, FILE_SIZE_BEFORE);\n")])
R("mt-r-if", [(L, W_SIZE, "            meta.size = FILE_SIZE_BEFORE;\n            if (was_written_until_offset > meta.size)\n                meta.size = was_written_until_offset;\n")])
R("mt-r-ga-struct", [(L, '''            stbuf->st_atim.tv_nsec = meta->atim.tv_nsec;
            stbuf->st_atim.tv_sec  = meta->atim.tv_sec;
''', '''            stbuf->st_atim = meta->atim;
''')])
R("mt-r-ga-direct", [(L, "            stbuf->st_size         = get_size;\n", "            stbuf->st_size         = meta->size;\n")])
R("mt-r-ga-early", [(L, '''    } else if (locked) {

        /*''', '''    } else {

        /*''')])
R("mt-r-copy", [("libs/libpcache/src/item/item.cpp", "    for (auto const& str : values_to_update) {\n", "    for (size_t i = 0; i < values_to_update.size (); i++) {\n\n        const string& str = values_to_update[i];\n")])
R("mt-r-helper", [(L, '''        struct timespec modify_time;
        clock_gettime (CLOCK_REALTIME, &modify_time);
        new_meta.mtim = modify_time;''', '''        auto now_ts = [] () {
            struct timespec t;
            clock_gettime (CLOCK_REALTIME, &t);
            return t;
        };
        struct timespec modify_time = now_ts ();
        new_meta.mtim = modify_time;''')])
R("mt-r-utimens", [(L, '''        if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT) {
            meta.atim = stats.st_atim;''', '''        const bool set_atime = ts == NULL || ts[0].tv_nsec != UTIME_OMIT;
        if (set_atime) {
            meta.atim = stats.st_atim;''')])
R("mt-r-trunc", [(L, '''        bool locked = this_ ()->FSCache->lockItemCheckExists (inode);

        if (locked) {

            this_ ()->FSCache->update_content_metadata (inode, new_meta, values_to_change);
            this_ ()->FSCache->unlockItem (inode);
        }
    }

    if (res == -1)''', '''        if (!this_ ()->FSCache->lockItemCheckExists (inode)) {
            // nothing cached
        } else {
            this_ ()->FSCache->update_content_metadata (inode, new_meta, values_to_change);
            this_ ()->FSCache->unlockItem (inode);
        }
    }

    if (res == -1)''')])

M("mt-ga-int", "C24", [(L, "            off_t get_size            = meta->size;", "            int get_size              = meta->size;")])
M("mt-write-uint", "C24", [(L, "            off_t was_written_until_offset = offset + size;", "            unsigned was_written_until_offset = offset + size;")])
M("mt-trunc-param", "C24", [("libs/libpcache/src/cache.cpp", "truncate_item (string owner, off_t new_size)", "truncate_item (string owner, int new_size)"),
                            ("libs/libpcache/include/cache/cache.hpp", "truncate_item (string owner, off_t new_size)", "truncate_item (string owner, int new_size)")])
R("mt-r-auto", [(L, "            off_t get_size            = meta->size;", "            auto get_size             = meta->size;")])
