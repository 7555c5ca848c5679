M("sync-no-truncate", "C09", [(E, '''    if (ftruncate (fd, size) < 0) {
        spdlog::info ("ftruncate: failed");
        if (res == 0)
            res = -errno;
    }
''', '')])
M("sync-truncate-cond", "C09", [(E, '''    if (ftruncate (fd, size) < 0) {''', '''    if (res == 0 && !this->owner_free_pages_mapping.empty () && ftruncate (fd, size) < 0) {''')])
M("sync-clean-partial", "C09", [(E, '''if (written == streak_bytes) {''', '''if (written >= 0) {''')])
M("sync-skip-flag", "C09", [(C, '''    res = this->engine->sync_pages (owner, last_size, orig_path);
    if (res == 0)''', '''    res = this->engine->sync_pages (owner, last_size, orig_path);''')])
M("sync-break", "C09", [(E, '''                } else
                    res = written < 0 ? -errno : -EIO;

                page_streak = 0;''', '''                } else
                    res = written < 0 ? -errno : -EIO;

                if (page_chunk.size () >= (size_t)__IOV_MAX)
                    break;

                page_streak = 0;''')])
M("sync-offset", "C09", [(E, '''(current_block_id - page_streak + 1) * this->config->IO_BLOCK_SIZE;

                for''', '''(current_block_id - page_streak) * this->config->IO_BLOCK_SIZE;

                for''')])
M("sync-adjacent", "C09", [(E, '''(next_block != new_iterate_blocks.end ()) &&
                (current_block_id == (next_block->first - 1))) {''', '''(next_block != new_iterate_blocks.end ())) {''')])
M("sync-next-end", "C09", [(E, '''            if ((page_streak < (__IOV_MAX - 1)) && (next_block != new_iterate_blocks.end ()) &&
                (current_block_id == (next_block->first - 1))) {''', '''            if (page_streak < (__IOV_MAX - 1)) {''')])
M("sync-skip-clean-cond", "C09", [(E, '''            if (pptr->is_page_dirty ())
                new_iterate_blocks''', '''            if (pptr->is_page_dirty () && cit->first > 0)
                new_iterate_blocks''')])
M("sync-flag-cond", "C09", [(E, '''            if (pptr->is_page_dirty ())
                new_iterate_blocks''', '''            if (pptr->is_page_dirty () && !std::get<3> (cit->second))
                new_iterate_blocks''')])
M("sync-datasync-size", "C09", [(E, '''    if (ftruncate (fd, size) < 0) {''', '''    if (size > 0 && ftruncate (fd, size) < 0) {''')])
M("sync-wrong-owner", "C09", [(L, '''sync_owner (inode, false, (char*)path)''', '''sync_owner (path, false, (char*)path)''')])
M("sync-wrong-path", "C09", [(L, '''sync_owner (inode, false, (char*)path)''', '''sync_owner (inode, false, (char*)inode.c_str ())''')])
M("sync-only-unsynced", "C09", [(C, '''    res = this->engine->sync_pages (owner, last_size, orig_path);
    if (res == 0)''', '''    res = 0;
    if (!_get_content_ptr (owner)->is_synced () || !only_sync_data)
        res = this->engine->sync_pages (owner, last_size, orig_path);
    if (res == 0)''')])
M("sync-chunk-clear", "C09", [(E, '''                page_chunk.clear ();

                page_streak_last_offset = (current''', '''                page_streak_last_offset = (current''')])
M("sync-iov-len", "C09", [(E, '''page_ptr->allocated_block_ids.get_readable_to (streak_block) + 1;
                    } else {''', '''page_ptr->allocated_block_ids.get_readable_to (streak_block);
                    } else {''')])
R("sync-ahead-helper", [(E, '''int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
''', '''static ssize_t flush_streak (int fd, struct iovec* iov, int n, off_t at) {
    return pwritev (fd, iov, n, at);
}

int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
'''), (E, '''pwritev (fd, iov, page_streak, page_streak_last_offset);

                if''', '''flush_streak (fd, iov, page_streak, page_streak_last_offset);

                if''')])
R("sync-range-for", [(E, '''        for (auto cit = iterate_blocks.begin (); cit != iterate_blocks.end (); cit++) {
            auto pptr = std::get<1> (cit->second);
            if (pptr->is_page_dirty ())
                new_iterate_blocks.insert ({cit->first, cit->second});
        }
''', '''        for (auto const& block : iterate_blocks) {
            Page* page = std::get<1> (block.second);
            if (!page->is_page_dirty ())
                continue;
            new_iterate_blocks.insert ({block.first, block.second});
        }
''')])
R("sync-while", [(E, '''        for (auto it = new_iterate_blocks.begin (); it != new_iterate_blocks.end (); it++) {

            auto current_block_id = it->first;''', '''        auto it = new_iterate_blocks.begin ();
        while (it != new_iterate_blocks.end ()) {

            auto current_block_id = it->first;'''), (E, '''                page_streak_last_offset = (current_block_id + 1) * this->config->IO_BLOCK_SIZE;
            }
        }''', '''                page_streak_last_offset = (current_block_id + 1) * this->config->IO_BLOCK_SIZE;
            }
            ++it;
        }''')])
R("sync-plain-pwrite", [(E, '''        off_t page_streak = 0;

        auto& iterate_blocks''', '''        auto& iterate_blocks'''), (E, (lambda s: s)(""), "", 0)][:0] or [(E, '''    if (ftruncate (fd, size) < 0) {
        spdlog::info ("ftruncate: failed");
        if (res == 0)
            res = -errno;
    }
''', '''    const int truncated = ftruncate (fd, size);
    if (truncated == -1) {
        const int err = errno;
        spdlog::info ("ftruncate: failed");
        res = res != 0 ? res : -err;
    }
''')])
R("sync-early-return", [(C, '''    if (res == 0)
        _get_content_ptr (owner)->set_data_sync_flag (true);
''', '''    if (res != 0) {
        // nothing to mark
    } else {
        Item* item = _get_content_ptr (owner);
        item->set_data_sync_flag (true);
    }
''')])
R("sync-carry-flag", [(E, '''            if ((page_streak < (__IOV_MAX - 1)) && (next_block != new_iterate_blocks.end ()) &&
                (current_block_id == (next_block->first - 1))) {

                page_streak++;

                page_chunk.push_back (it->second);

            } else {

                page_streak++;

                page_chunk.push_back (it->second);
''', '''            const bool more = next_block != new_iterate_blocks.end () && current_block_id + 1 == next_block->first;

            page_streak++;
            page_chunk.push_back (it->second);

            if (!more || page_streak >= __IOV_MAX) {
''')])
M("sync-plain-when-cached", "C09", [(L, '''    if (isdatasync)
        res = is_owner_cached ?''', '''    if (isdatasync)
        res = is_owner_cached && this_ ()->FSConfig->log_all_operations ?''')])
