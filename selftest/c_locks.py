# guarded-by: C04
M("lk-getblocks-none", "C04", [(E, '''        std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);

        int blk_id            = it->first;''', '''        int blk_id            = it->first;''')])
M("lk-alloc-shared", "C04", [(E, '''        std::unique_lock<std::shared_mutex> lock (lock_cache_mtx, std::defer_lock);

        lock.lock ();''', '''        std::shared_lock<std::shared_mutex> lock (lock_cache_mtx, std::defer_lock);

        lock.lock ();''')])
M("lk-mapping-insert", "C04", [(C, '''    lock_guard<std::shared_mutex> lock (lock_cache_mtx);
    this->file_inode_mapping[path] = inode;
''', '''    this->file_inode_mapping[path] = inode;

    lock_guard<std::shared_mutex> lock (lock_cache_mtx);
''')])
M("lk-mapping-read", "C04", [(C, '''string Cache::get_original_inode (string path) {
    lock_guard<std::shared_mutex> lock (lock_cache_mtx);
''', '''string Cache::get_original_inode (string path) {
''')])
M("lk-remove-mapping-late", "C04", [(C, '''        this->file_inode_mapping.erase (old_cid);
        this->file_inode_mapping[new_cid] = inode;

        if (has''', '''        this->file_inode_mapping.erase (old_cid);

        if (has'''), (C, '''bool Cache::rename_item (string old_cid, string new_cid) {
''', '''bool Cache::rename_item (string old_cid, string new_cid) {
    string moved = get_original_inode (old_cid);
    if (moved != "")
        this->file_inode_mapping[new_cid] = moved;
''')])
M("lk-put-item-early", "C04", [(C, '''    if (allocated_at_least_one_page) {
        item->set_data_sync_flag (false);
    }

    unlockItem (cid);
''', '''    unlockItem (cid);

    if (allocated_at_least_one_page) {
        item->set_data_sync_flag (false);
    }
''')])
M("lk-get-remove-unlocked", "C04", [(C, '''    lockItem (cid);
    lock.unlock ();

    Item* item = _get_content_ptr (cid);

    map<int, tuple<int, char*, int>> get_mapping;''', '''    lock.unlock ();

    Item* item = _get_content_ptr (cid);

    map<int, tuple<int, char*, int>> get_mapping;'''), (C, '''        cache_res.insert (
            {it.first, std::make_pair (it.second, _get_readable_offsets (cid, item, it.first))});
    }

    unlockItem (cid);
''', '''        cache_res.insert (
            {it.first, std::make_pair (it.second, _get_readable_offsets (cid, item, it.first))});
    }
''')])
M("lk-report-nolock", "C04", [(C, '''    std::lock_guard<shared_mutex> lock (lock_cache_mtx);

    std::vector<tuple<string, size_t, vector<tuple<int, pair<int, int>, int>>>> unsynced_data;
''', '''    std::vector<tuple<string, size_t, vector<tuple<int, pair<int, int>, int>>>> unsynced_data;
''')])
M("lk-find-nolock", "C04", [(C, '''    std::lock_guard<shared_mutex> lock (lock_cache_mtx);

    vector<string> res;''', '''    vector<string> res;''')])
M("lk-lru-unlocked", "C04", [(E, '''    lock_guard<mutex> lr (this->lru_management_mtx);
''', '''''', 'all')])
for n in (0, 1, 2, 4):   # the fourth is in rename_owner_pages, which nothing calls
    M("lk-scope-%d" % n, "C04", [(E, '''    std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
''', '''    { std::unique_lock<std::shared_mutex> lock (lock_cache_mtx); }
''', n)])
M("lk-sync-owner-flag", "C04", [(C, '''    if (res == 0)
        _get_content_ptr (owner)->set_data_sync_flag (true);

    if (not''', '''    unlockItem (owner);
    if (res == 0)
        _get_content_ptr (owner)->set_data_sync_flag (true);
    lockItem (owner);

    if (not''')])
for n in (0, 1, 4):
    M("lk-shared-%d" % n, "C04", [(E, '''    std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
''', '''    std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);
''', n)])
R("lk-scope-block", [(C, '''    std::lock_guard<shared_mutex> lock (lock_cache_mtx);

    vector<string> res;

    for (auto it = this->file_inode_mapping.begin (); it != this->file_inode_mapping.end (); ++it) {
        if (it->second == inode)
            res.push_back (it->first);
    }

    return res;''', '''    vector<string> res;
    {
        std::unique_lock<shared_mutex> lock (lock_cache_mtx);

        for (auto const& entry : this->file_inode_mapping)
            if (entry.second == inode)
                res.push_back (entry.first);
    }
    return res;''')])
R("lk-explicit-unlock", [(C, '''string Cache::get_original_inode (string path) {
    lock_guard<std::shared_mutex> lock (lock_cache_mtx);
    if (this->file_inode_mapping.find (path) != this->file_inode_mapping.end ()) {
        return this->file_inode_mapping.at (path);
    }
    return "";
}''', '''string Cache::get_original_inode (string path) {
    string found;
    lock_cache_mtx.lock_shared ();
    auto at = this->file_inode_mapping.find (path);
    if (at != this->file_inode_mapping.end ())
        found = at->second;
    lock_cache_mtx.unlock_shared ();
    return found;
}''')])
R("lk-unique-for-shared", [(E, '''        std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);

        int blk_id            = it->first;''', '''        std::lock_guard<std::shared_mutex> guard (lock_cache_mtx);

        int blk_id            = it->first;''')])
