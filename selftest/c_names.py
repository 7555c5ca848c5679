# path identity: C13, discards: C12
L = "lazyfs/src/lazyfs.cpp"
C = "libs/libpcache/src/cache.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
D = "libs/libpcache/src/item/data.cpp"

# --- C13
M("na-getattr-nomap", "C13", [(L, '''        inode = to_string (stbuf->st_ino);
        this_ ()->FSCache->insert_inode_mapping (content_owner, inode, false);
''', '''        inode = to_string (stbuf->st_ino);
''')])
M("na-getattr-nlink", "C13", [(L, '''        inode = to_string (stbuf->st_ino);
        this_ ()->FSCache->insert''', '''        inode = to_string (stbuf->st_ino);
        if (stbuf->st_nlink == 1)
            this_ ()->FSCache->insert''')])
M("na-getattr-path", "C13", [(L, '''        inode = to_string (stbuf->st_ino);
        this_ ()->FSCache->insert_inode_mapping (content_owner, inode, false);
''', '''        inode = to_string (stbuf->st_ino);
        this_ ()->FSCache->insert_inode_mapping (content_owner, content_owner, false);
''')])
M("na-getattr-remap", "C13", [(L, '''    bool locked = this_ ()->FSCache->lockItemCheckExists (inode);

    if (!locked) {

        this_''', '''    this_ ()->FSCache->insert_inode_mapping (content_owner, to_string (stbuf->st_ino), false);

    bool locked = this_ ()->FSCache->lockItemCheckExists (inode);

    if (!locked) {

        this_''')])
M("na-link-swap", "C13", [(L, "this_ ()->FSCache->insert_inode_mapping (to, inode, true);", "this_ ()->FSCache->insert_inode_mapping (from, inode, true);")])
M("na-link-tomap", "C13", [(L, '''    if (!inode.empty ())
        this_ ()->FSCache->insert_inode_mapping (to, inode, true);''', '''    if (!inode.empty () && this_ ()->FSCache->get_original_inode (to).empty ())
        this_ ()->FSCache->insert_inode_mapping (to, inode, true);''')])
M("na-rename-noerase", "C13", [(C, '''        this->file_inode_mapping.erase (old_cid);
''', '')])
M("na-rename-erase-cond", "C13", [(C, '''        this->file_inode_mapping.erase (old_cid);
        this->file_inode_mapping[new_cid] = inode;
''', '''        if (to_remove_inode.empty ())
            this->file_inode_mapping.erase (old_cid);
        this->file_inode_mapping[new_cid] = inode;
''')])
M("na-rename-insert", "C13", [(C, '''        this->file_inode_mapping[new_cid] = inode;
''', '''        this->file_inode_mapping.insert ({new_cid, inode});
''')])
M("na-rename-target", "C13", [(C, '''        this->file_inode_mapping[new_cid] = inode;
''', '''        this->file_inode_mapping[new_cid] = to_remove_inode.empty () ? inode : to_remove_inode;
''')])
M("na-rename-order", "C13", [(C, '''        this->file_inode_mapping.erase (old_cid);
        this->file_inode_mapping[new_cid] = inode;
''', '''        this->file_inode_mapping[new_cid] = inode;
        this->file_inode_mapping.erase (new_cid == old_cid ? new_cid : new_cid);
''')])
M("na-rename-same", "C13,C12", [(L, '''    if (same_file) {
''', '''    if (same_file && to_stat.st_nlink > 2) {
''')])
M("na-rename-unmapped", "C13", [(L, '''    if (!same_file && inode.empty () && from_exists && S_ISREG (from_stat.st_mode)) {
''', '''    if (!same_file && inode.empty () && from_exists && !to_exists && S_ISREG (from_stat.st_mode)) {
''')])
M("na-rename-wrongstat", "C13", [(L, '''        inode = to_string (from_stat.st_ino);
        this_ ()->FSCache->insert_inode_mapping (last_owner''', '''        inode = to_string (to_exists ? to_stat.st_ino : from_stat.st_ino);
        this_ ()->FSCache->insert_inode_mapping (last_owner''')])
M("na-rename-dir", "C13", [(L, '''        this_ ()->FSCache->rename_item (string (from + it.substr (string (to).size ())), it);
''', '''        this_ ()->FSCache->rename_item (it, string (from + it.substr (string (to).size ())));
''')])
M("na-unlink-keep", "C13", [(C, '''    this->file_inode_mapping.erase (string (path));

    if (not has_content_cached (owner)) {
''', '''    if (not has_content_cached (owner)) {
'''), (C, '''    this->engine->remove_cached_blocks (owner);
    this->_delete_item (owner);

    unlockItem (owner);

    _forget_item_lock (owner);

    lock.unlock ();

    return true;''', '''    this->file_inode_mapping.erase (string (path));
    this->engine->remove_cached_blocks (owner);
    this->_delete_item (owner);

    unlockItem (owner);

    _forget_item_lock (owner);

    lock.unlock ();

    return true;''')])
M("na-release-forget", "C13", [(L, '''    (void)path;

    close (fi->fh);''', '''    if (this_ ()->FSCache->get_original_inode (path).empty ())
        this_ ()->FSCache->insert_inode_mapping (path, path, false);

    close (fi->fh);''')])

# --- C12
M("ds-nlink-after", "C12", [(C, '''    if (!is_from_cache && before_nlinks > 1) {
''', '''    if (!is_from_cache && item->get_metadata ()->nlinks > 1) {
''')])
M("ds-nlink-ge", "C12", [(C, '''    if (!is_from_cache && before_nlinks > 1) {
''', '''    if (!is_from_cache && before_nlinks > 2) {
''')])
M("ds-nlink-zero", "C12", [(C, '''    if (!is_from_cache && before_nlinks > 1) {
''', '''    if (!is_from_cache && before_nlinks > 0) {
''')])
M("ds-nodec", "C12", [(C, '''    new_meta_after_removal.nlinks = std::max ((int)before_nlinks - 1, 1);
    item->update_metadata (new_meta_after_removal, {"nlinks"});

    if (!is_from''', '''    new_meta_after_removal.nlinks = std::max ((int)before_nlinks - 1, 1);

    if (!is_from''')])
M("ds-ren-nodec", "C12", [(C, '''                item->update_metadata (new_meta_after_removal, {"nlinks"});

                if (before''', '''                if (before_nlinks == 1)
                    item->update_metadata (new_meta_after_removal, {"nlinks"});

                if (before''')])
M("ds-ren-nlinks", "C12", [(C, '''                if (before_nlinks > 1) {

                    unlockItem (to_remove''', '''                if (before_nlinks > 2) {

                    unlockItem (to_remove''')])
M("ds-ren-keep", "C12", [(C, '''                this->engine->remove_cached_blocks (to_remove_inode);
                this->_delete_item''', '''                this->_delete_item''')])
M("ds-ren-keepitem", "C12", [(C, '''                this->engine->remove_cached_blocks (to_remove_inode);
                this->_delete_item (to_remove_inode);
''', '''                this->engine->remove_cached_blocks (to_remove_inode);
''')])
M("ds-ren-wrong", "C12", [(C, '''                this->engine->remove_cached_blocks (to_remove_inode);
                this->_delete_item''', '''                this->engine->remove_cached_blocks (inode);
                this->_delete_item''')])
M("ds-unl-keep", "C12", [(C, '''    this->engine->remove_cached_blocks (owner);
    this->_delete_item (owner);

    unlockItem (owner);

    _forget_item_lock (owner);

    lock.unlock ();

    return true;''', '''    if (item->is_synced ())
        this->engine->remove_cached_blocks (owner);
    this->_delete_item (owner);

    unlockItem (owner);

    _forget_item_lock (owner);

    lock.unlock ();

    return true;''')])
M("ds-release", "C12", [(L, '''    (void)path;

    close (fi->fh);''', '''    if (this_ ()->FSCache->get_original_inode (path) != "")
        this_ ()->FSCache->truncate_item (this_ ()->FSCache->get_original_inode (path), 0);

    close (fi->fh);''')])
M("ds-trunc-all", "C12", [(C, '''    if (new_size == 0) {

        if (item''', '''    if (new_size < (off_t)this->cache_config->IO_BLOCK_SIZE) {

        if (item''')])
M("ds-trunc-boundary", "C12", [(D, '''            } else if (blk_byte_index == 0) {

                delete it->second;''', '''            } else if (blk_byte_index <= 1) {

                delete it->second;''')])
M("ds-trunc-before", "C12", [(D, '''        if (b_id >= blk_id) {

            int p_id''', '''        if (b_id + 1 >= blk_id) {

            int p_id'''), (D, '''            if (b_id > blk_id) {

                delete''', '''            if (b_id != blk_id) {

                delete''')])
M("ds-read-miss", "C12", [(C, '''        if (it.second == false)
            item->get_data ()->remove_block (it.first);
        cache_res''', '''        if (it.second == true)
            item->get_data ()->remove_block (it.first);
        cache_res''')])
M("ds-put-fail", "C12", [(C, '''        } else
            item->get_data ()->remove_block (bid);

        put_res''', '''        }
        if (allocated_page != get<0> (put_mapping.at (bid)))
            item->get_data ()->remove_block (bid);

        put_res''')])
M("ds-evict-always", "C12", [(E, '''    if (this->config->APPLY_LRU_EVICTION) {

        int replace_page_id''', '''    if (not this->lru_main_vector.empty () || this->owner_pages_mapping.size () > 1) {

        int replace_page_id''')])
M("ds-link-nocount", "C12", [(L, "this_ ()->FSCache->insert_inode_mapping (to, inode, true);", "this_ ()->FSCache->insert_inode_mapping (to, inode, inode != to);"),
                              (C, "newmeta.nlinks = oldmeta->nlinks + 1;", "newmeta.nlinks = oldmeta->nlinks;")])

R("na-r-find", [(C, '''    if (this->file_inode_mapping.find (path) != this->file_inode_mapping.end ()) {
        return this->file_inode_mapping.at (path);
    }
    return "";''', '''    auto it = this->file_inode_mapping.find (path);
    if (it == this->file_inode_mapping.end ())
        return "";
    return it->second;''')])
R("na-r-rename-order", [(C, '''        this->file_inode_mapping.erase (old_cid);
        this->file_inode_mapping[new_cid] = inode;
''', '''        this->file_inode_mapping[new_cid] = inode;
        this->file_inode_mapping.erase (old_cid);
''')])
R("na-r-same-helper", [(L, '''int LazyFS::lfs_rename (const char* from''', '''static bool same_inode (const struct stat& a, const struct stat& b) {
    return a.st_ino == b.st_ino && a.st_dev == b.st_dev;
}

int LazyFS::lfs_rename (const char* from'''), (L, '''from_exists && to_exists && from_stat.st_dev == to_stat.st_dev &&
                     from_stat.st_ino == to_stat.st_ino;''', '''from_exists && to_exists && same_inode (from_stat, to_stat);''')])
R("na-r-same-early", [(L, '''    if (!same_file && inode.empty () && from_exists && S_ISREG (from_stat.st_mode)) {

        inode = to_string (from_stat.st_ino);
        this_ ()->FSCache->insert_inode_mapping (last_owner, inode, false);
    }

    if (!same_file && to_exists && S_ISREG (to_stat.st_mode) &&
        this_ ()->FSCache->get_original_inode (new_owner).empty ())
        this_ ()->FSCache->insert_inode_mapping (new_owner, to_string (to_stat.st_ino), false);
''', '''    if (!same_file) {
        if (inode.empty () && from_exists && S_ISREG (from_stat.st_mode)) {
            inode = to_string (from_stat.st_ino);
            this_ ()->FSCache->insert_inode_mapping (last_owner, inode, false);
        }
        bool target_file = to_exists && S_ISREG (to_stat.st_mode);
        if (target_file && this_ ()->FSCache->get_original_inode (new_owner) == "")
            this_ ()->FSCache->insert_inode_mapping (new_owner, to_string (to_stat.st_ino), false);
    }
''')])
R("ds-r-helper", [(C, '''bool Cache::remove_cached_item (string owner,''', '''static bool last_name (Item* item) {
    nlink_t before_nlinks = item->get_metadata ()->nlinks;
    Metadata left;
    left.nlinks = before_nlinks > 1 ? before_nlinks - 1 : 1;
    item->update_metadata (left, {"nlinks"});
    return before_nlinks <= 1;
}

bool Cache::remove_cached_item (string owner,'''), (C, '''    nlink_t before_nlinks = item->get_metadata ()->nlinks;

    Metadata new_meta_after_removal;
    new_meta_after_removal.nlinks = std::max ((int)before_nlinks - 1, 1);
    item->update_metadata (new_meta_after_removal, {"nlinks"});

    if (!is_from_cache && before_nlinks > 1) {
''', '''    bool last = last_name (item);

    if (!is_from_cache && !last) {
''')])
R("ds-r-trunc", [(D, '''            if (b_id > blk_id) {

                delete it->second;
                this->blocks.erase (it++);

            } else if (blk_byte_index == 0) {
''', '''            if (b_id != blk_id || blk_byte_index == 0) {
''')])
R("ds-r-unlink-inode", [(L, '''    string inode = this_ ()->FSCache->get_original_inode (path);

    // the file can be cached although this name of it is not mapped yet
    if (inode.empty () && is_file)
        inode = to_string (stats.st_ino);

    this_ ()->FSCache->remove_cached_item (inode, path, false);
''', '''    string mapped = this_ ()->FSCache->get_original_inode (path);
    string inode  = mapped.empty () && is_file ? to_string (stats.st_ino) : mapped;

    this_ ()->FSCache->remove_cached_item (inode, path, false);
''')])
