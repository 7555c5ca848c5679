# unsynchronised marking: C10
L = "lazyfs/src/lazyfs.cpp"
C = "libs/libpcache/src/cache.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
P = "libs/libpcache/src/engine/page/page.cpp"
D = "libs/libpcache/src/item/data.cpp"

M("di-nodirty", "C10", [(P, '''    this->set_page_as_dirty (true);

    memcpy''', '''    memcpy''')])
M("di-dirty-if", "C10", [(P, '''    this->set_page_as_dirty (true);

    memcpy''', '''    if (off_min == 0)
        this->set_page_as_dirty (true);

    memcpy''')])
M("di-tuple-true", "C10", [(E, '''{block_id, {page_id, p, block_offsets_inside_page, false}}''', '''{block_id, {page_id, p, block_offsets_inside_page, true}}''', 'all')])
M("di-update-noflag", "C10", [(E, '''                get<3> (owner_ref) = false;
''', '')])
M("di-update-flag-copy", "C10", [(E, '''                auto& owner_ref =
                    this->owner''', '''                auto owner_ref =
                    this->owner''')])
M("di-no-item-flag", "C10", [(C, '''    if (allocated_at_least_one_page) {
        item->set_data_sync_flag (false);
    }

    unlockItem (cid);

    return put_res;''', '''    unlockItem (cid);

    return put_res;''')])
M("di-item-flag-all", "C10", [(C, '''            allocated_at_least_one_page = true;
''', '''            allocated_at_least_one_page = is_new_item;
''')])
M("di-no-record", "C10", [(C, '''            int max_offset = item->get_data ()->set_block_page_id (bid, allocated_page, 0, rs_to);
            this->engine->make''', '''            int max_offset = rs_to;
            if (is_new_item || !item->get_data ()->has_block (bid))
                max_offset = item->get_data ()->set_block_page_id (bid, allocated_page, 0, rs_to);
            this->engine->make''')])
M("di-no-readable", "C10", [(C, '''            this->engine->make_block_readable_to_offset (cid, allocated_page, bid, max_offset);
        } else''', '''            if (is_new_item)
                this->engine->make_block_readable_to_offset (cid, allocated_page, bid, max_offset);
        } else''')])
M("di-clean-later", "C10", [(E, '''            if (operation_type == OP_WRITE)
                free_page_ptr->set_page_as_dirty (true);
''', '''            free_page_ptr->set_page_as_dirty (operation_type != OP_WRITE);
''')])
M("di-noupdate", "C10", [(E, '''            _update_owner_pages (content_owner_id, page_id, blk_id, offs);
''', '''            if (!this->config->APPLY_LRU_EVICTION || offset_start == 0)
                _update_owner_pages (content_owner_id, page_id, blk_id, offs);
''')])
M("di-write-break", "C10", [(L, '''                            if (pwrite_res != cache_wr_sz) {
                                res = pwrite_res < 0 ? -errno : -EIO;
                                break;''', '''                            if (pwrite_res != cache_wr_sz) {
                                break;''')])
M("di-write-ignore", "C10", [(L, '''                if (!curr_block_put_exists || put_res.at (CURR_BLK_IDX) == false) {
''', '''                if (!curr_block_put_exists) {
''')])
M("di-write-ignore2", "C10", [(L, '''                        if (cache_full ||
                            (!curr_block_put_exists || (put_res.at (CURR_BLK_IDX) == false))) {
''', '''                        if (!cache_full && (!curr_block_put_exists || (put_res.at (CURR_BLK_IDX) == false))) {
''')])
M("di-write-unreach", "C10", [(L, '''                    // We assume that the file is not reachable

                    res = -EIO;
                    break;''', '''                    // We assume that the file is not reachable

                    break;''')])
M("di-write-skip", "C10", [(L, '''            bool is_block_cached = this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX);

            if (is_block_cached == false) {

                bool needs_pread''', '''            bool is_block_cached = this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX);

            if (blk_readable_to < blk_readable_from)
                continue;

            if (is_block_cached == false) {

                bool needs_pread''')])
M("di-write-short", "C10", [(L, '''                            if (pwrite_res != cache_wr_sz) {
                                res''', '''                            if (pwrite_res < 0) {
                                res''')])
M("di-read-clean", "C10", [(C, '''int Cache::sync_owner (''', '''static void noop_ () {}
int Cache::sync_owner ('''), (C, '''    Item* item = _get_content_ptr (cid);

    map<int, tuple<int, char*, int>> get_mapping;
''', '''    Item* item = _get_content_ptr (cid);
    item->set_data_sync_flag (true);

    map<int, tuple<int, char*, int>> get_mapping;
''')])
M("di-page-clean-read", "C10", [(P, '''    memcpy (buffer, this->data + off_min, off_max - off_min);
''', '''    memcpy (buffer, this->data + off_min, off_max - off_min);
    if (off_max == (int)this->config->IO_BLOCK_SIZE)
        this->is_dirty = false;
''')])
M("di-remove-clean", "C10", [(P, '''    if (this->allocated_block_ids.empty ())
        this->is_dirty = false;''', '''    this->is_dirty = false;''')])
M("di-meta-clean", "C10", [(C, '''bool Cache::update_content_metadata (string cid,
                                     Metadata new_meta,
                                     vector<string> values_to_update) {

''', '''bool Cache::update_content_metadata (string cid,
                                     Metadata new_meta,
                                     vector<string> values_to_update) {

    if (Item* i_ = _get_content_ptr (cid))
        i_->set_data_sync_flag (true);
''')])

R("di-helper", [(E, '''                auto& owner_ref =
                    this->owner_ordered_pages_mapping.at (content_owner_id).at (blk_id);
                get<3> (owner_ref) = false;
''', '''                get<3> (this->owner_ordered_pages_mapping.at (content_owner_id).at (blk_id)) = false;
''')])
R("di-dirty-after", [(P, '''    this->set_page_as_dirty (true);

    memcpy (this->data + off_min, new_data, off_max - off_min + 1);
''', '''    const int length = off_max - off_min + 1;
    memcpy (this->data + off_min, new_data, length);
    this->is_dirty = true;
''')])
R("di-flag-each", [(C, '''            allocated_at_least_one_page = true;
''', '''            item->set_data_sync_flag (false);
'''), (C, '''    if (allocated_at_least_one_page) {
        item->set_data_sync_flag (false);
    }
''', ''), (C, '''    bool allocated_at_least_one_page = false;
''', '')])
R("di-range-for", [(E, '''    for (auto it = begin (block_data_mapping); it != end (block_data_mapping); it++) {
''', '''    for (auto const& entry : block_data_mapping) {
'''), (E, '''        int blk_id          = it->first;
        int page_id         = get<0> (it->second);
        char* blk_data      = (char*)get<1> (it->second);
        size_t blk_data_len = get<2> (it->second);
        int offset_start    = get<3> (it->second);
''', '''        int blk_id          = entry.first;
        int page_id         = get<0> (entry.second);
        char* blk_data      = (char*)get<1> (entry.second);
        size_t blk_data_len = get<2> (entry.second);
        int offset_start    = get<3> (entry.second);
''')])
R("di-write-helper", [(L, '''                bool curr_block_put_exists = put_res.find (CURR_BLK_IDX) != put_res.end ();

                if (!curr_block_put_exists || put_res.at (CURR_BLK_IDX) == false) {

                    int pwrite_res = pwrite (fd,
                                             buf''', '''                auto put_it = put_res.find (CURR_BLK_IDX);
                bool stored = put_it != put_res.end () && put_it->second;

                if (!stored) {

                    int pwrite_res = pwrite (fd,
                                             buf''')])
R("di-while", [(L, '''        for (off_t CURR_BLK_IDX = blk_low; CURR_BLK_IDX <= blk_high; CURR_BLK_IDX++) {

            /*
                > Calculate readable''', '''        off_t CURR_BLK_IDX = blk_low - 1;
        while (++CURR_BLK_IDX <= blk_high) {

            /*
                > Calculate readable''')])
