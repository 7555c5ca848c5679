P = "libs/libpcache/src/engine/page/page.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
C = "libs/libpcache/src/cache.cpp"
D = "libs/libpcache/src/item/data.cpp"
B = "libs/libpcache/src/engine/page/block_offsets.cpp"
M("pl-store-start", "C22", [(P, "off_min + off_start,\n", "off_min,\n"), (P, "off_min + off_start + data_length - 1", "off_min + data_length - 1")])
M("pl-store-len", "C22", [(P, "memcpy (this->data + off_min, new_data, off_max - off_min + 1);", "memcpy (this->data + off_min, new_data, off_max - off_min);")])
M("pl-store-src", "C22", [(P, "this->_rewrite_offset_data ((char*)new_data,", "this->_rewrite_offset_data ((char*)new_data + off_start,")])
M("pl-fetch-len", "C22", [(P, "int off_max            = read_to_max_index + 1;", "int off_max            = read_to_max_index;")])
M("pl-fetch-start", "C22", [(P, "memcpy (buffer, this->data + off_min, off_max - off_min);", "memcpy (buffer, this->data, off_max - off_min);")])
M("pl-zero-from", "C22", [(P, "memset (this->data + off_first + from_offset,", "memset (this->data + off_first + from_offset + 1,")])
M("pl-place-pop", "C22", [(P, "        this->free_block_indexes.pop_back ();\n", "        if (this->free_block_indexes.size () > 1)\n            this->free_block_indexes.pop_back ();\n")])
M("pl-place-front", "C22", [(P, "        int free_index = this->free_block_indexes.back ();", "        int free_index = this->free_block_indexes.front ();")])
M("pl-place-size", "C22", [(P, "make_pair (free_index, free_index + this->config->IO_BLOCK_SIZE - 1);", "make_pair (free_index, free_index + this->config->IO_BLOCK_SIZE);")])
M("pl-drop-place", "C22", [(P, "        this->free_block_indexes.push_back (off_first);\n", "")])
M("pl-drop-bid", "C22", [(P, "        this->free_block_indexes.push_back (off_first);\n", "        this->free_block_indexes.push_back (block_id);\n")])
M("pl-drop-entry", "C22", [(B, "    this->block_offset_mapping.erase (blk_id);\n", "")])
M("pl-eng-noowner", "C22", [(E, "                page_requested_ptr->is_page_owner (content_owner_id) &&\n", "")])
M("pl-eng-nohold", "C22", [(E, "is_page_owner (content_owner_id) &&\n                page_requested_ptr->contains_block (blk_id)) {", "is_page_owner (content_owner_id)) {")])
M("pl-eng-or", "C22", [(E, "is_page_owner (content_owner_id) &&\n                page_requested_ptr->contains_block (blk_id)) {", "contains_block (blk_id)) {")])
M("pl-eng-start", "C22", [(E, "free_page_ptr->update_block_data (blk_id, (char*)blk_data, blk_data_len, offset_start);", "free_page_ptr->update_block_data (blk_id, (char*)blk_data, blk_data_len, 0);")])
M("pl-eng-len", "C22", [(E, "free_page_ptr->update_block_data (blk_id, (char*)blk_data, blk_data_len, offset_start);", "free_page_ptr->update_block_data (blk_id, (char*)blk_data, this->config->IO_BLOCK_SIZE, offset_start);")])
M("pl-eng-get-owner", "C22", [(E, "if (get_page == nullptr || !get_page->is_page_owner (content_owner_id) ||", "if (get_page == nullptr ||")])
M("pl-eng-get-holds", "C22", [(E, "!get_page->is_page_owner (content_owner_id) ||\n            !get_page->contains_block (blk_id)) {", "!get_page->is_page_owner (content_owner_id)) {")])
M("pl-eng-get-and", "C22", [(E, "!get_page->is_page_owner (content_owner_id) ||\n            !get_page->contains_block (blk_id)) {", "(!get_page->is_page_owner (content_owner_id) &&\n            !get_page->contains_block (blk_id))) {")])
M("pl-eng-get-true", "C22", [(E, "res_block_data.insert (pair<int, bool> (blk_id, false));", "res_block_data.insert (pair<int, bool> (blk_id, true));")])
M("pl-eng-test-owner", "C22", [(E, "return p->is_page_owner (content_owner_id) && (*p).contains_block (block_id);", "return (*p).contains_block (block_id);")])
M("pl-eng-test-or", "C22", [(E, "return p->is_page_owner (content_owner_id) && (*p).contains_block (block_id);", "return p->is_page_owner (content_owner_id) || (*p).contains_block (block_id);")])
M("pl-eng-noindex", "C22", [(E, "            _update_owner_pages (content_owner_id, page_id, blk_id, offs);\n", "            if (operation_type == OP_WRITE)\n                _update_owner_pages (content_owner_id, page_id, blk_id, offs);\n")])
M("pl-eng-index-swap", "C22", [(E, "            _update_owner_pages (content_owner_id, page_id, blk_id, offs);\n", "            _update_owner_pages (content_owner_id, blk_id, page_id, offs);\n")])
M("pl-eng-res", "C22", [(E, "            res_block_allocated_pages.insert (pair<int, int> (blk_id, -1));", "            res_block_allocated_pages.insert (pair<int, int> (blk_id, 0));")])
M("pl-idx-page", "C22", [(E, "{block_id, {page_id, p, block_offsets_inside_page, false}});", "{block_id, {block_id, p, block_offsets_inside_page, false}});")])
M("pl-idx-key", "C22", [(E, "{block_id, {page_id, p, block_offsets_inside_page, false}});", "{page_id, {page_id, p, block_offsets_inside_page, false}});")])
M("pl-put-start", "C22", [(C, "make_tuple (page_id, bdata, bdata_len, off_start)", "make_tuple (page_id, bdata, bdata_len, 0)")])
M("pl-put-to", "C22", [(C, "int rs_to = get<3> (block_offsets);", "int rs_to = get<1> (block_offsets) - 1;")])
M("pl-put-res", "C22", [(C, "put_res.insert (make_pair (bid, allocated_page >= 0 ? true : false));", "put_res.insert (make_pair (bid, true));")])
M("pl-put-res0", "C22", [(C, "put_res.insert (make_pair (bid, allocated_page >= 0 ? true : false));", "put_res.insert (make_pair (bid, allocated_page > 0 ? true : false));")])
M("pl-put-page0", "C22", [(C, "(is_new_item || (item == nullptr)) ? -1 : item->get_data ()->get_page_id (bid);", "(is_new_item || (item == nullptr)) ? 0 : item->get_data ()->get_page_id (bid);")])
M("pl-get-max", "C22", [(C, "        int max_offset       = this->cache_config->IO_BLOCK_SIZE - 1;\n", "        int max_offset       = this->cache_config->IO_BLOCK_SIZE - 2;\n")])
M("pl-get-res", "C22", [(C, "cache_res.insert (\n            {it.first, std::make_pair (it.second,", "cache_res.insert (\n            {it.first, std::make_pair (true,")])
M("pl-info", "C22", [(D, "block_info->set_page_index_number (allocated_page);", "if (block_info->get_page_index_number () < 0)\n        block_info->set_page_index_number (allocated_page);")])
M("pl-w-fallback-off", "C22", [(L, "CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);", "CURR_BLK_IDX * IO_BLOCK_SIZE);")])
M("pl-w-fallback-buf", "C22", [(L, '''                    int pwrite_res = pwrite (fd,
                                             buf + data_buffer_iterator,''', '''                    int pwrite_res = pwrite (fd,
                                             buf,''')])
M("pl-w-len", "C22", [(L, '''                                                           blk_readable_to - blk_readable_from + 1,
                                                           blk_readable_from,
                                                           blk_readable_to}}},''', '''                                                           blk_readable_to - blk_readable_from + 1,
                                                           0,
                                                           blk_readable_to}}},''')])
M("pl-r-block", "C22", [(L, "this_ ()->FSCache->get_data_blocks (inode, {{CURR_BLK_IDX, read_buffer}});", "this_ ()->FSCache->get_data_blocks (inode, {{blk_low, read_buffer}});")])

R("pl-r-inline", [(P, '''        this->_rewrite_offset_data ((char*)new_data,
                                    off_min + off_start,
                                    off_min + off_start + data_length - 1);
''', '''        this->set_page_as_dirty (true);
        char* place = this->data + off_min;
        memmove (place + off_start, new_data, data_length);
''')])
R("pl-r-guard", [(E, '''            if ((page_requested_ptr != nullptr) &&
                page_requested_ptr->is_page_owner (content_owner_id) &&
                page_requested_ptr->contains_block (blk_id)) {
''', '''            bool reuse = page_requested_ptr != nullptr;
            if (reuse)
                reuse = page_requested_ptr->is_page_owner (content_owner_id);
            if (reuse)
                reuse = page_requested_ptr->contains_block (blk_id);
            if (reuse) {
''')])
R("pl-r-order", [(E, '''                page_requested_ptr->is_page_owner (content_owner_id) &&
                page_requested_ptr->contains_block (blk_id)) {
''', '''                page_requested_ptr->contains_block (blk_id) &&
                page_requested_ptr->is_page_owner (content_owner_id)) {
''')])
R("pl-r-get", [(E, '''        if (get_page == nullptr || !get_page->is_page_owner (content_owner_id) ||
            !get_page->contains_block (blk_id)) {

            res_block_data.insert (pair<int, bool> (blk_id, false));

        } else {

            get_page->get_block_data (blk_id, data, read_to_max_index);
            res_block_data.insert (pair<int, bool> (blk_id, true));
''', '''        bool served = get_page != nullptr && get_page->is_page_owner (content_owner_id) && get_page->contains_block (blk_id);

        res_block_data[blk_id] = served;

        if (served) {

            get_page->get_block_data (blk_id, data, read_to_max_index);
''')])
R("pl-r-range", [(E, '''    for (auto it = begin (block_pages); it != end (block_pages); it++) {

        std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);

        int blk_id            = it->first;
        int page_id           = get<0> (it->second);
        char* data            = get<1> (it->second);
        int read_to_max_index = get<2> (it->second);
''', '''    for (auto const& [blk_id, place] : block_pages) {

        std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);

        auto [page_id, data, read_to_max_index] = place;
''')])
R("pl-r-test", [(E, '''    if (p == nullptr)
        return false;

    return p->is_page_owner (content_owner_id) && (*p).contains_block (block_id);
''', '''    bool cached = false;
    if (p != nullptr && p->is_page_owner (content_owner_id))
        cached = p->contains_block (block_id);
    return cached;
''')])
R("pl-r-put", [(C, '''        tuple<const char*, size_t, int, int> block_offsets = blocks.at (bid);

        // int rs_from = get<2> (block_offsets);
        int rs_to = get<3> (block_offsets);

        if (allocated_page >= 0) {
''', '''        const bool taken = allocated_page >= 0;
        int rs_to        = get<3> (blocks[bid]);

        if (taken) {
'''), (C, "put_res.insert (make_pair (bid, allocated_page >= 0 ? true : false));", "put_res[bid] = taken;")])
R("pl-r-alloc", [(E, '''            auto const& offs = free_page_ptr->get_allocate_free_offset (blk_id);
            free_page_ptr->update_block_data (blk_id, (char*)blk_data, blk_data_len, offset_start);

            if (operation_type == OP_WRITE)
                free_page_ptr->set_page_as_dirty (true);
''', '''            pair<int, int> offs = free_page_ptr->get_allocate_free_offset (blk_id);

            if (operation_type == OP_WRITE)
                free_page_ptr->set_page_as_dirty (true);

            free_page_ptr->update_block_data (blk_id, blk_data, blk_data_len, offset_start);
''')])
R("pl-r-vars", [(L, '''                    put_data_blocks (inode,''', '''                    put_data_blocks (inode,''')]) if False else None
