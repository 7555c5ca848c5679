# small helpers the other corpora leave alone: owners, records, indexes, locks of the cache
P = "libs/libpcache/src/engine/page/page.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
C = "libs/libpcache/src/cache.cpp"
D = "libs/libpcache/src/item/data.cpp"
B = "libs/libpcache/src/engine/page/block_offsets.cpp"
I = "libs/libpcache/src/item/item.cpp"
BI = "libs/libpcache/src/item/block_info.cpp"
L = "lazyfs/src/lazyfs.cpp"
M("gp-owner-prefix", "C22", [(P, "{ return this->page_owner_id == query; }", "{ return this->page_owner_id.find (query) == 0; }")])
M("gp-owner-none", "C22", [(P, "{ return this->page_owner_id == query; }", "{ return this->page_owner_id == query || this->page_owner_id == \"none\"; }")])
M("gp-owner-keep", "C22", [(P, "{ this->page_owner_id = new_owner; }", "{\n    if (this->page_owner_id == \"none\" || new_owner == \"none\")\n        this->page_owner_id = new_owner;\n}")])
M("gp-reset-blocks", "C22", [(P, "    this->allocated_block_ids.reset ();\n    this->is_dirty = false;", "    this->is_dirty = false;")])
M("gp-reset-free", "C22", [(P, "    this->free_block_indexes.clear ();\n", "")])
M("gp-reset-zero", "C22", [(P, "    // this->page_owner_id = \"none\";\n    memset (this->data, 0, this->config->CACHE_PAGE_SIZE);\n", "")])
M("gp-reset-half", "C22", [(P, "    // this->page_owner_id = \"none\";\n    memset (this->data, 0, this->config->CACHE_PAGE_SIZE);\n", "    memset (this->data, 0, this->config->CACHE_PAGE_SIZE / 2);\n")])
M("gp-drop-zero", "C22", [(P, "\n        memset (this->data + off_first, 0, this->config->IO_BLOCK_SIZE);\n", "")])
M("gp-bo-reset", "C22", [(B, "    this->block_offset_mapping.clear ();\n", "")])
M("gp-bo-any", "C22", [(B, "    return this->block_offset_mapping.find (block_id) != this->block_offset_mapping.end ();", "    return !this->block_offset_mapping.empty ();")])
M("gp-pageid", "C22", [(D, "        return -1;\n\n    return this->blocks.at (blk_id)", "        return blk_id;\n\n    return this->blocks.at (blk_id)")])
M("gp-hasblock", "C22", [(D, "{ return (this->blocks.find (blk_id) != this->blocks.end ()); }", "{ return (this->blocks.find (blk_id) != this->blocks.end () || blk_id == 0); }")])
M("gp-readable-last", "C10", [(BI, "    if (to > this->readable_offset.second)\n        this->", "    this->")])
M("gp-readable-ge", "C10", [(BI, "    if (to > this->readable_offset.second)", "    if (to > this->readable_offset.second + 1)")])
M("gp-readable-ret", "C10", [(BI, "        this->readable_offset.second = to;\n\n    return this->readable_offset.second;", "        this->readable_offset.second = to;\n\n    return to;")])
M("gp-mkread-pos", "C10", [(E, "    if (page_ptr->is_page_owner (cid)) {\n        page_ptr->make_block_readable_to (block_id, offset);", "    if (page_ptr->is_page_owner (cid) && offset > 0) {\n        page_ptr->make_block_readable_to (block_id, offset);")])
M("gp-mkread-dirty", "C10", [(E, "    if (page_ptr->is_page_owner (cid)) {\n        page_ptr->make_block_readable_to (block_id, offset);", "    if (page_ptr->is_page_owner (cid) && !page_ptr->is_page_dirty ()) {\n        page_ptr->make_block_readable_to (block_id, offset);")])
M("gp-bo-read", "C10", [(B, "    this->block_readable_to[blk_id] = max_offset;", "    this->block_readable_to.insert (std::make_pair (blk_id, max_offset));")])
M("gp-trunc-index", "C22", [(E, "                this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);\n", "")])
M("gp-trunc-other", "C22", [(E, "                page->remove_block (blk_id);\n", "                page->remove_block (from_block_id);\n")])
M("gp-trunc-owner", "C22", [(E, "        if (page->is_page_owner (content_owner_id)) {\n\n            // std::printf (\"%s: %s is", "        if (true) {\n\n            // std::printf (\"%s: %s is")])
M("gp-trunc-read2", "C22", [(E, "page->make_block_readable_to (from_block_id, index_inside_block - 1);", "page->make_block_readable_to (from_block_id, index_inside_block - 2);")])
M("gp-trunc-info", "C22", [(D, "info->truncate_readable_to (blk_byte_index - 1);", "info->truncate_readable_to (blk_byte_index - 2);")])
M("gp-trunc-zero", "C22", [(E, "                    page->write_null_from (from_block_id, index_inside_block);\n", "")])
M("gp-trunc-zero1", "C22", [(E, "page->write_null_from (from_block_id, index_inside_block);", "page->write_null_from (from_block_id, index_inside_block - 1);")])
M("gp-dirty-never", "C10", [(P, "{ this->is_dirty = dirty; }", "{ this->is_dirty = dirty && this->page_owner_id != \"none\"; }")])
M("gp-dirty-q", "C09", [(P, "bool Page::is_page_dirty () { return this->is_dirty; }", "bool Page::is_page_dirty () { return this->is_dirty && this->allocated_block_ids.get_nr_blocks () > 1; }")])
M("gp-flag-or", "C10", [(I, "{ this->data_synced = flag; }", "{ this->data_synced = flag || this->data_synced; }")])
M("gp-synced-q", "C18", [(I, "bool Item::is_synced () { return this->data_synced; }", "bool Item::is_synced () { return this->data_synced || this->data->count_blocks () == 1; }")])
M("gp-unlock-cond", "C03", [(C, "void Cache::unlockItem (string cid) { _get_item_lock (cid)->unlock (); }", "void Cache::unlockItem (string cid) {\n    if (has_content_cached (cid))\n        _get_item_lock (cid)->unlock ();\n}")])
M("gp-lock-try", "C03", [(C, "void Cache::lockItem (string cid) { _get_item_lock (cid)->lock (); }", "void Cache::lockItem (string cid) { _get_item_lock (cid)->try_lock (); }")])
M("gp-has-nolock", "C04", [(C, "bool Cache::has_content_cached (string cid) {\n\n    std::shared_lock<std::shared_mutex> tables (lock_tables_mtx);\n", "bool Cache::has_content_cached (string cid) {\n")])
M("gp-usage-nolock", "C04", [(E, "    std::lock_guard<std::shared_mutex> lock (lock_cache_mtx);\n\n    int used_pages", "    int used_pages")])
M("gp-delete-noerase", "C11", [(C, "        this->contents.erase (cid);\n", "")])
M("gp-put-early", "C04", [(C, "        item->set_data_sync_flag (false);\n    }\n\n    unlockItem (cid);\n\n    return put_res;", "    }\n\n    unlockItem (cid);\n    if (allocated_at_least_one_page)\n        item->set_data_sync_flag (false);\n\n    return put_res;")])
M("gp-rename-nested", "C13", [(L, "lfs_get_dir_filenames (base_path.c_str (), result);", "result->push_back (base_path);")])
M("gp-rename-sub", "C13", [(L, "rename_item (string (from + it.substr (string (to).size ())), it);", "rename_item (string (from + it.substr (string (from).size ())), it);")])
M("gp-rename-swap", "C13", [(L, "rename_item (string (from + it.substr (string (to).size ())), it);", "rename_item (it, string (from + it.substr (string (to).size ())));")])
M("gp-trunc0-keep", "C22", [(C, "            this->engine->remove_cached_blocks (owner);\n            item->get_data ()->remove_all_blocks ();", "            item->get_data ()->remove_all_blocks ();")])
M("gp-trunc0-map", "C22", [(C, "            this->engine->remove_cached_blocks (owner);\n            item->get_data ()->remove_all_blocks ();", "            this->engine->remove_cached_blocks (owner);")])
M("gp-trunc-blkno", "C22", [(C, "int truncate_from_block_id      = new_size / this->cache_config->IO_BLOCK_SIZE;", "int truncate_from_block_id      = (new_size + this->cache_config->IO_BLOCK_SIZE - 1) / this->cache_config->IO_BLOCK_SIZE;")])
M("gp-trunc-only", "C22", [(E, "            if (blk_id == from_block_id && index_inside_block > 0) {", "            if (index_inside_block > 0) {")])
M("gp-remove-owner", "C22", [(E, "            page_ptr->reset ();\n            page_ptr->change_owner (\"none\");", "            page_ptr->reset ();")])
M("gp-remove-reset", "C22", [(E, "            page_ptr->reset ();\n            page_ptr->change_owner (\"none\");", "            page_ptr->change_owner (\"none\");")])
M("gp-free-twice", "C22", [(E, "        int last_index = this->free_pages.back ();\n        this->free_pages.pop_back ();", "        int last_index = this->free_pages.back ();\n        if (this->free_pages.size () > 1)\n            this->free_pages.pop_back ();")])
M("gp-free-front", "C22", [(E, "        int last_index = this->free_pages.back ();\n        this->free_pages.pop_back ();", "        int last_index = this->free_pages.front ();\n        this->free_pages.pop_back ();")])
M("gp-free-ptr", "C22", [(E, "return make_pair (last_index, _get_page_ptr (last_index));", "return make_pair (last_index, _get_page_ptr (this->free_pages.back ()));")])
M("gp-evict-noreset", "C22", [(E, "        page_to_reset->reset ();\n\n        return", "        return")])
M("gp-evict-other", "C22", [(E, "        return make_pair (replace_page_id, page_to_reset);", "        return make_pair (this->lru_main_vector.front (), page_to_reset);")])
M("gp-evict-index", "C22", [(E, "                this->owner_ordered_pages_mapping.at (old_owner).erase (it.first);", "                (void)it;")])
R("gp-r-own1", [(P, "{ return this->page_owner_id == query; }", "{ return query.compare (this->page_owner_id) == 0; }"),
    (P, "{ this->page_owner_id = new_owner; }", "{ this->page_owner_id.assign (new_owner); }")])
R("gp-r-own2", [(P, "{ return this->page_owner_id == query; }", "{\n    if (this->page_owner_id != query)\n        return false;\n    return true;\n}"),
    (P, "{ this->page_owner_id = new_owner; }", "{\n    if (this->page_owner_id != new_owner)\n        this->page_owner_id = new_owner;\n}")])
R("gp-r-own3", [(P, "{ return this->page_owner_id == query; }", "{\n    string const& mine = get_page_owner ();\n    return mine.size () == query.size () && mine == query;\n}"),
    (P, "{ this->page_owner_id = new_owner; }", "{ this->page_owner_id = std::move (new_owner); }")])
R("gp-r-reset1", [(P, '''    this->free_block_indexes.clear ();
    this->free_block_indexes.reserve (10);
    this->allocated_block_ids.reset ();
    this->is_dirty = false;
    // this->page_owner_id = "none";
    memset (this->data, 0, this->config->CACHE_PAGE_SIZE);
''', '''    const size_t bytes = this->config->CACHE_PAGE_SIZE;
    std::fill_n (this->data, bytes, 0);
    this->is_dirty = false;
    this->allocated_block_ids.reset ();
    this->free_block_indexes = vector<int> ();
    this->free_block_indexes.reserve (10);
''')])
R("gp-r-reset2", [(P, '''    this->allocated_block_ids.reset ();
    this->is_dirty = false;
    // this->page_owner_id = "none";
    memset (this->data, 0, this->config->CACHE_PAGE_SIZE);
''', '''    set_page_as_dirty (false);
    for (size_t b = 0; b < this->config->CACHE_PAGE_SIZE; b++)
        this->data[b] = 0;
    this->allocated_block_ids.reset ();
''')])
R("gp-r-holds", [(B, "    return this->block_offset_mapping.find (block_id) != this->block_offset_mapping.end ();", "    return this->block_offset_mapping.count (block_id) > 0;"),
    (D, "{ return (this->blocks.find (blk_id) != this->blocks.end ()); }", "{ return this->blocks.count (blk_id) != 0; }")])
R("gp-r-holds2", [(B, "    return this->block_offset_mapping.find (block_id) != this->block_offset_mapping.end ();", "    auto found = this->block_offset_mapping.find (block_id);\n    if (found == this->block_offset_mapping.end ())\n        return false;\n    return true;"),
    (D, "{ return (this->blocks.find (blk_id) != this->blocks.end ()); }", "{ return !(this->blocks.find (blk_id) == this->blocks.end ()); }")])
R("gp-r-page1", [(D, '''    if (this->blocks.find (blk_id) == this->blocks.end ())
        return -1;

    return this->blocks.at (blk_id)->get_page_index_number ();''', '''    auto found = this->blocks.find (blk_id);

    return found == this->blocks.end () ? -1 : found->second->get_page_index_number ();''')])
R("gp-r-page2", [(D, '''    if (this->blocks.find (blk_id) == this->blocks.end ())
        return -1;

    return this->blocks.at (blk_id)->get_page_index_number ();''', '''    BlockInfo* info = _get_block_info_ptr (blk_id);
    int page        = -1;
    if (info != nullptr)
        page = info->get_page_index_number ();
    return page;''')])
OLDR = '''    if (to > this->readable_offset.second)
        this->readable_offset.second = to;

    return this->readable_offset.second;'''
R("gp-r-readable1", [(BI, OLDR, '''    this->readable_offset.second = std::max (this->readable_offset.second, to);

    return this->readable_offset.second;'''), (BI, "#include <iostream>", "#include <algorithm>\n#include <iostream>")])
R("gp-r-readable2", [(BI, OLDR, '''    if (to <= this->readable_offset.second)
        return this->readable_offset.second;

    this->readable_offset.second = to;
    return to;''')])
R("gp-r-readable3", [(BI, OLDR, '''    int& last = this->readable_offset.second;
    last      = last < to ? to : last;

    return last;''')])
R("gp-r-readto1", [(B, "    this->block_readable_to[blk_id] = max_offset;", "    this->block_readable_to.insert_or_assign (blk_id, max_offset);")])
R("gp-r-readto2", [(B, "    this->block_readable_to[blk_id] = max_offset;", "    auto entry = this->block_readable_to.find (blk_id);\n    if (entry == this->block_readable_to.end ())\n        this->block_readable_to.insert (std::make_pair (blk_id, max_offset));\n    else\n        entry->second = max_offset;")])
R("gp-r-shown", [(E, '''    Page* page_ptr = _get_page_ptr (page_id);
    if (page_ptr->is_page_owner (cid)) {
        page_ptr->make_block_readable_to (block_id, offset);
    }''', '''    Page* target = _get_page_ptr (page_id);
    if (target == nullptr)
        return;
    if (!target->is_page_owner (cid))
        return;
    target->make_block_readable_to (block_id, offset);''')])
R("gp-r-take1", [(E, '''        int last_index = this->free_pages.back ();
        this->free_pages.pop_back ();
        return make_pair (last_index, _get_page_ptr (last_index));''', '''        pair<int, Page*> taken;
        taken.first  = this->free_pages.back ();
        taken.second = _get_page_ptr (taken.first);
        this->free_pages.pop_back ();
        return taken;''')])
R("gp-r-take2", [(E, '''    if (CustomCacheEngine::_has_empty_pages ()) {

        int last_index = this->free_pages.back ();
        this->free_pages.pop_back ();
        return make_pair (last_index, _get_page_ptr (last_index));
    }
''', '''    if (!this->free_pages.empty ()) {

        const int chosen = this->free_pages.back ();
        Page* chosen_page = this->search_index.at (chosen);
        this->free_pages.pop_back ();
        return {chosen, chosen_page};
    }
''')])
R("gp-r-take3", [(E, '''            for (auto const& it : blocks)
                this->owner_ordered_pages_mapping.at (old_owner).erase (it.first);''', '''            auto& index = this->owner_ordered_pages_mapping.at (old_owner);
            for (auto it = blocks.begin (); it != blocks.end (); ++it) {
                const int gone = it->first;
                index.erase (gone);
            }'''), (E, '''        page_to_reset->reset ();

        return make_pair (replace_page_id, page_to_reset);''', '''        page_to_reset->reset ();
        pair<int, Page*> victim (replace_page_id, page_to_reset);

        return victim;''')])
OLDG = '''            // add page to free pages...
            this->free_pages.push_back (*page_it);

            if (this->config->APPLY_LRU_EVICTION) {

                auto pos = this->page_order_mapping.find (*page_it);
                if (pos != this->page_order_mapping.end ())
                    this->lru_main_vector.erase (pos->second);
                this->page_order_mapping.erase (*page_it);
            }

            Page* page_ptr = _get_page_ptr (*page_it);
            page_ptr->reset ();
            page_ptr->change_owner ("none");
'''
R("gp-r-give1", [(E, OLDG, '''            const int id   = *page_it;
            Page* page_ptr = _get_page_ptr (id);
            page_ptr->change_owner ("none");
            page_ptr->reset ();

            if (this->config->APPLY_LRU_EVICTION) {

                auto pos = this->page_order_mapping.find (id);
                if (pos != this->page_order_mapping.end ()) {
                    this->lru_main_vector.erase (pos->second);
                    this->page_order_mapping.erase (pos);
                }
            }

            this->free_pages.push_back (id);
''')])
HPP = "libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp"
R("gp-r-give2", [(E, OLDG, "            _release_page (*page_it);\n"), (HPP, "    bool _has_empty_pages ();", "    bool _has_empty_pages ();\n    void _release_page (int page_id);"),
    (E, "bool CustomCacheEngine::_has_empty_pages () {", '''void CustomCacheEngine::_release_page (int page_id) {

    this->free_pages.push_back (page_id);

    if (this->config->APPLY_LRU_EVICTION) {

        auto pos = this->page_order_mapping.find (page_id);
        if (pos != this->page_order_mapping.end ())
            this->lru_main_vector.erase (pos->second);
        this->page_order_mapping.erase (page_id);
    }

    Page* page = _get_page_ptr (page_id);
    page->reset ();
    page->change_owner ("none");
}

bool CustomCacheEngine::_has_empty_pages () {'''),
    (E, '''                    // add page to free pages...
                    this->free_pages.push_back (page_id);

                    if (this->config->APPLY_LRU_EVICTION) {

                        auto pos = this->page_order_mapping.find (page_id);
                        if (pos != this->page_order_mapping.end ())
                            this->lru_main_vector.erase (pos->second);
                        this->page_order_mapping.erase (page_id);
                    }

                    page->reset ();
                    page->change_owner ("none");
''', "                    _release_page (page_id);\n")])
R("gp-r-cut1", [(E, '''            if (blk_id == from_block_id && index_inside_block > 0) {

                if (page->contains_block (from_block_id)) {
                    page->make_block_readable_to (from_block_id, index_inside_block - 1);
                    page->write_null_from (from_block_id, index_inside_block);
                }
''', '''            const bool holds_end = index_inside_block > 0 && from_block_id == blk_id;

            if (holds_end) {

                if (page->contains_block (blk_id)) {
                    page->write_null_from (blk_id, index_inside_block);
                    const int last_byte = index_inside_block - 1;
                    page->make_block_readable_to (blk_id, last_byte);
                }
''')])
R("gp-r-cut2", [(E, '''    for (auto const& blk : blocks_to_remove) {

        int blk_id  = blk.first;
        int page_id = blk.second;

        Page* page = _get_page_ptr (page_id);

        if (page->is_page_owner (content_owner_id)) {
''', '''    for (auto it = blocks_to_remove.begin (); it != blocks_to_remove.end (); ++it) {

        int blk_id  = it->first;
        int page_id = it->second;

        Page* page = _get_page_ptr (page_id);

        if (page == nullptr || !page->is_page_owner (content_owner_id))
            continue;

        {
''')])
R("gp-r-cut3", [(E, '''                page->remove_block (blk_id);

                this->owner_pages_mapping.at (content_owner_id).erase (page_id);
                this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);
''', '''                auto& by_block = this->owner_ordered_pages_mapping.at (content_owner_id);
                auto& by_page  = this->owner_pages_mapping.at (content_owner_id);
                by_block.erase (blk_id);
                by_page.erase (page_id);
                page->remove_block (blk_id);
''')])
R("gp-r-map1", [(D, '''            if (b_id > blk_id) {

                delete it->second;
                this->blocks.erase (it++);

            } else if (blk_byte_index == 0) {

                delete it->second;
                this->blocks.erase (it++);

            } else {

                BlockInfo* info = this->blocks.at (blk_id);
                info->truncate_readable_to (blk_byte_index - 1);

                ++it;
            }
''', '''            if (b_id == blk_id && blk_byte_index != 0) {

                it->second->truncate_readable_to (blk_byte_index - 1);
                ++it;

            } else {

                delete it->second;
                it = this->blocks.erase (it);
            }
''')])
R("gp-r-map2", [(D, '''        if (b_id >= blk_id) {

            int p_id = it->second->get_page_index_number ();
''', '''        if (b_id < blk_id) {
            ++it;
            continue;
        }

        {

            int p_id = get_page_id (b_id);
'''), (D, '''        } else {
            ++it;
        }
    }

    return res;
}

size_t''', '''        }
    }

    return res;
}

size_t''')])
R("gp-r-trunc1", [(C, '''    int truncate_from_block_id      = new_size / this->cache_config->IO_BLOCK_SIZE;
    off_t truncate_from_block_index = new_size % this->cache_config->IO_BLOCK_SIZE;
''', '''    const off_t block_bytes         = this->cache_config->IO_BLOCK_SIZE;
    int truncate_from_block_id      = (int)(new_size / block_bytes);
    off_t truncate_from_block_index = new_size - (off_t)truncate_from_block_id * block_bytes;
''')])
R("gp-r-trunc2", [(C, '''        if (item->get_data ()->count_blocks () > 0) {
            this->engine->remove_cached_blocks (owner);
            item->get_data ()->remove_all_blocks ();
        }
''', '''        Data* blocks = item->get_data ();
        blocks->remove_all_blocks ();
        this->engine->remove_cached_blocks (owner);
''')])
R("gp-r-drop", [(P, '''    if (contains_block (block_id)) {
        int off_first = get_block_offsets (block_id).first;
        this->free_block_indexes.push_back (off_first);
        this->allocated_block_ids.remove_block (block_id);

        memset (this->data + off_first, 0, this->config->IO_BLOCK_SIZE);
    }
''', '''    if (contains_block (block_id)) {
        auto const place = get_block_offsets (block_id);
        memset (this->data + place.first, 0, this->config->IO_BLOCK_SIZE);
        this->allocated_block_ids.remove_block (block_id);
        this->free_block_indexes.push_back (place.first);
    }
''')])
R("gp-r-drop2", [(P, '''    if (contains_block (block_id)) {
        int off_first = get_block_offsets (block_id).first;
        this->free_block_indexes.push_back (off_first);
        this->allocated_block_ids.remove_block (block_id);

        memset (this->data + off_first, 0, this->config->IO_BLOCK_SIZE);
    }
''', '''    int off_first = get_block_offsets (block_id).first;
    if (off_first >= 0) {
        this->free_block_indexes.push_back (off_first);
        this->allocated_block_ids.remove_block (block_id);

        for (size_t b = 0; b < this->config->IO_BLOCK_SIZE; b++)
            this->data[off_first + b] = '\\0';
    }
''')])
OLDW = '''            if (from_DIRENT->d_type == DT_REG)
                result->push_back (base_path);

            lfs_get_dir_filenames (base_path.c_str (), result);
'''
R("gp-r-walk1", [(L, OLDW, '''            if (from_DIRENT->d_type == DT_REG)
                result->push_back (base_path);
            else if (from_DIRENT->d_type == DT_DIR)
                lfs_get_dir_filenames (base_path.c_str (), result);
''')])
R("gp-r-walk2", [(L, OLDW, '''            switch (from_DIRENT->d_type) {
            case DT_REG:
                result->push_back (base_path);
                break;
            default:
                lfs_get_dir_filenames (base_path.c_str (), result);
            }
''')])
R("gp-r-walk3", [(L, OLDW, '''            const bool is_file = from_DIRENT->d_type == DT_REG;
            if (is_file)
                result->emplace_back (base_path);
            if (!is_file)
                lfs_get_dir_filenames (base_path.c_str (), result);
'''), (L, "rename_item (string (from + it.substr (string (to).size ())), it);", "rename_item (string (from) + it.substr (strlen (to)), it);")])
R("gp-r-walk4", [(L, '''        if (strcmp (from_DIRENT->d_name, ".") != 0 && strcmp (from_DIRENT->d_name, "..") != 0) {

            string base_path = string (string (dirname) + "/" + string (from_DIRENT->d_name));
''', '''        const string name (from_DIRENT->d_name);
        if (name == "." || name == "..")
            continue;

        {

            string base_path = string (dirname) + "/" + name;
''')])
M("gp-walk-one", "C13", [(L, OLDW, '''            if (from_DIRENT->d_type == DT_REG)
                result->push_back (base_path);
            else if (result->empty ())
                lfs_get_dir_filenames (base_path.c_str (), result);
''')])
M("gp-walk-hidden", "C13", [(L, "        if (strcmp (from_DIRENT->d_name, \".\") != 0 && strcmp (from_DIRENT->d_name, \"..\") != 0) {\n\n            string base", "        if (from_DIRENT->d_name[0] != '.') {\n\n            string base")])
M("gp-walk-file", "C13", [(L, OLDW, '''            if (from_DIRENT->d_type == DT_REG && result->size () < 1000)
                result->push_back (base_path);

            lfs_get_dir_filenames (base_path.c_str (), result);
''')])
