# commands (C11, C18, C19), the FIFO worker (C17) and fault installation (C16)
L = "lazyfs/src/lazyfs.cpp"
MN = "lazyfs/src/main.cpp"
C = "libs/libpcache/src/cache.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
FA = "libs/libpcache/src/faults.cpp"
CF = "libs/libpcache/src/config/config.cpp"

# --- C11 clear
M("cm-clear-nodrop", "C11", [(C, '''            this->engine->remove_cached_blocks (it);

            this->_delete_item (it);
''', '''            this->_delete_item (it);
''')])
M("cm-clear-onlyfirst", "C11", [(C, '''        for (auto const& it : item_buckets) {

            lockItem (it);
''', '''        for (auto const& it : item_buckets) {

            if (this->_get_content_ptr (it)->is_synced ())
                continue;

            lockItem (it);
''')])
M("cm-clear-mapped", "C11", [(C, '''                           item_buckets.push_back (ref.first);
''', '''                           if (ref.second->get_data ()->count_blocks () > 0)
                               item_buckets.push_back (ref.first);
''')])
M("cm-clear-noitems", "C11", [(C, '''            this->_delete_item (it);

            unlockItem (it);

            _forget_item_lock (it);
        }

        lock.unlock ();
    }
}
''', '''            unlockItem (it);

            _forget_item_lock (it);
        }

        lock.unlock ();
    }
}
''')])
M("cm-clear-sync", "C11", [(C, '''            lockItem (it);

            this->engine->remove_cached_blocks (it);

            this->_delete_item (it);
''', '''            lockItem (it);

            this->sync_owner (it, true, (char*)it.c_str ());
            this->engine->remove_cached_blocks (it);

            this->_delete_item (it);
'''), ])
M("cm-clear-cmdskip", "C11", [(L, '''    FSCache->clear_all_cache ();

    spdlog::warn ("[lazyfs.cmds]: cache is cleared.");''', '''    if (FSCache->get_cache_usage () > 0)
        FSCache->clear_all_cache ();

    spdlog::warn ("[lazyfs.cmds]: cache is cleared.");''')])
M("cm-clear-engine-noreset", "C11", [(E, '''        this->owner_pages_mapping.erase (owner);
        this->owner_ordered_pages_mapping.erase (owner);
    }

    return true;
}

void CustomCacheEngine::make_block''', '''        this->owner_ordered_pages_mapping.erase (owner);
    }

    return true;
}

void CustomCacheEngine::make_block''')])
M("cm-clear-engine-ordered", "C11", [(E, '''        this->owner_pages_mapping.erase (owner);
        this->owner_ordered_pages_mapping.erase (owner);
    }

    return true;
}

void CustomCacheEngine::make_block''', '''        this->owner_pages_mapping.erase (owner);
    }

    return true;
}

void CustomCacheEngine::make_block''')])
M("cm-clear-page-notreset", "C14", [(E, '''            Page* page_ptr = _get_page_ptr (*page_it);
            page_ptr->reset ();
            page_ptr->change_owner ("none");
        }

        this->owner_pages''', '''            Page* page_ptr = _get_page_ptr (*page_it);
            page_ptr->change_owner ("none");
        }

        this->owner_pages''')])
M("cm-clear-early", "C11,C17", [(MN, '''                filesystem->command_fault_clear_cache ();
                
                if (write_completed_faults) {
                    const char* clear_cache = "finished::clear-cache\\n";
                    fifo_lock.lock();
                    if ((ret = write(fd_fifo_completed, clear_cache, strlen(clear_cache))) < 0) {
                        spdlog::warn ("[lazyfs.faults.worker]: failed to write to notifier fifo");
                    };
                    fifo_lock.unlock();
                }
''', '''                if (write_completed_faults) {
                    const char* clear_cache = "finished::clear-cache\\n";
                    fifo_lock.lock();
                    if ((ret = write(fd_fifo_completed, clear_cache, strlen(clear_cache))) < 0) {
                        spdlog::warn ("[lazyfs.faults.worker]: failed to write to notifier fifo");
                    };
                    fifo_lock.unlock();
                }
                filesystem->command_fault_clear_cache ();
''')])
M("cm-clear-nonotify", "C11,C17", [(MN, '''                    if ((ret = write(fd_fifo_completed, clear_cache, strlen(clear_cache))) < 0) {
                        spdlog::warn ("[lazyfs.faults.worker]: failed to write to notifier fifo");
                    };
                    fifo_lock.unlock();
''', '''                    if (ret > 40 && (ret = write(fd_fifo_completed, clear_cache, strlen(clear_cache))) < 0) {
                        spdlog::warn ("[lazyfs.faults.worker]: failed to write to notifier fifo");
                    };
                    fifo_lock.unlock();
''')])
M("cm-clear-shortnotify", "C11,C17", [(MN, "write(fd_fifo_completed, clear_cache, strlen(clear_cache))", "write(fd_fifo_completed, clear_cache, strlen(clear_cache) - 1)")])

# --- C19 checkpoint
M("cm-cp-dataonly-skip", "C19", [(C, '''    for (auto const& it : this->file_inode_mapping)
        this->sync_owner (it.second, false, (char*)it.first.c_str ());''', '''    for (auto const& it : this->file_inode_mapping)
        if (it.first != it.second && it.second.size () > 1)
            this->sync_owner (it.second, false, (char*)it.first.c_str ());''')])
M("cm-cp-break", "C19", [(C, '''    for (auto const& it : this->file_inode_mapping)
        this->sync_owner (it.second, false, (char*)it.first.c_str ());''', '''    for (auto const& it : this->file_inode_mapping)
        if (this->sync_owner (it.second, false, (char*)it.first.c_str ()) != 0)
            break;''')])
M("cm-cp-path", "C19", [(C, '''        this->sync_owner (it.second, false, (char*)it.first.c_str ());''', '''        this->sync_owner (it.second, false, (char*)this->file_inode_mapping.begin ()->first.c_str ());''')])
M("cm-cp-owner", "C19", [(C, '''        this->sync_owner (it.second, false, (char*)it.first.c_str ());''', '''        this->sync_owner (it.first, false, (char*)it.first.c_str ());''')])
M("cm-cp-drop", "C19", [(C, '''        this->sync_owner (it.second, false, (char*)it.first.c_str ());''', '''    {
        this->sync_owner (it.second, false, (char*)it.first.c_str ());
        this->engine->remove_cached_blocks (it.second);
    }''')])
M("cm-cp-cond", "C19", [(L, '''    FSCache->full_checkpoint ();''', '''    if (FSCache->get_cache_usage () > 50)
        FSCache->full_checkpoint ();''')])

# --- C18 report
M("cm-rep-inverted", "C18", [(C, '''        if (not it.second->is_synced ()) {
            unsynced_data''', '''        if (it.second->is_synced ()) {
            unsynced_data''')])
M("cm-rep-first", "C18", [(C, '''                std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
''', '''                std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
            if (unsynced_data.size () >= 64)
                break;
''')])
M("cm-rep-syncflag", "C18", [(C, '''                std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
''', '''                std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
            it.second->set_data_sync_flag (true);
''')])
M("cm-rep-flagidx", "C18", [(E, '''            bool is_synced = std::get<3> (it.second);

            if (not is_synced)
                res.push_back''', '''            bool is_synced = not page_ptr->is_page_dirty ();

            if (not is_synced && res.size () < 10000)
                res.push_back''')])
M("cm-rep-blockneg", "C18", [(E, '''            if (not is_synced)
                res.push_back (std::make_tuple (it''', '''            if (is_synced)
                res.push_back (std::make_tuple (it''')])
M("cm-rep-excl", "C18", [(L, "paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();", "paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();")])
M("cm-rep-files1", "C18", [(L, '''                if (std::get<2> (it).size () > 0 && files_mapped.size () > 0) {''', '''                if (std::get<2> (it).size () > 0 && files_mapped.size () == 1) {''')])
M("cm-rep-blocks1", "C18", [(L, '''                if (std::get<2> (it).size () > 0 && files_mapped.size () > 0) {''', '''                if (std::get<2> (it).size () > 1 && files_mapped.size () > 0) {''')])
M("cm-rep-next", "C18", [(L, '''                            block_id != (get<0> (*next_it) - 1)) {''', '''                            block_id != (get<0> (*next_it) - 2)) {''')])
M("cm-rep-find", "C18", [(C, '''        if (it->second == inode)
            res.push_back (it->first);''', '''        if (it->second == inode && res.empty ())
            res.push_back (it->first);''')])

# --- C17 worker
M("cm-w-swap", "C17", [(MN, '''                filesystem->command_checkpoint ();
''', '''                filesystem->command_display_cache_usage ();
''')])
M("cm-w-checkclear", "C17", [(MN, '''                filesystem->command_checkpoint ();
''', '''                filesystem->command_checkpoint ();
                filesystem->command_fault_clear_cache ();
''')])
M("cm-w-prefix", "C17", [(MN, '''} else if (!strcmp (buffer, "lazyfs::clear-cache")) {''', '''} else if (!strncmp (buffer, "lazyfs::clear", 13)) {''')])
M("cm-w-neg", "C17", [(MN, '''} else if (!strcmp (buffer, "lazyfs::clear-cache")) {''', '''} else if (strcmp (buffer, "lazyfs::clear-cache") > 0) {''')])
M("cm-w-name", "C17", [(MN, '''} else if (!strcmp (buffer, "lazyfs::cache-checkpoint")) {''', '''} else if (!strcmp (buffer, "lazyfs::checkpoint")) {''')])
M("cm-w-stop", "C17", [(MN, '''                spdlog::info ("[lazyfs.faults.worker]: command unknown '{}'", string (buffer));
''', '''                spdlog::info ("[lazyfs.faults.worker]: command unknown '{}'", string (buffer));
                break;
''')])
M("cm-w-exit", "C17", [(MN, '''                spdlog::info ("[lazyfs.faults.worker]: command unknown '{}'", string (buffer));
''', '''                spdlog::info ("[lazyfs.faults.worker]: command unknown '{}'", string (buffer));
                if (command_str.empty ()) exit (1);
''')])
M("cm-w-rethrow", "C17", [(MN, '''                // bad regular expressions or numbers
''', '''                if (command_str.rfind ("lazyfs::", 0) == 0) throw;
''')])
M("cm-w-catchnarrow", "C17", [(MN, '''catch (const std::exception& err) {''', '''catch (const std::regex_error& err) {''')])
M("cm-w-overrun", "C17", [(MN, '''            buffer[ret - 1] = '\\0';''', '''            buffer[ret] = '\\0';''')])
M("cm-w-noterm", "C17", [(MN, '''            buffer[ret - 1] = '\\0';''', '''            if (buffer[ret - 1] == '\\n') buffer[ret - 1] = '\\0';''')])
# --- C16 install
M("cm-i-nooptcheck", "C16", [(MN, '''                        if (tmp_op.length () != 0 &&
                            filesystem->allow_crash_fs_operations.find (tmp_op) !=
                                filesystem->allow_crash_fs_operations.end ())''', '''                        if (tmp_op.length () != 0)''')])
M("cm-i-timing", "C16", [(MN, '''(tmp_tim == "before" || tmp_tim == "after"))''', '''(tmp_tim == "before" || tmp_tim != "after"))''')])
M("cm-i-swapargs", "C16", [(MN, '''                                                 crash_from_rgx,
                                                 crash_to_rgx);

                } else {''', '''                                                 crash_to_rgx,
                                                 crash_from_rgx);

                } else {''')])
M("cm-i-fromto", "C16", [(MN, '''                    if (crash_from_rgx == "none" || crash_to_rgx != "none") {''', '''                    if (crash_from_rgx == "none" && crash_to_rgx != "none") {''')])
M("cm-i-multi", "C16", [(MN, '''                    if (crash_from_rgx == "none" && crash_to_rgx == "none") {''', '''                    if (crash_from_rgx == "none" || crash_to_rgx == "none") {''')])
M("cm-i-vf", "C16", [(MN, '''                if (VF) {

                    spdlog''', '''                if (VF || errors.size () == 1) {

                    spdlog''')])
M("cm-i-afterlist", "C16", [(L, '''        auto& crash_regex_list = crash_faults_after_map.at (crash_operation);''', '''        auto& crash_regex_list = crash_faults_before_map.at (crash_operation);''')])
M("cm-i-replace", "C16", [(L, '''        crash_regex_list.push_back ({from_rgx, crash_regex_to});

    } else {''', '''        crash_regex_list.clear ();
        crash_regex_list.push_back ({from_rgx, crash_regex_to});

    } else {''')])
M("cm-i-topnoval", "C16", [(L, '''        errors = faults::SplitWriteF::validate(occurrence, persistv, std::nullopt, parts_bytes_v);
''', '')])
M("cm-i-topdup", "C16", [(L, '''                if (dynamic_cast<faults::SplitWriteF*>(fault) != nullptr) {''', '''                if (dynamic_cast<faults::ReorderF*>(fault) != nullptr) {''')])
M("cm-i-topdup2", "C16", [(L, '''                    errors.push_back("Only one torn-op fault per file is allowed.");
                    valid_fault = false;''', '''                    errors.push_back("Only one torn-op fault per file is allowed.");''')])
M("cm-i-topparts", "C16", [(MN, '''if ((parts=="none") == (parts_bytes=="none")) {''', '''if ((parts=="none") && (parts_bytes=="none")) {''')])
M("cm-i-seqpath", "C16", [(MN, "add_torn_seq_fault(file, op, persist)", "add_torn_seq_fault(op, file, persist)")])
M("cm-i-seqsort", "C16", [(L, '''    sort(persistv.begin(), persistv.end());
''', '')])
M("cm-i-seqnoval", "C16", [(L, '''    vector<string> errors = fault->validate();

    bool valid''', '''    vector<string> errors;

    bool valid''')])
M("cm-i-persist0", "C16", [(FA, "if (p <= 0 || p > nr_parts) {", "if (p < 0 || p > nr_parts) {")])
M("cm-i-persistN", "C16", [(FA, "if (p <= 0 || p > nr_parts) {", "if (p <= 0 || p > nr_parts + 1) {")])
M("cm-i-partsneg", "C16", [(FA, "parts.has_value() && parts.value() <= 0", "parts.has_value() && parts.value() < 0")])
M("cm-i-pb", "C16", [(FA, '''        for (auto & p : parts_bytes.value()) {
            if (p <= 0) {''', '''        for (auto & p : parts_bytes.value()) {
            if (p < 0) {''')])
M("cm-i-seqp", "C16", [(FA, '''    for (auto & p : this->persist) {
        if (p <= 0) {
            errors.push_back("Persist must be greater than 0.");
            break;''', '''    for (auto & p : this->persist) {
        if (p <= 0) {
            errors.clear();
            break;''')])
M("cm-i-seqocc", "C16", [(FA, '''    if (this->op != "write") {
        errors.push_back("Operation must be \\"write\\".");
    }
    if (this->occurrence <= 0) {''', '''    if (this->op != "write") {
        errors.push_back("Operation must be \\"write\\".");
    }
    if (this->occurrence < 0) {''')])
M("cm-i-clrto", "C16", [(FA, '''if (this->from == "none" || this->to == "none") {''', '''if (this->from == "none" && this->to == "none") {''')])
M("cm-i-clrfrom", "C16", [(FA, '''if (this->from == "none" || this->to != "none") {''', '''if (this->from == "none") {''')])
M("cm-i-clrop", "C16", [(FA, '''    if (ClearF::allow_crash_fs_operations.find(this->op) == ClearF''', '''    if (this->op.empty() && ClearF::allow_crash_fs_operations.find(this->op) == ClearF''')])
M("cm-i-clrtim", "C16", [(FA, '''this->timing != "before" && this->timing != "after"''', '''this->timing == "" && this->timing != "after"''')])
M("cm-i-clrset", "C16", [(FA, '''const unordered_set<string> ClearF::fs_op_multi_path = {"rename", "link", "symlink"};''', '''const unordered_set<string> ClearF::fs_op_multi_path = {"rename", "link"};''')])
M("cm-i-cfg-occ", "C16", [(CF, '''                    error_msg += "\\tKey 'occurrence' for some injection of type \\"clear\\" is not defined in the configuration file.\\n";
''', ''), (CF, '''                int occurrence = 0;
                if (!injection.contains("occurrence")) {
                    valid_fault = false;
                } else''', '''                int occurrence = 1;
                if (injection.contains("occurrence"))''')])
M("cm-i-cfg-crash", "C16", [(CF, "crash = toml::find<bool>(injection,\"crash\");", "crash = true;")])
M("cm-i-cfg-swap", "C16", [(CF, "new faults::ClearF(timing,op,from,to,occurrence,crash)", "new faults::ClearF(op,timing,from,to,occurrence,crash)")])
M("cm-i-cfg-fromto", "C16", [(CF, "new faults::ClearF(timing,op,from,to,occurrence,crash)", "new faults::ClearF(timing,op,to,from,occurrence,crash)")])
M("cm-i-cfg-key", "C16", [(CF, '''                    auto it = faults.find(from);
                    if (it == faults.end()) {
                        vector<faults::Fault*> v_faults;
                        v_faults.push_back(fault);
                        faults[from] = v_faults;''', '''                    auto it = faults.find(from);
                    if (it == faults.end()) {
                        vector<faults::Fault*> v_faults;
                        v_faults.push_back(fault);
                        faults[to] = v_faults;''')])
M("cm-i-cfg-noval", "C16", [(CF, '''                if (!valid_fault || errors.size() > 0) {
                    for (string error : errors) {
                        error_msg += "\\t" + error + "\\n";''', '''                if (!valid_fault) {
                    for (string error : errors) {
                        error_msg += "\\t" + error + "\\n";''')])
M("cm-i-cfg-sort", "C16", [(CF, "                    sort(persist.begin(), persist.end());\n", "")])
M("cm-i-cfg-excl", "C16", [(CF, "if (injection.contains(\"parts\") && injection.contains(\"parts_bytes\")) {", "if (injection.contains(\"parts\") && injection.contains(\"parts_bytes\") && occurrence == 0) {")])
M("cm-i-cfg-dup", "C16", [(CF, '''                        for (faults::Fault* f : it->second) {
                            faults::ClearF* clear_fault = dynamic_cast<faults::ClearF*>(f);
                            if (clear_fault) {''', '''                        for (faults::Fault* f : it->second) {
                            faults::ClearF* clear_fault = dynamic_cast<faults::ClearF*>(f);
                            if (clear_fault && clear_fault->op == op) {''')])
M("cm-i-cfg-overwrite", "C16", [(CF, '''                        if (valid_fault) (it->second).push_back(fault);
                        else delete fault;
                    }

                }
''', '''                        if (valid_fault) it->second = {fault};
                        else delete fault;
                    }

                }
''')])
M("cm-i-cfg-torntype", "C16", [(CF, "if (type == TORN_SEQ) {", "if (type == TORN_SEQ && programmed_injections.size() < 3) {")])
M("cm-i-ctor", "C16", [(FA, "    this->parts_bytes = parts_bytes;\n", "")])
M("cm-i-ctor2", "C16", [(FA, '''    this->persist = persist;
    this->occurrence = occurrence;
    (this->group_counter).store(0);

}''', '''    this->persist = persist;
    this->occurrence = 1;
    (this->group_counter).store(0);

}''')])
M("cm-i-ctor3", "C16", [(FA, '''    this->from = from;
    this->to = to;''', '''    this->from = from;
    this->to = from;''')])
M("cm-i-leak", "C16", [(L, '''    if (errors.size() != 0) delete fault;

    return errors;
}

vector<string> LazyFS::add_torn_seq''', '''    return errors;
}

vector<string> LazyFS::add_torn_seq''')])

# --- refactorings
R("cmr-clear-for", [(C, '''        std::list<string> item_buckets;
        std::for_each (this->contents.begin (),
                       this->contents.end (),
                       [&] (const std::pair<const string, Item*>& ref) {
                           item_buckets.push_back (ref.first);
                       });
''', '''        std::list<string> item_buckets;
        for (auto const& ref : this->contents)
            item_buckets.push_back (ref.first);
''')])
R("cmr-clear-while", [(C, '''        std::list<string> item_buckets;
        std::for_each (this->contents.begin (),
                       this->contents.end (),
                       [&] (const std::pair<const string, Item*>& ref) {
                           item_buckets.push_back (ref.first);
                       });

        for (auto const& it : item_buckets) {
''', '''        while (!this->contents.empty ()) {

            string it = this->contents.begin ()->first;
''')])
R("cmr-cp-copy", [(C, '''    for (auto const& it : this->file_inode_mapping)
        this->sync_owner (it.second, false, (char*)it.first.c_str ());''', '''    for (auto it = this->file_inode_mapping.begin (); it != this->file_inode_mapping.end (); ++it) {
        string inode = it->second;
        string path  = it->first;
        this->sync_owner (inode, false, (char*)path.c_str ());
    }''')])
R("cmr-rep-continue", [(C, '''        if (not it.second->is_synced ()) {
            unsynced_data.push_back (
                std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
        }
''', '''        if (it.second->is_synced ())
            continue;

        auto blocks = this->engine->get_dirty_blocks_info (it.first);
        unsynced_data.emplace_back (it.first, 0, blocks);
''')])
R("cmr-dirty-find", [(E, '''    if (this->owner_ordered_pages_mapping.find (owner) !=
        this->owner_ordered_pages_mapping.end ()) {

        for (auto const& it : this->owner_ordered_pages_mapping.at (owner)) {

            auto const& page''', '''    auto owner_it = this->owner_ordered_pages_mapping.find (owner);
    if (owner_it != this->owner_ordered_pages_mapping.end ()) {

        for (auto const& it : owner_it->second) {

            auto const& page''')])
R("cmr-w-strcmp", [(MN, '''} else if (!strcmp (buffer, "lazyfs::cache-checkpoint")) {''', '''} else if (command_str == "lazyfs::cache-checkpoint") {'''),
                   (MN, '''} else if (!strcmp (buffer, "lazyfs::clear-cache")) {''', '''} else if (strcmp (buffer, "lazyfs::clear-cache") == 0) {''')])
R("cmr-w-order", [(MN, '''            } else if (!strcmp (buffer, "lazyfs::display-cache-usage")) {

                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
                filesystem->command_display_cache_usage ();

            } else if (!strcmp (buffer, "lazyfs::cache-checkpoint")) {

                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
                filesystem->command_checkpoint ();
''', '''            } else if (!strcmp (buffer, "lazyfs::cache-checkpoint")) {

                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
                filesystem->command_checkpoint ();

            } else if (!strcmp (buffer, "lazyfs::display-cache-usage")) {

                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
                filesystem->command_display_cache_usage ();
''')])
R("cmr-w-notify", [(MN, '''                    if ((ret = write(fd_fifo_completed, clear_cache, strlen(clear_cache))) < 0) {
                        spdlog::warn ("[lazyfs.faults.worker]: failed to write to notifier fifo");
                    };
''', '''                    ret = write(fd_fifo_completed, clear_cache, strlen(clear_cache));
                    if (ret < 0)
                        spdlog::warn ("[lazyfs.faults.worker]: failed to write to notifier fifo");
''')])
R("cmr-i-crash", [(L, '''    if (crash_timing == "before") {

        auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
        std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*" + crash_regex_from + ".*");
        crash_regex_list.push_back ({from_rgx, crash_regex_to});

    } else {

        auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
        std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*" + crash_regex_from + ".*");
        crash_regex_list.push_back ({from_rgx, crash_regex_to});
    }
''', '''    std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*" + crash_regex_from + ".*");

    if (crash_timing == "before")
        crash_faults_before_map.at (crash_operation).push_back ({from_rgx, crash_regex_to});
    else
        crash_faults_after_map.at (crash_operation).push_back ({from_rgx, crash_regex_to});
''')])
R("cmr-i-break", [(L, '''                if (dynamic_cast<faults::SplitWriteF*>(fault) != nullptr) {
                    errors.push_back("Only one torn-op fault per file is allowed.");
                    valid_fault = false;
                }''', '''                if (dynamic_cast<faults::SplitWriteF*>(fault) != nullptr) {
                    errors.push_back("Only one torn-op fault per file is allowed.");
                    valid_fault = false;
                    break;
                }''')])
R("cmr-i-empty", [(L, '''    if (errors.size() != 0) delete fault;

    return errors;
}

void''', '''    if (!errors.empty())
        delete fault;

    return errors;
}

void''')])
R("cmr-i-validators", [(FA, "if (p <= 0 || p > nr_parts) {", "if (!(p >= 1 && p <= nr_parts)) {"),
   (FA, '''if (this->from == "none" || this->to == "none") {''', '''if (!(this->from != "none" && this->to != "none")) {'''),
   (FA, "    if (this->occurrence <= 0) {\n        errors.push_back(\"Occurrence must be greater than 0.\");\n    }\n\n    if (ClearF", "    if (this->occurrence < 1) {\n        errors.push_back(\"Occurrence must be greater than 0.\");\n    }\n\n    if (ClearF")])
R("cmr-i-op", [(MN, '''                        if (tmp_op.length () != 0 &&
                            filesystem->allow_crash_fs_operations.find (tmp_op) !=
                                filesystem->allow_crash_fs_operations.end ())
                            crash_operation = tmp_op;
                        else {
                            VF = false;
                            errors.push_back ("operation not available");
                        }
''', '''                        if (tmp_op.empty () ||
                            filesystem->allow_crash_fs_operations.count (tmp_op) == 0) {
                            VF = false;
                            errors.push_back ("operation not available");
                        } else
                            crash_operation = tmp_op;
''')])
R("cmr-cfg-insert", [(CF, '''                    auto it = faults.find(from);
                    if (it == faults.end()) {
                        vector<faults::Fault*> v_faults;
                        v_faults.push_back(fault);
                        faults[from] = v_faults;''', '''                    auto it = faults.find(from);
                    if (it == faults.end()) {
                        faults[from].push_back(fault);''')])
R("cmr-cfg-bool", [(CF, '''                if (!valid_fault || errors.size() > 0) {
                    for (string error : errors) {
                        error_msg += "\\t" + error + "\\n";''', '''                if (!errors.empty()) valid_fault = false;

                if (!valid_fault) {
                    for (string error : errors) {
                        error_msg += "\\t" + error + "\\n";''')])
