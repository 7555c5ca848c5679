# firing of faults (C15) and torn writes (C20)
L = "lazyfs/src/lazyfs.cpp"
MN = "lazyfs/src/main.cpp"
FA = "libs/libpcache/src/faults.cpp"
LH = "lazyfs/include/lazyfs/lazyfs.hpp"

# --- C15
M("ci-crash-after-table", "C15", [(L, '''        opfaults = this->crash_faults_after_map.at (opname);
''', '''        opfaults = from_op_path.empty () ? this->crash_faults_after_map.at (opname) : this->crash_faults_before_map.at (opname);
''')])
M("ci-crash-first-only", "C15", [(L, '''                kill (lazyfs_pid, SIGKILL);
            }
        }
    }
}

void LazyFS::trigger_conf''', '''                kill (lazyfs_pid, SIGKILL);
            }
            if (is_multi_path) break;
        }
    }
}

void LazyFS::trigger_conf''')])
M("ci-crash-to-literal", "C15", [(L, 'std::regex to_rgx (".*" + to + ".*");\n\n                regex_match = std', 'std::regex to_rgx (to + ".*");\n\n                regex_match = std')])
M("ci-crash-to-or", "C15", [(L, 'regex_match = regex_match && std::regex_match (to_op_path, to_rgx);', 'regex_match = regex_match || std::regex_match (to_op_path, to_rgx);')])
M("ci-crash-from-to", "C15", [(L, 'regex_match = regex_match && std::regex_match (to_op_path, to_rgx);', 'regex_match = regex_match && std::regex_match (from_op_path, to_rgx);')])
M("ci-crash-none", "C15", [(L, 'if (to != "none")\n                    regex_match', 'if (to != "")\n                    regex_match')])
M("ci-crash-noreport", "C15", [(L, '''                this->injecting_fault_lock.lock();
                this_ ()->command_unsynced_data_report (this->injecting_fault);
                this->injecting_fault_lock.unlock();
                
                pid_t lazyfs_pid = getpid ();
''', '''                if (optiming == "after") {
                this->injecting_fault_lock.lock();
                this_ ()->command_unsynced_data_report (this->injecting_fault);
                this->injecting_fault_lock.unlock();
                }
                
                pid_t lazyfs_pid = getpid ();
''')])
M("ci-crash-term", "C15", [(L, '''                kill (lazyfs_pid, SIGKILL);
            }
        }
    }
}

void LazyFS::trigger_conf''', '''                kill (lazyfs_pid, SIGTERM);
            }
        }
    }
}

void LazyFS::trigger_conf''')])
M("ci-crash-skip-empty", "C15", [(L, '    if (opfaults.size () > 0) {\n', '    if (opfaults.size () > 1 || (opfaults.size () > 0 && optiming == "before")) {\n')])
M("ci-clear-count-late", "C15", [(L, '''                    int current_count = clear_fault->counter.load();
                    if (optiming == "before") {
                        current_count = clear_fault->counter.fetch_add(1) + 1;
                    }
            
                    if (clear_fault->timing == optiming) {
''', '''            
                    if (clear_fault->timing == optiming) {
                        int current_count = clear_fault->counter.load();
                        if (optiming == "before") {
                            current_count = clear_fault->counter.fetch_add(1) + 1;
                        }
''')])
M("ci-clear-offbyone", "C15", [(L, 'current_count = clear_fault->counter.fetch_add(1) + 1;', 'current_count = clear_fault->counter.fetch_add(1);')])
M("ci-clear-atleast", "C15", [(L, 'if (current_count == clear_fault->occurrence) {', 'if (current_count >= clear_fault->occurrence) {')])
M("ci-clear-anyto", "C15", [(L, 'if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {', 'if ((is_multi_path && (to_path == clear_fault->to || clear_fault->to.empty ())) || !is_multi_path) {')])
M("ci-clear-op", "C15", [(L, 'if (clear_fault && clear_fault->op == opname) {', 'if (clear_fault && (clear_fault->op == opname || (opname == "create" && clear_fault->op == "open"))) {')])
M("ci-clear-crash-both", "C15", [(L, '''                            if (clear_fault->crash) {

                                pid_t''', '''                            if (clear_fault->crash && optiming == "before") {

                                pid_t''')])
M("ci-clear-both-timings", "C15", [(L, '                    if (optiming == "before") {\n                        current_count', '                    if (optiming == "before" || clear_fault->timing == "after") {\n                        current_count')])
M("ci-clear-path", "C15", [(L, '    auto it = faults->find(from_path);\n', '    auto it = faults->find(to_path.empty () ? from_path : to_path);\n')])
M("ci-exit", "C15", [(L, '        if (fd == -1)\n            return -errno;\n\n        char* tmp', '        if (fd == -1)\n            abort ();\n\n        char* tmp')] if False else [(L, 'void LazyFS::command_checkpoint () {\n', 'void LazyFS::command_checkpoint () {\n    if (faults == NULL)\n        abort ();\n')])

R("cir-helper", [(L, '''                pid_t lazyfs_pid = getpid ();

                spdlog::critical ("Killing LazyFS pid {}!", lazyfs_pid);

                kill (lazyfs_pid, SIGKILL);
            }
        }
    }
}
''', '''                kill_self ();
            }
        }
    }
}
'''), (L, 'void LazyFS::trigger_crash_fault (string opname,', '''static void kill_self () {
    pid_t lazyfs_pid = getpid ();
    spdlog::critical ("Killing LazyFS pid {}!", lazyfs_pid);
    kill (lazyfs_pid, SIGKILL);
}

void LazyFS::trigger_crash_fault (string opname,''')])
R("cir-matches", [(L, '''            bool regex_match = true;

            auto const& from_rgx = it.first;

            if (is_multi_path) {

                string to = it.second;
                std::regex to_rgx (".*" + to + ".*");

                regex_match = std::regex_match (from_op_path, from_rgx);
                if (to != "none")
                    regex_match = regex_match && std::regex_match (to_op_path, to_rgx);

            } else {

                regex_match = std::regex_match (from_op_path, from_rgx);
            }

            if (regex_match) {
''', '''            if (fault_matches (it, is_multi_path, from_op_path, to_op_path)) {
'''), (L, 'void LazyFS::trigger_crash_fault (string opname,', '''static bool fault_matches (const pair<std::regex, string>& f, bool two, const string& from, const string& dest) {
    if (!std::regex_match (from, f.first))
        return false;
    if (!two || f.second == "none")
        return true;
    std::regex to_rgx (".*" + f.second + ".*");
    return std::regex_match (dest, to_rgx);
}

void LazyFS::trigger_crash_fault (string opname,''')])
R("cir-early", [(L, '''    if (opfaults.size () > 0) {

        bool is_multi_path = false;
        if (this_ ()->fs_op_multi_path.find (opname) != this_ ()->fs_op_multi_path.end ()) {
            is_multi_path = true;
        }

        for (auto const& it : opfaults) {
''', '''    if (opfaults.empty ())
        return;
    {
        const bool is_multi_path = this_ ()->fs_op_multi_path.count (opname) > 0;

        for (size_t i = 0; i < opfaults.size (); i++) {
            auto const& it = opfaults[i];
''')])
R("cir-clear-continue", [(L, '''            if (clear_fault && clear_fault->op == opname) {

                bool is_multi_path = this_ ()->fs_op_multi_path.find (opname) != this_ ()->fs_op_multi_path.end ();

                if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {
                    
                    int current_count = clear_fault->counter.load();
                    if (optiming == "before") {
                        current_count = clear_fault->counter.fetch_add(1) + 1;
                    }
            
                    if (clear_fault->timing == optiming) {

                        if (current_count == clear_fault->occurrence) {
''', '''            if (clear_fault == nullptr || clear_fault->op != opname)
                continue;
            {
                bool is_multi_path = this_ ()->fs_op_multi_path.find (opname) != this_ ()->fs_op_multi_path.end ();

                if (is_multi_path && to_path != clear_fault->to)
                    continue;
                {
                    if (optiming == "before") {
                        clear_fault->counter++;
                    }
            
                    if (clear_fault->timing == optiming) {

                        if (clear_fault->counter.load () == clear_fault->occurrence) {
''')])
R("cir-clear-find", [(L, '''    if (it != faults->end()) {
        auto& v_faults = it->second;

        for (auto fault : v_faults) {
            faults::ClearF* clear_fault''', '''    if (it == faults->end())
        return;
    {
        for (size_t k = 0; k < it->second.size (); ++k) {
            faults::Fault* fault = it->second[k];
            faults::ClearF* clear_fault''')])
R("cir-clear-onecond", [(L, '''                    if (clear_fault->timing == optiming) {

                        if (current_count == clear_fault->occurrence) {
''', '''                    const bool due = current_count == clear_fault->occurrence;
                    if (clear_fault->timing == optiming) {

                        if (due) {
''')])

# --- C20
M("ct-split-atleast", "C20", [(L, 'if (split_fault->counter.load() == split_fault->occurrence) {', 'if (split_fault->counter.load() >= split_fault->occurrence) {')])
M("ct-split-before", "C20", [(L, '''                split_fault->counter.fetch_add(1);

                if (split_fault->counter.load() == split_fault->occurrence) {''', '''                if (split_fault->counter.fetch_add(1) == split_fault->occurrence) {''')])
M("ct-split-part-off", "C20", [(L, 'if (i < p - 1)\n', 'if (i < p)\n')])
M("ct-split-part-off2", "C20", [(L, 'if (i < p - 1)\n', 'if (i < p - 2)\n')])
M("ct-split-len", "C20", [(L, 'size_to_persist = split_fault->parts_bytes[p - 1];', 'size_to_persist = split_fault->parts_bytes[p_index++];'), (L, '                    if (split_fault->parts == -1) {\n', '                    int p_index = 0;\n                    if (split_fault->parts == -1) {\n')])
M("ct-split-swap", "C20", [(L, 'pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));', 'pwrite(fd,buf+get<2>(persist),get<1>(persist),get<2>(persist));')])
M("ct-split-rel", "C20", [(L, 'off_to_persist = offset + buf_i;', 'off_to_persist = buf_i;')])
M("ct-split-rem", "C20", [(L, 'if (extra_size_to_persist>0 && p == split_fault->parts) {', 'if (extra_size_to_persist>0 && p_i + 1 == split_fault->persist.size()) {')])
M("ct-split-norem", "C20", [(L, '                                final_size_to_persist += extra_size_to_persist;\n', '                                final_size_to_persist += split_fault->parts > 2 ? extra_size_to_persist : 0;\n')])
M("ct-split-eqoff", "C20", [(L, 'off_to_persist = offset + (p - 1) * size_to_persist;', 'off_to_persist = offset + p_i * size_to_persist;')])
M("ct-split-sum", "C20", [(L, 'if (sum!=size) {', 'if (sum>size) {')])
M("ct-split-short", "C20", [(L, 'if (pw==get<1>(persist)) spdlog', 'if (pw>=0) spdlog')])
M("ct-split-crashalways", "C20", [(L, '''                            spdlog::warn("[lazyfs.faults]: There was a problem spliting the {} write for the file {} (pwrite failed).",split_fault->occurrence,path);
                            close (fd);
                            return res;
''', '''                            spdlog::warn("[lazyfs.faults]: There was a problem spliting the {} write for the file {} (pwrite failed).",split_fault->occurrence,path);
                            break;
''')])
M("ct-split-before-crash", "C20", [(L, '''this_ ()->add_crash_fault ("after", "write", path_s, "none");            
                    spdlog''', '''this_ ()->add_crash_fault ("before", "write", path_s, "none");            
                    spdlog''')])
M("ct-split-skip", "C20", [(L, '''                            tuple <off_t,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                            persist_info.push_back(info_part);
''', '''                            tuple <off_t,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                            if (final_size_to_persist > 1)
                                persist_info.push_back(info_part);
''')])
M("ct-seq-group3", "C20", [(L, 'if (fault->counter.load()==2) {', 'if (fault->counter.load()>=2) {')])
M("ct-seq-group1", "C20", [(L, 'if (fault->counter.load()==2) {', 'if (fault->counter.load()==1) {')])
M("ct-seq-pend-any", "C20", [(L, '''            //Update group counter
            if (fault->group_counter.load() == fault->occurrence) {''', '''            //Update group counter
            if (fault->group_counter.load() >= fault->occurrence) {''')])
M("ct-seq-offset", "C20", [(L, 'pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);', 'pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,offset);')])
M("ct-seq-size", "C20", [(L, 'pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);', 'pw = pwrite(fd,this->pending_write->buf,size,this->pending_write->offset);')])
M("ct-seq-crash-max", "C20", [(L, 'int max = fault->persist.back();', 'int max = fault->persist.front();')])
M("ct-seq-crash-pending", "C20", [(L, 'if ((fault->persist).size()==1) {', 'if ((fault->persist).size()<=2) {')])
M("ct-seq-keep", "C20", [(L, '            delete(this->pending_write); this->pending_write = NULL;\n        }\n        (this', '            if (fault->counter.load () > 2) { delete(this->pending_write); this->pending_write = NULL; }\n        }\n        (this')])
M("ct-seq-allgroups", "C20", [(L, '''                if (fault->group_counter.load() == fault->occurrence) {
                    fd = open(path''', '''                if (fault->group_counter.load() >= fault->occurrence) {
                    fd = open(path''')])
M("ct-seq-short", "C20", [(L, 'if (pw == size) {', 'if (pw > 0) {')])
M("ct-seq-notkept", "C20", [(L, 'if (fault->counter==1) { //If', 'if (fault->counter==1 && fault->persist.size () > 1) { //If')])
M("ct-sync-nocounter", "C20", [(L, '    this_ ()->restart_counter(path,"write");', '    if (!isdatasync) this_ ()->restart_counter(path,"write");')])
M("ct-sync-nopend", "C20", [(L, '    this_ ()->check_and_delete_pendingwrite(path); //', '    if (this_ ()->FSCache->has_content_cached (path)) this_ ()->check_and_delete_pendingwrite(path); //')])
M("ct-sync-anypend", "C20", [(L, 'if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {', 'if (this->pending_write && (res = (strncmp(this->pending_write->path,path,strlen(path)) == 0))) {')])
M("ct-sync-group", "C20", [(L, '                reorder_fault->counter.store(0);\n', '                reorder_fault->counter.store(0);\n                reorder_fault->group_counter.store(0);\n')])
M("ct-write-size", "C20", [(L, 'bool crash_added = this_ () -> persist_write(path,buf,size,offset);', 'bool crash_added = this_ () -> persist_write(path,buf,res > 0 ? res : 0,offset);')])
M("ct-write-skip", "C20", [(L, 'if (!crash_added) { //At', 'if (!crash_added && offset > 0) { //At')])
M("ct-write-copy", "C20", [(L, '    this->size = size;', '    this->size = strlen (buf);')])
M("ct-owner", "C20", [(L, 'void LazyFS::command_checkpoint () {\n', 'void LazyFS::command_checkpoint () {\n    for (auto& f : *faults)\n        restart_counter (f.first, "write");\n')])

R("ctr-split-continue", [(L, '''                if (split_fault->counter.load() == split_fault->occurrence) {
                    fd = open''', '''                if (split_fault->counter.load() != split_fault->occurrence)
                    return res;
                {
                    fd = open''')])
R("ctr-split-count", [(L, '''                split_fault->counter.fetch_add(1);

                if (split_fault->counter.load() == split_fault->occurrence) {''', '''                const int number = split_fault->counter.fetch_add(1) + 1;

                if (number == split_fault->occurrence) {''')])
R("ctr-split-sum", [(L, '''                            for (int i = 0; i< split_fault->parts_bytes.size(); i++) {
                                sum += split_fault->parts_bytes[i];
                                if (i < p - 1)
                                    buf_i += split_fault->parts_bytes[i];
                            }
''', '''                            for (int i = 0; i< split_fault->parts_bytes.size(); i++) {
                                if (i + 1 < p)
                                    buf_i += split_fault->parts_bytes.at (i);
                                sum += split_fault->parts_bytes.at (i);
                            }
''')])
R("ctr-split-helper", [(L, '''                    for (auto & persist : persist_info) {
                        int pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
                        if (pw==get<1>(persist)) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,get<1>(persist),get<2>(persist));      
                        else {''', '''                    for (size_t k = 0; k < persist_info.size (); k++) {
                        off_t from = get<0>(persist_info[k]);
                        size_t len = get<1>(persist_info[k]);
                        off_t to = get<2>(persist_info[k]);
                        int pw = pwrite(fd,buf+from,len,to);
                        if (pw==len) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,len,to);      
                        else {''')])
R("ctr-split-direct", [(L, '''                            tuple <off_t,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                            persist_info.push_back(info_part);
''', '''                            persist_info.emplace_back(buf_i,final_size_to_persist,off_to_persist);
''')])
R("ctr-seq-cond", [(L, '''        if (find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end()) {  //If count is in vector persist
            if (fault->counter==1) {''', '''        const bool selected = find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end();
        if (selected) {  //If count is in vector persist
            if (fault->counter.load () == 1) {''')])
R("ctr-seq-helper", [(L, '''                        int max = fault->persist.back();
                        if (max == fault->counter) {''', '''                        const bool last_one = fault->counter.load () == fault->persist.back();
                        if (last_one) {''')])
R("ctr-seq-early", [(L, '''    if (fault) { //Fault for path found
        (this''', '''    if (fault == NULL)
        return false;
    { //Fault for path found
        (this''')])
R("ctr-sync-order", [(L, '''    this_ ()->restart_counter(path,"write"); //Reset counter of op write for this path
    this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it
''', '''    this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it
    this_ ()->restart_counter(path,"write"); //Reset counter of op write for this path
''')])
R("ctr-pend", [(L, 'if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {', 'if (this->pending_write != NULL)\n        res = string (path) == this->pending_write->path;\n    if (res) {')])

# one clear fault per file
R("cir-clear-break", [(L, '''                                this_ ()->command_fault_clear_cache ();
                            }   
''', '''                                this_ ()->command_fault_clear_cache ();
                                break;
                            }   
''')])
R("cir-clear-return", [(L, '''                                this_ ()->command_fault_clear_cache ();
                            }   
''', '''                                this_ ()->command_fault_clear_cache ();
                                return;
                            }   
''')])
