# text of the properties; executed by meta.py
prop("C01", "Crash and clear faults are consulted before and after every operation",
     "Every file operation that faults can name (open, create, read, write, truncate, fsync, unlink, rename, link, symlink, access) consults the "
     "crash faults and the clear-cache faults for its own name and its own path(s) exactly once with timing 'before', ahead of any effect the operation has, and "
     "exactly once with timing 'after', once all its effects are complete and before it reports success. An operation never consults the faults of "
     "another operation, of another path, or with source and destination exchanged, and no return path that reports success skips a consultation.",
     ["inputs", "fault_sequences", "crash_points"],
     "every handler, every path through it (including early returns, end-of-file, zero-size and eviction-refused branches), every fault configuration",
     "Tests exercise a few operation/timing pairs on the main path; a trigger skipped on an early return or placed after the effect is only visible with that "
     "particular fault installed on that particular path.",
     [LFS], "the two trigger functions called at the start and at the end of each operation handler",
     "typestate automaton over the interprocedural flow graph",
     "All paths of all handlers under an abstraction of data (branches pruned only when the syntax tree decides them); assumes callbacks are reached through the FUSE table.")
prop("C02", "Cache commands and file operations exclude each other",
     "While a cache command (clear cache, checkpoint, report, or a clear fault) runs, no file operation is in progress on the cache or the backing files, and "
     "the other way round: an operation's effects are never split by a command. A fault that fires inside an operation does not wait for that same operation "
     "to finish, and no operation or command leaves the exclusion in force after it returns.",
     ["schedules"],
     "every interleaving of the FIFO thread with any number of FUSE threads, every return path",
     "The tests run one client thread and send commands while it is idle; a missing or short critical section shows only in specific interleavings.",
     [LFS, MAINF], "the shared/exclusive command lock taken by handlers, by the FIFO worker and by clear faults",
     "interprocedural lockset analysis",
     "Must-hold locksets on every flow path; the lock itself (std::shared_mutex) is trusted; reports the unlocked effect's site.")
prop("C03", "Locks are released on every path, taken in one order, never twice",
     "No file operation or command can deadlock on the file system's internal locks or hang later ones: every lock taken is released on every path out of the operation, "
     "including error paths, none is released by a thread that does not hold it, none is taken again by its holder, and nested locks "
     "are always taken in the same order.",
     ["schedules", "inputs"],
     "every path through every handler, the FIFO worker and the fault triggers, hence every interleaving of threads that take these locks",
     "A leaked or inverted lock needs an error return or a second thread at the right moment; tests are single-threaded.",
     [LFS, MAINF, CACHE, ENGINE, PAGE], "std::shared_mutex / pthread rwlocks of the command, cache, item, engine and LRU state",
     "lockset typestate + lock-order analysis",
     "Every acquisition site in its calling contexts; order is a fixed global rank, so acyclicity is implied; standard-library exceptions inside locked regions not modelled.")
prop("C05", "Backing errors reach the application with their own error code",
     "When the backing file system refuses the call that an operation depends on, that operation fails towards the application with the same error "
     "code, and never reports success or a byte count. An operation whose backing call succeeded is not reported as failed.",
     ["inputs", "fault_sequences"],
     "every operation, every errno, every point at which the backing call can fail",
     "Tests make no backing call fail except for missing files; ENOSPC, EIO, EACCES or short transfers at a chosen call are not sampled.",
     [LFS, CACHE, ENGINE], "return value and errno of the backing system calls made by each handler",
     "path-sensitive failure-propagation dataflow",
     "Outcome of each deciding call is followed separately to every return; logging is assumed to leave errno alone; best-effort calls (utimes, close, torn-write injection) do not decide.")
prop("C06", "A failed operation leaves the cached state unchanged",
     "When rename, unlink, link, symlink, create, open, mkdir, rmdir, chmod, chown, access, readlink or getattr fails on the backing file system, the cache is as if "
     "it had never been called: no cached file is dropped, no path is forgotten or redirected, no metadata changes. Later reads therefore still see every unsynced byte.",
     ["inputs", "histories"],
     "every namespace operation, every failure of its backing call, every cache content",
     "Needs an operation that fails on a file with unsynced data; the tests only let these operations succeed.",
     [LFS, CACHE], "order of the backing call and of the cache updates in the namespace handlers",
     "path-sensitive effect analysis",
     "No store to cache state on any path with a failed deciding call, before or after it; interprocedural into the cache library.")
prop("C07", "Pass-through operations act on the request, the whole request, once",
     "mkdir, rmdir, chmod, chown, utimens, access, symlink, link, rename, unlink, readlink, getattr, readdir, open, create and release perform exactly that operation on the backing file system, "
     "once, with the path, mode, owner, times, flags and descriptor of the request (symbolic links themselves, not their targets; creation and access flags "
     "kept), and never report success without having done so. Every directory entry is reported, and no "
     "other operation changes names, owners, modes or times behind the application's back, except the modification time on fsync.",
     ["inputs"],
     "every request argument value, every path through the handler",
     "Tests compare a few outcomes; swapped, constant or dropped arguments matter only for values the tests do not use.",
     [LFS], "arguments of the backing system calls made by each handler",
     "value-provenance dataflow over handler paths",
     "Argument terms are resolved symbolically; a term that cannot be resolved is not reported.")
prop("C08", "Data reaches the backing file only on fsync, checkpoint, torn fault or eviction",
     "Writing, truncating, creating, renaming, closing or reading a file never changes the content or size of a backing file: that happens only "
     "when the application syncs, on the checkpoint command, for the parts a torn-write fault persists, or when the cache has no room "
     "for the block. Opening with truncation is not passed on to the backing file either.",
     ["histories", "crash_points"],
     "every operation sequence between two syncs and every crash point in it",
     "Early persistence makes lost-data bugs invisible, so every ordinary test still passes; it shows only after a crash or clear at the right moment.",
     [LFS, CACHE, ENGINE, PAGE], "the sites of content-changing backing calls and the conditions on the paths to them",
     "effect analysis with path conditions",
     "Every call site of a content-changing system call in every calling context; the fallback paths require an established cache-refused fact.")

prop("C09", "A successful fsync makes the file's cached contents durable",
     "When fsync or fdatasync on a file returns success, every byte of the file written before it is in the backing file at its own offset, the backing file has the "
     "file's size as applications see it, and only then do the file and its blocks count as synchronised. If any part of the "
     "write-back fails or is short, what was not written stays unsynchronised, so a later fsync writes it again.",
     ["inputs", "histories", "crash_points"],
     "every set of dirty and clean blocks (gaps, runs longer than one vectored write, partial last block), every failing or short write",
     "Tests sync one small contiguous file; losing a block needs a specific dirty pattern, a run at the vector limit, or a failed write followed by a retry.",
     [CACHE, ENGINE, ITEM, LFS], "the write-back loop over the file's blocks, its vectored writes and the clean marks",
     "loop-obligation automaton over the interprocedural flow graph",
     "Each element of the block map must be written or known clean in its own iteration; symbolic check of offset and length terms. Contents of the page "
     "buffers and the arithmetic inside a page are not modelled; the per-page (one block per page) layout is assumed.")

prop("C04", "Shared tables, pages and file records change only under their lock",
     "While any number of file operations, commands and faults run concurrently, each shared structure is changed only by a thread holding the lock that guards it exclusively and "
     "walked or read only under such a lock: page contents and page tables, the least-recently-used order, the tables of cached files and of paths, each "
     "file's block map, size and sync state, the pending torn write and the list of injected faults. No such access is left outside a locked region on any path.",
     ["schedules"],
     "every interleaving of handlers, commands and fault injection; every path through each of them",
     "A missing or too weak lock compiles and passes all tests; it shows only when two threads meet inside the unprotected region.",
     [LFS, CACHE, ENGINE, PAGE, ITEM], "lock acquisitions around every access to the shared fields",
     "interprocedural lockset analysis",
     "Eraser-style guarded-by check with a fixed guard per field; accesses in constructors are exempt; consecutive accesses in separate "
     "locked regions (check-then-act) are not judged; the crash-fault tables (D24) and configuration are not guarded in this program and not covered.")
prop("C12", "Cached content is discarded only where the operation demands it, and there it is",
     "A removal or a replacing rename discards a file's cached content exactly when the removed name was its last; with other names left the content stays "
     "and the cached link count is adjusted, as it is for a new hard link. A truncation discards only blocks that lie wholly beyond the new size, and everything "
     "only at size zero. Reads and writes discard only what is evicted or was found missing; no other operation discards anything, and none touches another file.",
     ["inputs", "histories"],
     "every operation, for every number of names, block position and size",
     "Tests remove or shrink a file and look at it; content lost through one of several names or at a block boundary shows later and elsewhere.",
     [LFS, CACHE, ENGINE, ITEM], "the removal, rename, truncation and block insertion paths and all erasures from the cache tables",
     "effect analysis: path facts required at each erasure, obligations at each successful return",
     "The files of a renamed directory are handled by the code checked for single files. Which page eviction picks, and whether it reaches the disk, is not decided.")
prop("C13", "A path designates its file: the path table follows renames, links and removals",
     "After a successful rename the new path designates the file the old path designated and the old path designates nothing, also when a file is replaced, when "
     "the path was not looked up before and for every file of a renamed directory; a rename between two names of one file changes nothing. After a link the new path designates "
     "the linked file; after a removal the path designates nothing; a looked-up regular file's path designates its own file number; no other operation changes the table.",
     ["inputs", "histories"],
     "every operation, for mapped and unmapped paths, existing and missing targets, files and directories",
     "A wrong entry shows only when the stale path is used again after a specific sequence of renames and links.",
     [LFS, CACHE], "all updates of the table from paths to files",
     "value-class analysis of the path table with path facts",
     "The number of a file is taken to identify it; changes made behind the mount are out of scope.")
prop("C23", "Every descriptor and buffer obtained is released exactly once",
     "Each file descriptor, directory stream and heap buffer an operation obtains for itself is released exactly once before the operation returns, on every path "
     "including failures, end of file, a full cache and injected torn writes, and is never used after its release. The descriptor opened for the application is kept until "
     "its release, which closes it exactly once; a failed open or create leaves none behind, and no other operation closes it.",
     ["inputs", "histories"],
     "every handler and every path through it, including error paths",
     "A leaked descriptor is invisible until thousands of operations later; a double close hits an unrelated file, in another thread.",
     [LFS, ENGINE], "open/close and malloc/free pairs in the handlers, the write-back and the torn-write injection",
     "ownership typestate analysis over the interprocedural flow graph",
     "The descriptors of the FIFO worker (open for the process's life) and C++ objects are not covered; a value that reaches a release only through a merge "
     "of several sources is assumed to be the resource released.")
prop("C24", "Applications see the size and times their operations gave a file",
     "The size, times and link count reported for a file held in the cache are the cached ones, the blocks follow from the cached size, and everything else comes from the "
     "backing file. A file newly cached takes them from its backing file. A successful write leaves the size at the larger of the previous size and the end of the write, "
     "a successful truncation at the size requested, and both set the modification time to the present; setting a file's times sets the cached ones, each to the time given for it. No other "
     "operation changes the cached size or modification time of a file that stays cached, except that opening and creating may set its times. "
     "A full synchronisation gives the backing file the cached access and modification times. Sizes, offsets and times keep their whole range.",
     ["inputs", "histories"],
     "every operation, file size (beyond 32 bits too) and order of operations",
     "Applications append, truncate and rebuild by the size and times reported; a wrong size silently loses or invents data, often only for one order of operations.",
     [LFS, CACHE, ITEM], "stores to the cached metadata in the handlers, the copy of selected fields, the overlay in getattr and the times set by fsync",
     "value-flow obligations over the interprocedural flow graph, with a width check over the syntax trees",
     "The number of bytes a read returns relative to the size, and the arithmetic of the block count, are not decided.")
prop("C22", "The cache keeps each block in a place of its own and serves it only from there",
     "The bytes the cache takes for a block of a file are stored, with their length and at the offset within the block they were given for, in a page that belongs to that "
     "file and holds that block; the owner's index and the file's block map record that page. A page serves a block only to the file it belongs to and only if it holds it, "
     "with the bytes of that place, and a block without such a page is reported as not cached. A block the cache does not take is written to the backing file at its own offset with "
     "the same bytes. Removing a block frees its place and no other; a page given back belongs to no file and keeps no block and no byte; truncation drops the blocks beyond the new end and zeroes the rest of the last one.",
     ["inputs", "histories"],
     "every file, block, offset and order of writes, evictions, clears and truncations",
     "A block served from another file's page leaks and corrupts data, and it takes a particular history of evictions and reuse to appear.",
     [LFS, CACHE, ENGINE, PAGE, BLOCK, ITEM], "the stores and reads of page memory, the two guards on a page's owner and blocks, the indexes of pages and the handlers' calls",
     "value-flow and guard obligations over the interprocedural flow graph",
     "The split of a request into blocks within the handlers, the order of the free list, pages of several blocks and the choice of the page evicted are not decided.")
prop("C10", "Written data counts as unsynchronised until it is written back or discarded",
     "Every block of a successful write is either taken by the cache or written to the backing file at once; otherwise the write fails. Bytes taken by the cache are recorded "
     "in the file's block map with their readable length, and their page, their block entry and the file are marked unsynchronised; the marks "
     "are removed only by writing the data back or by discarding it.",
     ["inputs", "histories"],
     "every write (fresh, cached and partial blocks, full cache, eviction) and every other operation",
     "A lost mark is invisible until the data are needed: after a further sync and a crash, in one specific write pattern.",
     [LFS, CACHE, ENGINE, PAGE, ITEM], "the block loop of the write handler, the insertion of blocks into the cache and all stores to the dirty marks",
     "obligation automata over the interprocedural flow graph",
     "Marks are checked per block iteration; the bytes and offsets copied are not modelled. A write whose backing file cannot be examined is covered by the error properties only.")
prop("C11", "Clearing the cache drops everything unsynchronised and writes nothing",
     "After the clear-cache command, or a clear fault, no file has cached content, cached pages or cached blocks left, whatever was cached, under however many names: later "
     "reads see exactly the backing files. Clearing writes nothing to any backing file. If a completion FIFO is configured, 'finished::clear-cache' is written to it exactly "
     "once per command, only after the cache is empty.",
     ["inputs", "histories", "crash_points"],
     "every cache content (mapped, renamed, linked and unmapped files) and every path of the command",
     "The tests clear caches with one or two plainly named files; one table left behind for a renamed or linked file resurrects data the crash was to lose.",
     [LFS, CACHE, ENGINE, MAINF], "the clear-cache command and the loops that empty the tables of contents, pages and blocks",
     "per-iteration obligation automaton over loops with element facts",
     "Loops are over symbolic collections of any size; writing the completion message itself may fail. The order and layout of pages on the free list is not modelled.")
prop("C19", "The checkpoint writes every cached file back to its own file and keeps it",
     "The cache-checkpoint command writes the unsynchronised data of every cached file that has a path to the backing file of that path, as an fsync would, skipping none and "
     "stopping at none. It discards nothing: cached contents, sizes and path associations stay as they were.",
     ["inputs", "histories"],
     "every set of cached files and every path of the command and the write-back",
     "No test issues a checkpoint with several files of which some fail or are already synchronised.",
     [LFS, CACHE, ENGINE], "the loop of the checkpoint over the path table and the write-back it shares with fsync",
     "per-iteration obligation automaton; write-back rules shared with C09",
     "A file without a path (unlinked) has nowhere to go and is exempt. Bytes and offsets copied are not modelled.")
prop("C18", "The report of unsynchronised data is complete, exact and changes nothing",
     "The unsynced-data-report names every file that is marked unsynchronised, with each of its unsynchronised blocks, and every path of that file, and nothing that is synchronised; "
     "only files excluded because a fault is being injected into them, files without unsynchronised blocks and files without a path are left out. It changes no cached state and touches no file.",
     ["inputs", "histories"],
     "every cache content and every path of the report, on the command and before a fault",
     "The tests do not read the report for several files and scattered blocks; a mark changed by the report alters what a later crash loses.",
     [LFS, CACHE, ENGINE], "the selection loops of the report and the printing loops over what they gathered",
     "effect analysis and per-iteration selection facts",
     "The byte offsets printed within a block and the totals are not checked.")
prop("C17", "Each command on the FIFO has exactly its documented effect",
     "Each documented FIFO command (clear-cache, cache-checkpoint, display-cache-usage, unsynced-data-report, help, crash, torn-op, torn-seq) has its own effect exactly once and "
     "no other, and clear-cache its completion message. Any other text, and malformed commands, have no effect. No text received stops the reader of the FIFO or the process, or is read or "
     "written beyond its buffer.",
     ["inputs", "fault_sequences"],
     "every text of any content that one read of the FIFO can deliver",
     "Tests send a handful of well-formed commands.",
     [MAINF, LFS], "the loop that reads the FIFO and dispatches on the text",
     "path automaton between two reads, plus an exception-escape lint",
     "A command is what one read delivers (up to 100 bytes); longer or concatenated commands are outside the statement. Texts are compared symbolically.")
prop("C16", "A fault is installed exactly when it is valid, as it was described",
     "A fault given on the FIFO or in the configuration file is installed exactly when it is valid: required keys present, operation, timing and paths as documented for the operation, occurrence and "
     "persist values in range, exactly one of parts and parts_bytes, and no other fault of its kind for that file. An installed fault has the values given, for the file given, beside "
     "those already installed; a rejected one is reported, has no effect and is released.",
     ["inputs", "fault_sequences"],
     "every command text and every [[injection]] entry, in any combination",
     "Each invalid combination needs its own input; the tests install a few valid faults.",
     [MAINF, LFS, FAULTS, CONFIG], "the parsing and validation of faults in the FIFO reader, in the configuration loader and in the fault classes",
     "path automata over value classes (checked, absent, verdict), constructor and table checks",
     "The conversion of digits to numbers, and number lists, is trusted; the TOML library is trusted.")
prop("C15", "A fault fires exactly when operation, timing, paths and occurrence match",
     "Each operation consults the installed crash and clear faults. A clear fault counts each operation it names (operation, paths) once as it begins, whether or not it succeeds later, and fires exactly "
     "at its occurrence and timing; a crash fault fires at every operation it names. Firing reports the unsynchronised data, then kills this process with SIGKILL or, without crash, clears the cache, "
     "and does nothing else; nothing else ends the process while it serves operations and commands.",
     ["inputs", "fault_sequences"],
     "every set of installed faults and every sequence of operations on any paths",
     "The tests fire a few faults one at a time; a missed or doubled count shows only with several faults, later occurrences or failing operations.",
     [LFS, MAINF, FAULTS], "the two functions every operation consults before and after it acts",
     "path automaton over valuations of the match conditions, plus a reachability lint for process ends",
     "A write made by the file system itself to fill a gap counts as a write. Concurrent operations of one kind on one file are excluded (the count is read again after it was incremented). That every operation consults the faults, and when, is C01.")
prop("C20", "Torn writes persist exactly the selected parts at their occurrence, then crash",
     "A torn-op fault counts the writes of its file and, at its occurrence, writes to that file exactly the selected parts of that write, each taken from and put at its own place; the last of equal parts includes the "
     "remainder, and parts_bytes that do not add up to the write persist nothing. A torn-seq fault numbers the writes between syncs and, in its occurrence-th sequence of two or more writes, writes exactly the selected ones, the first "
     "only once a second arrives. Only when all of them were written completely, a crash after that write is set up; any successful sync ends the sequence.",
     ["inputs", "histories", "crash_points"],
     "every write and sync of every file, every number and size of parts, every selection",
     "The parts of a torn write depend on its length, its offset and the selection; sequences depend on the whole history of writes and syncs.",
     [LFS, FAULTS], "the two functions that inject torn writes, and the write and fsync handlers that call them",
     "path automata over valuations with symbolic agreement of buffer, length and offset",
     "A write made by the file system itself to fill a gap counts as a write. One file at a time may hold back its first write (the place for it is shared by all files). That the numbers and lists of a fault are as given is C16.")
na("C30", "A read returns exactly the bytes last written, whatever the pattern",
   "For every history of writes, truncations, renames and syncs of a file without a crash, a read returns byte for byte what a plain file system would return.",
   ["inputs", "histories"], "every history of operations on a file", "Each alignment and combination of cached, partial and uncached blocks is its own case.",
   [LFS, CACHE, ENGINE, PAGE, BLOCK], "block arithmetic of read and write and the copies into and out of pages",
   "The bytes are decided by arithmetic on run-time offsets, lengths and the content of pages over an unbounded history; no static argument in reach bounds it. Its "
   "structural parts (marks, durability, discards, guarded access, the place of each block) are decided by C04, C09, C10, C12 and C22.")
na("C31", "Eviction takes the least recently used page and reports exact usage",
   "With eviction enabled the page replaced is the least recently used one, and display-cache-usage is the exact share of used pages.",
   ["histories"], "every history of accesses", "Needs the order of all accesses so far.",
   [ENGINE], "the recency list and the usage computation",
   "The order in a recency list and a count of pages are run-time quantities of the whole history; they have no static abstraction here that would not assume them.")
na("C32", "Every operation and command completes in bounded time",
   "Each operation and each FIFO command returns in time bounded by its size, under any load.",
   ["schedules"], "every schedule of threads", "Needs adversarial schedules.",
   [LFS, MAINF], "the locks and loops of all operations",
   "Progress depends on the scheduler, on the backing file system and on readers of the FIFOs. Freedom from deadlock by lock order is decided by C03.")
