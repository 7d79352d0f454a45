import json
L="lazyfs/src/lazyfs.cpp"; M="lazyfs/src/main.cpp"; C="libs/libpcache/src/cache.cpp"; E="libs/libpcache/src/engine/backends/custom/custom_cache.cpp"; P="libs/libpcache/src/engine/page/page.cpp"; F="libs/libpcache/src/faults.cpp"; G="libs/libpcache/src/config/config.cpp"; D="libs/libpcache/src/item/data.cpp"
props=[]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None):
    props.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
vol=dict(name="volatile content",meaning="what the application reads: cached blocks over the backing file, cut at the cached size",where=C)
dur=dict(name="durable content",meaning="bytes and size of the backing file, which is all a crash or clear-cache leaves",where="backing directory")
p("C01","Synced data survives every fault",
"Once fsync or fdatasync on a file has returned success, the backing file holds exactly the content and size the application had given the file at that moment. Whatever happens next (clear-cache, crash, kill, cache pressure, operations on other files), that content is what is found afterwards unless a later operation on the same file was itself persisted.",
["histories","crash_points","inputs"],"every history of writes, truncates, links and renames before a sync, every file layout, every later crash point",
"The tests sync a handful of whole-file or single-block writes; they do not reach overwrites that straddle block borders, shrink-then-extend before the sync, more blocks than one vectored write takes, syncs through another name of the file, or a second sync after partial re-dirtying.",
[L,C,E],[("lfs_fsync",L),("Cache::sync_owner",C),("CustomCacheEngine::sync_pages",E)],["fsync/fdatasync reply","bytes and size of the backing file","content after clear-cache or restart"],[vol,dur])
p("C02","Unsynced data is lost exactly",
"While the cache has room, no write or truncate reaches the backing files before a sync, checkpoint or configured fault persists it. After clear-cache or after the process dies, every file has exactly the content and size it was last persisted with: nothing newer survives and nothing older comes back.",
["histories","crash_points","fault_sequences"],"every history and every point in it at which the cache is cleared or the process dies",
"The tests clear the cache after one or two writes; the statement is about every intermediate point of every history (several files, names, sizes, repeated faults, restarts).",
[L,C,E],[("lfs_write / lfs_truncate keep data in the cache",L),("Cache::clear_all_cache",C),("command_fault_clear_cache",L)],["backing files after every single operation","reads, sizes after clear-cache and after kill and restart"],[vol,dur])
p("C03","Reads and sizes match an ordinary file system",
"Between faults LazyFS is transparent: every read returns exactly the bytes most recently written (zeros in never-written gaps), nothing past the end of file, and every reported size is the application's view of the size, whichever of those bytes are cached, only on disk, or both. This holds for every offset and length, through every open handle and every name of the file.",
["histories","inputs"],"every sequence of writes, sparse writes, appends, truncates, syncs, clears and reads at every offset and length",
"The tests read back what they have just written, mostly whole and aligned; mixtures of cached and uncached blocks with partial blocks at either end are not reached.",
[L,C,D],[("lfs_read",L),("lfs_write read-modify-write and zero fill",L),("lfs_getattr",L)],["read replies","stat sizes"],[vol])
p("C04","Names are immediate and carry unsynced content",
"Create, link, rename (of files and of directories, onto existing names too), unlink, mkdir, rmdir and symlink take effect at once in both the mounted view and the backing directory, with the results and errors of an ordinary file system. Unsynced content and size follow the file through all of them, stay shared between its hard links with a correct link count, disappear with its last name and never show up in another file.",
["histories"],"every history of namespace operations interleaved with cached writes, syncs and clears",
"The tests rename or unlink one file at a time; chains of links, renames over cached or linked targets, directory renames with dirty children, and reuse of a freed name or inode number are not sampled.",
[L,C],[("lfs_rename / lfs_recursive_rename",L),("lfs_link, lfs_unlink",L),("Cache::rename_item, remove_cached_item, insert_inode_mapping",C)],["replies and error codes","directory listings on both sides","content, size and link count under every name"],[dict(name="path to inode mapping",meaning="which cached item a name refers to",where=C)])
p("C05","Truncation is exact and lazy",
"After truncate, ftruncate or open with O_TRUNC to size n the file has exactly n bytes: the old prefix, then zeros. Bytes cut off never reappear, neither when the file grows again nor after a later sync, and until that sync the backing file is unchanged.",
["histories","inputs"],"every pair of old and new size relative to block borders, with any mix of cached, synced and uncached blocks, in any order with writes, syncs and clears",
"The tests truncate to a few fixed sizes; cutting inside a partially cached block and growing again, in combination with sync and clear, is not covered.",
[L,C,D,E],[("lfs_truncate",L),("Cache::truncate_item",C),("Data::truncate_blocks_after",D),("CustomCacheEngine::truncate_cached_blocks",E)],["reads and sizes","backing file before and after the next sync"],[vol,dur])
p("C06","Checkpoint persists everything",
"When the cache-checkpoint command has been carried out, the backing copy of every file equals the application's current view of it, as if each had been synced, and the application's view is unchanged. A clear-cache or crash right after it loses nothing.",
["histories","crash_points"],"every history before the checkpoint, any number of dirty files, links and renamed files",
"No test runs the checkpoint command over more than trivial state.",
[L,C,E],[("command_checkpoint",L),("Cache::full_checkpoint",C)],["backing files after the checkpoint","reads after a following clear-cache"],[vol,dur])
p("C07","A full cache loses nothing and pages are accounted for",
"When the page cache is full and eviction is off, writes still succeed and every read and size stays correct; only data that found no page may reach the backing file before a sync. The reported cache usage is exactly the share of pages holding cached blocks, pages are given back by truncation, deletion of the last name, replacement by rename and clear-cache, and freed pages never leak one file's bytes into another.",
["histories","configurations"],"every history at every cache size, in particular those that reach, pass and leave the full state",
"The tests run with caches far larger than their data.",
[L,E,P],[("write-through branch of lfs_write",L),("CustomCacheEngine::allocate_blocks, remove_cached_blocks, truncate_cached_blocks",E),("get_engine_usage",E)],["reads and sizes","backing files","reported usage"],[dict(name="free pages",meaning="pages not holding any block",where=E)])
p("C08","Eviction writes data back",
"With eviction on, any amount of data can be written through a cache of any size: every read and size stays correct, and data that leaves the cache unsynced is written to the right file at the right place first. Cached pages of other files and blocks are not disturbed by an eviction.",
["histories","configurations"],"every history at every cache size with eviction enabled",
"No test enables eviction with more data than pages.",
[E,P,C],[("CustomCacheEngine::_get_next_free_page, _update_owner_pages",E),("Page::sync_data",P)],["reads and sizes under pressure","backing files after sync, checkpoint and clear"],[])
p("C09","Behaviour does not depend on cache geometry",
"What the application reads, what survives a fault and what the backing files contain are the same for every block size, number of blocks per page, and cache size large enough to hold the data. Configurations given as a total size and as explicit numbers behave alike.",
["configurations","histories"],"every block size and blocks-per-page combined with every history",
"The tests use one block per page and 4096-byte blocks only.",
[E,P,G,L],[("Page block offsets",P),("owner free-page lists",E),("Config setup",G)],["reads, sizes, backing files under different configurations"],[])
p("C10","A crash command fires exactly on its operation",
"After an accepted crash command, the first operation of the named kind whose path(s) match the given patterns kills LazyFS: with timing before, none of that operation's effect is visible afterwards; with timing after, its effect is there exactly as if it had completed. No other operation, and no operation on paths that do not match, is affected; for two-path operations each given pattern must match its own path.",
["fault_sequences","histories","inputs"],"every operation kind, timing, pattern and preceding history",
"The tests use a few operations with literal names; patterns on source and destination, near-miss names and near-miss operations are not covered.",
[L,M],[("trigger_crash_fault / add_crash_fault",L),("FIFO parsing",M)],["whether the process dies, at which operation","backing directory after death"],[])
p("C11","A configured clear-cache fault fires at its occurrence",
"A clear-cache fault from the configuration fires exactly once, at the configured occurrence of the configured operation on the configured path(s), before or after that operation as configured. At that point all unsynced data is lost: with crash the process dies, without crash LazyFS keeps serving requests with the cleared cache.",
["fault_sequences","histories","configurations"],"every operation, timing, occurrence, crash flag and interleaving with operations on other files",
"Only a few combinations are tested; occurrence counting across other files and the non-crashing variants are not.",
[L,F,G],[("trigger_configured_clear_fault",L),("ClearF",F)],["process life","reads and backing files after the fault"],[])
p("C12","A torn write persists exactly the chosen parts",
"When a torn-op fault fires, at the configured write of the file, exactly the chosen parts of that write are in the backing file at their place (the parts partition the write, the last one taking the remainder), everything else unsynced is lost, and LazyFS is dead. Earlier and later writes and other files are unaffected by an armed fault that has not fired.",
["fault_sequences","inputs","histories"],"every split into parts, equal or by sizes, every subset of parts, every occurrence, offset and length",
"The tests use one or two splits of one aligned write.",
[L,F],[("split_write",L),("SplitWriteF",F)],["backing file after death","process life"],[])
p("C13","A torn sequence persists exactly the chosen writes",
"When a torn-seq fault fires, in the configured group of at least two consecutive writes to the file without an intervening fsync, exactly the chosen writes of that group have been persisted, the others and everything else unsynced are lost, and LazyFS dies after the last chosen write. Groups other than the configured one, and other files, are not affected, and several such faults on different files do not disturb one another.",
["fault_sequences","histories"],"every group structure, subset of writes, occurrence, and interleaving with writes to other files",
"The tests run one file and one group.",
[L,F],[("persist_write",L),("pending first write",L),("ReorderF",F)],["backing file after death","process life"],[])
p("C14","The unsynced-data report is exact",
"The unsynced-data report lists exactly the files that have unsynced cached data, under all their current names, with the right block ranges and the right total number of bytes, and says so when everything is synced. Reporting changes nothing.",
["histories"],"every history of writes, truncates, syncs, links, renames and clears",
"No test checks the report's content.",
[L,C,E],[("command_unsynced_data_report",L),("Cache::report_unsynced_data",C),("get_dirty_blocks_info",E)],["report output"],[])
p("C15","Every fault command is carried out once, in order",
"Each newline-terminated command written to the fault FIFO is carried out exactly once and in order, however the bytes are split or joined on their way and however long the command is; each clear-cache is acknowledged exactly once on the completion FIFO, after it has taken effect. Unknown or malformed commands are rejected without any effect on data, on armed faults, or on LazyFS being alive.",
["schedules","inputs"],"every sequence of commands and every way of splitting it into FIFO writes and reads",
"The tests echo single short commands with pauses in between.",
[M,L],[("fht_worker",M)],["completion FIFO","effects of the commands","process life"],[])
p("C16","Concurrent operations and commands are atomic",
"With any number of requests in flight, each operation takes effect as if at one instant between request and reply, as far as different files, names and fault commands are concerned; a clear-cache or checkpoint splits no operation in two. No schedule makes LazyFS deadlock or crash.",
["schedules"],"every interleaving of in-flight operations and fault commands",
"The tests issue one request at a time.",
[L,C,E],[("cache_command_lock",L),("item locks and cache lock",C),("engine lock",E)],["replies and backing files explained by one order","progress"],[])
p("C17","Sync and write results are honest",
"If the backing file system refuses or cuts short a write, truncation or open that LazyFS needs for an fsync or a write, the caller gets an error (or a short count), never success. The data stays unsynced and readable, and a later fsync that succeeds persists all of it.",
["fault_sequences","histories"],"every backing call that can fail, every error, at every point of a history",
"No test makes the backing file system fail.",
[L,C,E],[("lfs_fsync return value",L),("sync_pages error handling",E),("lfs_write return value",L)],["replies under injected backing errors","backing file after the retry"],[])
p("C18","Timestamps, modes and owners set by the application stick",
"Access and modification times set with utimens (one, both, or the current time; to the nanosecond), modes given at creation or set with chmod, and owners set with chown are what stat reports from then on, through every name and handle, until an operation that changes them: a write, or a truncation that changes the size, sets the modification time, a read may set the access time, nothing else does. This holds whether or not the file has cached data. Times that are set are durable at once. An fsync or checkpoint makes the times stat reports those of the backing file; clearing the cache or a crash leaves the times of the last change that was synced or set, never an older one. No operation on one file changes another's times, modes or owners.",
["histories"],"every history of writes, reads, truncations, syncs, clears, renames, links, crashes, utimens, chmod and chown",
"The tests compare no timestamps, modes or owners.",
[L,C],[("lfs_utimens, lfs_getattr, lfs_chmod, lfs_chown, lfs_create",L),("Cache::sync_owner metadata part",C),("Cache::update_content_metadata",C)],["stat replies","backing file timestamps, modes and owners"],[vol,dur])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in props))
