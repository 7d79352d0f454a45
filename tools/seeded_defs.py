L = "lazyfs/src/lazyfs.cpp"
M = "lazyfs/src/main.cpp"
C = "libs/libpcache/src/cache.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
P = "libs/libpcache/src/engine/page/page.cpp"
D = "libs/libpcache/src/item/data.cpp"
F = "libs/libpcache/src/faults.cpp"
G = "libs/libpcache/src/config/config.cpp"
I = "libs/libpcache/src/item/item.cpp"

BUGS = [
    dict(id="s01-fdatasync-clean", property="C01",
         edits=[(C, "    lockItem (owner);\n    lock.unlock ();\n\n    int res;\n",
                 "    lockItem (owner);\n\n    // nothing to be written\n    if (only_sync_data && _get_content_ptr (owner)->is_synced ()) {\n        unlockItem (owner);\n        return 0;\n    }\n\n    lock.unlock ();\n    int res;\n")],
         needs="a file that is synced, then truncated to 0 and synced with fdatasync (the flag of the item is not reset by that truncation)",
         breaks="fdatasync returns success, but the truncation is not in the backing file and is undone by the next clear-cache",
         demo='''
f = start()
h = put(f, "/a", b"hello world", sync=True, keep=True)
f.ftruncate(h, 0)
f.fsync(h, data_only=True)
want("backing file", disk(f, "a"), b"")
f.clear_cache()
want("size after clear", f.stat("/a").size, 0)
'''),
    dict(id="s02-replace-via-rename", property="C02",
         edits=[(L, "    string new_owner (to);\n\n    if (inode.empty ()) {\n\n        // from: is a dir or",
                 "    string new_owner = to;\n\n    // a file that replaces another one is written first, as other file systems do\n    if (!inode.empty () && !this_ ()->FSCache->get_original_inode (new_owner).empty ())\n        this_ ()->FSCache->sync_owner (inode, true, (char*)from);\n\n    if (inode.empty ()) {\n\n        // from: is a dir or")],
         needs="a file with unsynced data that is renamed over an existing file, then a clear-cache",
         breaks="data that was never synced is in the backing file and survives the clear-cache",
         demo='''
f = start()
put(f, "/a", b"old", sync=True)
put(f, "/t", b"new content")
f.rename("/t", "/a")
f.clear_cache()
want("content after clear", content(f, "/a"), b"")
'''),
    dict(id="s03-tail-of-long-write", property="C03",
         edits=[(L, "                bool needs_pread = FILE_SIZE_BEFORE > CURR_BLK_IDX * IO_BLOCK_SIZE;\n\n                /*\n                    > Block not found",
                 "                bool needs_pread = FILE_SIZE_BEFORE > CURR_BLK_IDX * IO_BLOCK_SIZE &&\n                                   (blk_readable_from > 0 || size < (size_t)IO_BLOCK_SIZE);\n\n                /*\n                    > Block not found")],
         needs="a write of at least one block that ends inside a block of an existing file which is not cached",
         breaks="the bytes of that last block behind the write are zeros afterwards",
         demo='''
f = start()
put(f, "/a", b"abcdefghijklmnopqrstuvwx", sync=True)
f.clear_cache()
put(f, "/a", b"0123456789")
want("content", content(f, "/a"), b"0123456789klmnopqrstuvwx")
'''),
    dict(id="s04-rename-over-link", property="C04",
         edits=[(C, "                if (before_nlinks > 1) {\n\n                    unlockItem (to_remove_inode);", "                if (before_nlinks > 2) {\n\n                    unlockItem (to_remove_inode);")],
         needs="two hard links of a file with unsynced data, one of them replaced by a rename",
         breaks="the unsynced data and size of the file are lost although it still has a name",
         demo='''
f = start()
put(f, "/a", b"content")
f.link("/a", "/b")
put(f, "/c", b"other")
f.rename("/c", "/a")
want("size of b", f.stat("/b").size, 7)
want("content of b", content(f, "/b"), b"content")
'''),
    dict(id="s05-checkpoint-skips-clean", property="C06",
         edits=[(C, "    for (auto const& it : this->file_inode_mapping)\n        this->sync_owner (it.second, false, (char*)it.first.c_str ());",
                 "    for (auto const& it : this->file_inode_mapping) {\n\n        Item* item = _get_content_ptr (it.second);\n\n        if (item != nullptr && not item->is_synced ())\n            this->sync_owner (it.second, false, (char*)it.first.c_str ());\n    }")],
         needs="a synced file that is truncated to 0 before the checkpoint",
         breaks="the checkpoint leaves the old content in the backing file",
         demo='''
f = start()
h = put(f, "/a", b"hello world", sync=True, keep=True)
f.ftruncate(h, 0)
f.command("lazyfs::cache-checkpoint")
f.fence()
want("backing file", disk(f, "a"), b"")
'''),
    dict(id="s06-truncate-keeps-pages", property="C07",
         edits=[(E, "                    // add page to free pages...\n                    this->free_pages.push_back (page_id);\n\n                    if (this->config->APPLY_LRU_EVICTION) {\n",
                 "                    if (this->config->APPLY_LRU_EVICTION) {\n\n                        // add page to free pages...\n                        this->free_pages.push_back (page_id);\n")],
         needs="truncation that removes whole cached blocks but not all of the file, without eviction",
         breaks="the pages are never given back: the usage stays, and the cache is full sooner or later",
         demo='''
import re
f = start(pages=4)
h = put(f, "/a", b"x" * 24, keep=True)
f.ftruncate(h, 8)
put(f, "/b", b"y" * 24)
want("nothing spilled", disk(f, "b"), b"")
'''),
    dict(id="s07-evict-whole-block", property="C08",
         edits=[(P, "            if (it == prev (block_rdble_offs.end (), 1))\n                total_bytes = it->second + 1;\n            should_write += total_bytes;", "            should_write += total_bytes;")],
         needs="eviction on, and a page with the last, partly filled block of a file evicted while it is dirty; then a clear-cache",
         breaks="zeros behind the end of the file are written to the backing file, which is longer than the file ever was",
         demo='''
f = start(pages=2, evict=True)
put(f, "/a", b"abc")
put(f, "/b", b"y" * 24)
want("size", f.stat("/a").size, 3)
f.clear_cache()
want("content after clear", content(f, "/a"), b"abc")
'''),
    dict(id="s08-long-streak", property="C09",
         edits=[(E, "            if ((page_streak < (__IOV_MAX - 1)) && (it", "            if ((page_streak <= __IOV_MAX) && (it")],
         needs="more than 1024 consecutive dirty blocks at an fsync",
         breaks="fsync fails and persists nothing",
         demo='''
f = start(block=4, pages=3000)
data = bytes(1 + i % 250 for i in range(6000))
put(f, "/a", data, sync=True)
want("backing file", disk(f, "a"), data)
'''),
    dict(id="s09-link-after-swapped", property="C10",
         edits=[(L, "    this_ ()->trigger_crash_fault (\"link\", \"after\", from, to, CLEAR);", "    this_ ()->trigger_crash_fault (\"link\", \"after\", to, from, CLEAR);")],
         needs="a crash fault with timing after for link",
         breaks="the patterns are matched against the wrong paths: no crash when both match, a crash when they do not",
         demo='''
f = start()
put(f, "/a", b"x", sync=True)
f.command("lazyfs::crash::timing=after::op=link::from_rgx=/a$::to_rgx=/b$")
f.fence()
want("crash", dies(f, lambda: f.link("/a", "/b")), True)
'''),
    dict(id="s10-truncate-to-same-size", property="C10",
         edits=[(L, "        behave_as_lfs_write = false;\n\n        // Since truncate size is the same as the file size, there's nothing to change/truncate.\n",
                 "        // Since truncate size is the same as the file size, there's nothing to change/truncate.\n        return 0;\n")],
         needs="a crash (or clear-cache) fault after truncate, and a truncate to the size the file has",
         breaks="the operation completes, but the fault does not fire",
         demo='''
f = start()
put(f, "/a", b"12345678", sync=True)
f.command("lazyfs::crash::timing=after::op=truncate::from_rgx=/a$")
f.fence()
want("crash", dies(f, lambda: f.truncate("/a", 8)), True)
'''),
    dict(id="s11-clear-fault-prefix", property="C11",
         edits=[(L, "                if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {", "                if ((is_multi_path && to_path.compare (0, clear_fault->to.size (), clear_fault->to) == 0) || !is_multi_path) {")],
         needs="a configured clear-cache fault for rename, link or symlink, and that operation onto a path which only starts with the configured one",
         breaks="the fault fires for (or counts) an operation on another path",
         demo='''
w = os.path.join(WORK, "w", "root")
f = start(injections='[[injection]]\\ntype="clear-cache"\\nfrom="%s/a"\\nto="%s/b"\\nop="rename"\\ntiming="before"\\noccurrence=1\\ncrash=true\\n' % (w, w))
put(f, "/a", b"x")
want("crash", dies(f, lambda: f.rename("/a", "/bb")), False)
'''),
    dict(id="s12-small-writes-not-counted", property="C12",
         edits=[(L, "            if (split_fault) {\n", "            if (split_fault && (split_fault->parts == -1 || size >= (size_t)split_fault->parts)) {\n")],
         needs="a torn-op fault with parts=n and occurrence > 1, and a write of fewer than n bytes before the one to be torn",
         breaks="the short write is not counted, so a later write than the configured one is torn",
         demo='''
f = start()
h = put(f, "/a", b"", keep=True) if False else f.open("/a", os.O_RDWR | os.O_CREAT)
f.command("lazyfs::torn-op::file=%s/a::persist=1::parts=2::occurrence=2" % f.root)
f.fence()
f.pwrite(h, 0, b"x")
want("torn at the second write", dies(f, lambda: f.pwrite(h, 0, b"abcd")), True)
want("backing file", disk(f, "a"), b"ab")
'''),
    dict(id="s13-fdatasync-keeps-group", property="C13",
         edits=[(L, "    this_ ()->restart_counter(path,\"write\"); //Reset counter of op write for this path\n    this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it\n",
                 "    if (!isdatasync) {\n        this_ ()->restart_counter(path,\"write\"); //Reset counter of op write for this path\n        this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it\n    }\n")],
         needs="a torn-seq fault and a group of writes that ends with fdatasync instead of fsync",
         breaks="writes before and after the fdatasync form one group: a wrong write is persisted and LazyFS dies at the wrong time",
         demo='''
f = start()
h = f.open("/a", os.O_RDWR | os.O_CREAT)
f.command("lazyfs::torn-seq::op=write::file=%s/a::persist=2::occurrence=1" % f.root)
f.fence()
f.pwrite(h, 0, b"1")
f.fsync(h, data_only=True)
want("alive", dies(f, lambda: f.pwrite(h, 1, b"2")), False)
'''),
    dict(id="s14-report-ranges", property="C14",
         edits=[(L, "                            first_block_id       = block_id;\n", "                            if (first_block_id < 0)\n                                first_block_id = block_id;\n")],
         needs="a file with two separate ranges of unsynced blocks",
         breaks="the bytes of the second range in the report are counted from the start of the first one",
         demo='''
import re
f = start(block=4)
h = put(f, "/a", b"0123456789ab", sync=True, keep=True)
f.pwrite(h, 0, b"X")
f.pwrite(h, 8, b"Y")
f.command("lazyfs::unsynced-data-report")
f.fence()
m = re.findall(rb"byte index (\\d+) to index (\\d+)", f.read_log())
want("ranges", m, [(b"0", b"3"), (b"0", b"3")])
'''),
    dict(id="s05-holes-of-whole-blocks", property="C05",
         edits=[(L, "    if (has_content_cached && truncate_size > previous_metadata->size) {\n\n        behave_as_lfs_write = true;", "    if (has_content_cached && truncate_size > previous_metadata->size) {\n\n        // whole blocks of zeros need not be written\n        behave_as_lfs_write =\n            previous_metadata->size == 0 ||\n            (previous_metadata->size | truncate_size) % this_ ()->FSConfig->IO_BLOCK_SIZE != 0;")],
         needs="a synced file that is cut at a block boundary and extended by whole blocks before the next fsync",
         breaks="the bytes that were cut off are back instead of zeros",
         demo="""
f = start()
h = put(f, "/a", b"abcdefgh" * 3, sync=True, keep=True)
f.ftruncate(h, 8)
f.ftruncate(h, 24)
want("content", content(f, "/a"), b"abcdefgh" + bytes(16))
"""),
    dict(id="s15-coalesced-clears", property="C15",
         edits=[(M, "                if (write_completed_faults) {\n                    const char* clear_cache = ", "                if (write_completed_faults && pending.rfind (\"lazyfs::clear-cache\", 0) != 0) {\n                    const char* clear_cache = ")],
         needs="two clear-cache commands that are read from the FIFO at once",
         breaks="only the second one is answered in the FIFO for completions",
         demo="""
import select, time
f = start()
put(f, "/a", b"x")
for _ in range(5):
    f.send_fifo(b"lazyfs::clear-cache\\nlazyfs::clear-cache\\n")
    got = b""
    end = time.time() + 5
    while got.count(b"finished::clear-cache\\n") < 2 and time.time() < end:
        if select.select([f.cfd], [], [], 0.1)[0]:
            got += os.read(f.cfd, 4096)
    want("answers", got.count(b"finished::clear-cache\\n"), 2)
"""),
    dict(id="s16-checkpoint-shares", property="C16",
         edits=[(L, "void LazyFS::command_checkpoint () {\n\n    std::unique_lock<std::shared_mutex> lock", "void LazyFS::command_checkpoint () {\n\n    std::shared_lock<std::shared_mutex> lock")],
         needs="a cache-checkpoint in the middle of a write of many blocks",
         breaks="a part of one write is in the backing file",
         demo="""
import threading
f = start(block=1, pages=50000)
N = 20000
h = put(f, "/a", b"0" * N, sync=True, keep=True)
for k in range(60):
    t = threading.Thread(target=lambda: f.pwrite(h, 0, b"%d" % (k % 2 + 1) * N))
    t.start()
    f.command("lazyfs::cache-checkpoint")
    f.fence()
    d = disk(f, "a")
    t.join()
    want("values in the backing file", len(set(d)), 1)
"""),
    dict(id="s17-short-spill", property="C17",
         edits=[(L, "                            if (pwrite_res != cache_wr_sz) {", "                            if (pwrite_res < 0) {")],
         needs="a full cache, and a backing file system that takes only a part of a write",
         breaks="the write reports more bytes than were written: they are lost",
         demo="""
import subprocess
src = os.path.join(WORK, "short.c")
with open(src, "w") as o:
    o.write(
        "#define _GNU_SOURCE\\n#include <dlfcn.h>\\n#include <unistd.h>\\n"
        "#define W(name) ssize_t name(int fd, const void *b, size_t n, off_t o) {"
        " ssize_t (*r)(int, const void *, size_t, off_t) = dlsym(RTLD_NEXT, #name);"
        " return r(fd, b, n > 4 ? 4 : n, o); }\\n"
        "W(pwrite)\\nW(pwrite64)\\n"
    )
lib = os.path.join(WORK, "short.so")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-U_FORTIFY_SOURCE", "-o", lib, src, "-ldl"])
f = start(pages=1, preload=lib)
put(f, "/a", b"abcdefgh")
h = f.open("/b", os.O_RDWR | os.O_CREAT)
try:
    n = f.write_raw(h, 0, b"12345678")
except FuseError:
    n = 0
f.close(h)
got = content(f, "/b")[:n]
want("what the write reported", got, b"12345678"[:n])
"""),
    dict(id="s18-times-after-data", property="C18",
         edits=[(C, "    res = this->engine->sync_pages (owner, last_size, orig_path);",
                 "    // what is synced has nothing left to be written but its data\n    if ((res = this->engine->sync_pages (owner, last_size, orig_path)) == 0 && _get_content_ptr (owner)->is_synced ())\n        only_sync_data = true;")],
         needs="fdatasync of written data, then fsync without a write between them, then clear-cache or a crash",
         breaks="the fsync leaves the modification time of the backing file as it was: what stat said is lost",
         demo="""
f = start()
h = put(f, "/a", b"hello", keep=True)
f.fsync(h, data_only=True)
f.fsync(h)
m = f.stat("/a").mtime
f.command("lazyfs::clear-cache")
f.fence()
want("modification time after a sync and a clear", f.stat("/a").mtime, m)
"""),
    dict(id="s18-times-forward", property="C18",
         edits=[(I, "        else if (str == \"mtime\")", "        else if (str == \"mtime\" && new_meta.mtim.tv_sec >= oldmeta->mtim.tv_sec)")],
         needs="a modification time set to one in the past on a file that has cached content",
         breaks="stat goes on reporting the later time; an fsync makes it durable in place of the time that was set",
         demo="""
f = start()
h = put(f, "/a", b"hello", keep=True)
f.utimens("/a", mtime=(1000, 5))
want("modification time that was set", f.stat("/a").mtime, (1000, 5))
"""),
]
