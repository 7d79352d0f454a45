"""Which suites decide which property, and how deep."""
import gen
from driver import Geometry
from suites import commands_suite, conc_suite, graph_suite, model_suite, times_suite, tlc_suite, trace_suite

ASSUMPTIONS = [
    "LazyFS is driven over the FUSE protocol with the requests Linux sends when attributes and entries are not cached",
    "the backing directory is a tmpfs or ext4 that does what it is asked",
    "bounds: see the suites; beyond them the specification is sampled, not enumerated",
]


def scale(tier, q, t):
    return q if tier == "quick" else t


def G(exe, seed, *a, **k):
    return lambda: graph_suite(exe, seed, *a, **k)


def T(exe, seed, *a, **k):
    return lambda: trace_suite(exe, seed, *a, **k)


def M(*a, **k):
    return lambda: model_suite(*a, **k)


SYNC = dict(gen.DATA, fsync=16, clear=6, kill=3, checkpoint=2, unlink=1)
CUT = dict(gen.DATA, ftruncate=22, truncate=8, open=8, write=26, fsync=8, clear=4)
CHECK = dict(gen.NAMESOPS, checkpoint=8, clear=5, kill=2, write=25, link=3)
READS = dict(gen.DATA, read=25, ftruncate=10, clear=3, fsync=8, link=2)


def c01(exe, seed, tier):
    yield G(exe, seed, "data", 99, maxlen=scale(tier, 4, 5))
    yield T(exe, seed, "data", scale(tier, 600, 6000), over=dict(ops=SYNC))
    yield T(exe, seed, "names", scale(tier, 400, 4000), over=dict(ops=dict(gen.NAMESOPS, fsync=10, clear=5, kill=2)))
    yield T(exe, seed, "full", scale(tier, 300, 3000), over=dict(ops=SYNC))
    yield T(exe, seed, "killat", scale(tier, 300, 4000))
    yield T(exe, seed, "evict", scale(tier, 200, 2400), over=dict(ops=dict(SYNC, unlink=1, rename=1)))
    yield T(exe, seed, "sweep", scale(tier, 150, 1800), over=dict(ops=SYNC))


def c02(exe, seed, tier):
    yield G(exe, seed, "data", 99, maxlen=scale(tier, 4, 5))
    yield G(exe, seed, "data2", scale(tier, 4, 5), maxlen=3)
    yield T(exe, seed, "data", scale(tier, 800, 8000), over=dict(ops=dict(SYNC, fsync=6, clear=9, kill=5)))
    yield T(exe, seed, "names", scale(tier, 400, 4000), over=dict(ops=dict(gen.NAMESOPS, clear=8, kill=4)))
    yield T(exe, seed, "killat", scale(tier, 300, 4000))
    yield T(exe, seed, "sweep", scale(tier, 150, 1800), over=dict(ops=dict(SYNC, fsync=6, clear=9, kill=5)))


def c03(exe, seed, tier):
    yield G(exe, seed, "data", 99, maxlen=scale(tier, 4, 5), bs=3, deep=1.0)
    yield T(exe, seed, "data", scale(tier, 900, 8000), over=dict(ops=READS, p_mount=0.3))
    yield T(exe, seed, "names", scale(tier, 300, 3000), over=dict(p_mount=0.6))
    yield T(exe, seed, "full", scale(tier, 200, 2400), over=dict(ops=READS))
    yield T(exe, seed, "evict", scale(tier, 200, 2400), over=dict(ops=dict(READS, unlink=1, rename=1)))
    yield T(exe, seed, "sweep", scale(tier, 150, 1800), over=dict(ops=READS))
    yield T(exe, seed, "far", scale(tier, 60, 720), over=dict(ops=dict(READS, unlink=0)))


def c04(exe, seed, tier):
    yield G(exe, seed, "names", scale(tier, 5, 6), deep=scale(tier, 0.5, 0.3))
    yield T(exe, seed, "names", scale(tier, 900, 8000))
    yield T(exe, seed, "namesfull", scale(tier, 150, 1800))
    yield T(exe, seed, "namesevict", scale(tier, 150, 1800))


def c05(exe, seed, tier):
    yield G(exe, seed, "data", 99, maxlen=scale(tier, 4, 5))
    yield T(exe, seed, "data", scale(tier, 800, 8000), over=dict(ops=CUT))
    yield T(exe, seed, "names", scale(tier, 300, 3000), over=dict(ops=dict(gen.NAMESOPS, ftruncate=8, truncate=8, open=12), p_trunc=0.4))
    yield T(exe, seed, "full", scale(tier, 200, 2400), over=dict(ops=CUT))
    yield T(exe, seed, "evict", scale(tier, 200, 2400), over=dict(ops=dict(CUT, unlink=1, rename=1)))
    yield T(exe, seed, "sweep", scale(tier, 150, 1800), over=dict(ops=CUT))
    yield T(exe, seed, "far", scale(tier, 60, 720), over=dict(ops=dict(CUT, unlink=0)))


def c06(exe, seed, tier):
    yield G(exe, seed, "data2", scale(tier, 4, 5), maxlen=3)
    yield T(exe, seed, "names", scale(tier, 700, 6000), over=dict(ops=CHECK))
    yield T(exe, seed, "data", scale(tier, 500, 5000), over=dict(ops=dict(gen.DATA, checkpoint=10, clear=6, kill=2)))
    yield T(exe, seed, "full", scale(tier, 200, 2400), over=dict(ops=dict(gen.DATA, checkpoint=10, clear=6, kill=2)))
    yield T(exe, seed, "evict", scale(tier, 200, 2400), over=dict(ops=dict(gen.DATA, checkpoint=10, clear=6, kill=2, unlink=1, rename=1)))
    yield T(exe, seed, "namesfull", scale(tier, 120, 1440))


def c07(exe, seed, tier):
    yield M("data2", scale(tier, 3, 4), maxlen=3, bs=1, pages=3)
    yield T(exe, seed, "full", scale(tier, 1200, 10000))
    yield T(exe, seed, "names", scale(tier, 400, 3000), over=dict(p_usage=0.8, p_mount=0.1))
    yield T(exe, seed, "killfull", scale(tier, 300, 3000))


def c08(exe, seed, tier):
    yield M("data2", scale(tier, 3, 4), maxlen=3, bs=1, pages=2, ev=True)
    yield T(exe, seed, "evict", scale(tier, 1500, 12000))
    yield T(exe, seed, "killevict", scale(tier, 300, 3000))
    yield T(exe, seed, "namesevict", scale(tier, 200, 2400))


def X(*a, **k):
    return lambda: tlc_suite(*a, **k)


# block, blocks per page, cells as (size, cuts) of the specification's blocks of two cells
REALS = [(1, 1), (1, 5), (2, 3), (3, 1), (5, 2), (7, 4), (16, 1), (64, 3), (4096, 2)]


def c09(exe, seed, tier):
    for b1, p1, b2, p2 in ((1, 1, 3, 2), (2, 2, 5, 1)):
        yield X("MCGeometry", dict(BS1=b1, BPP1=p1, BS2=b2, BPP2=p2, MaxLen=4, MaxOps=scale(tier, 3, 4)), invariants=["Alike"],
                constraints=["Bound"], view="MCView")
    yield G(exe, seed, "data", 99, maxlen=scale(tier, 4, 5), reals=REALS, geos=[Geometry(7, [0, 3]), Geometry(30, [0, 11]), Geometry(2), Geometry(4096, [0, 4095])])
    yield T(exe, seed, "sweep", scale(tier, 700, 8000))
    yield T(exe, seed, "far", scale(tier, 200, 2000))
    yield T(exe, seed, "sweepnames", scale(tier, 200, 2000))
    yield T(exe, seed, "sweepfaults", scale(tier, 200, 2000))
    yield T(exe, seed, "simple", scale(tier, 200, 2000))


def c10(exe, seed, tier):
    yield G(exe, seed, "crash", scale(tier, 3, 4), deep=0.2)
    yield T(exe, seed, "crash", scale(tier, 900, 8000))
    yield T(exe, seed, "crashfull", scale(tier, 150, 1800))
    yield T(exe, seed, "crashevict", scale(tier, 150, 1800))


def c11(exe, seed, tier):
    yield G(exe, seed, "clear", scale(tier, 2, 3), deep=0.3)
    yield T(exe, seed, "clear", scale(tier, 900, 8000))
    yield T(exe, seed, "clearfull", scale(tier, 150, 1800))
    yield T(exe, seed, "clearevict", scale(tier, 150, 1800))


def c12(exe, seed, tier):
    yield G(exe, seed, "tornop", scale(tier, 2, 3), geos=[Geometry(2)])
    yield T(exe, seed, "tornop", scale(tier, 900, 8000))
    yield T(exe, seed, "faults", scale(tier, 300, 3000))
    yield T(exe, seed, "tornopfull", scale(tier, 200, 2400))
    yield T(exe, seed, "tornopevict", scale(tier, 200, 2400))


def c13(exe, seed, tier):
    yield G(exe, seed, "tornseq", scale(tier, 5, 6))
    yield T(exe, seed, "tornseq", scale(tier, 900, 8000))
    yield T(exe, seed, "faults", scale(tier, 300, 3000))
    yield T(exe, seed, "tornseqfull", scale(tier, 200, 2400))
    yield T(exe, seed, "tornseqevict", scale(tier, 200, 2400))


def c14(exe, seed, tier):
    yield T(exe, seed, "report", scale(tier, 1200, 8000))
    yield T(exe, seed, "names", scale(tier, 400, 3000), over=dict(p_report=0.5))
    yield T(exe, seed, "reportevict", scale(tier, 400, 4800))


def c15(exe, seed, tier):
    for n, room, chunk in ((5, 4, 3), (6, 5, 9), (scale(tier, 7, 10), 4, 2)):
        yield X("Fifo", dict(N=n, Room=room, Chunk=chunk), invariants=["InOrder", "AckAfter"], properties=["Finished"], spec="Fair")
    yield lambda: commands_suite(exe, seed)
    yield T(exe, seed, "cmds", scale(tier, 1200, 12000))
    yield T(exe, seed, "acks", scale(tier, 250, 3000))
    yield T(exe, seed, "cmdsfull", scale(tier, 150, 1800))


def c16(exe, seed, tier):
    yield X("Locks", dict(Workers=["a", "b"], Blocks=2, MaxOps=scale(tier, 2, 4), Alone=True), invariants=["Same", "ReadsWhole"],
            properties=["Finished"], spec="Fair")
    yield X("Locks", dict(Workers=["a", "b"], Blocks=scale(tier, 2, 3), MaxOps=scale(tier, 3, 4), Alone=True), invariants=["Same", "ReadsWhole"])
    yield X("Locks", dict(Workers=["a", "b", "c"], Blocks=scale(tier, 1, 2), MaxOps=3, Alone=True), invariants=["Same", "ReadsWhole"])
    for p, q in (("free", 800), ("faults", 350), ("dirs", 200), ("small", 400), ("pages", 700)):
        yield lambda p=p, q=q: conc_suite(exe, seed, p, scale(tier, q, 10 * q))


def c17(exe, seed, tier):
    for bs, pages in ((1, 9), (2, 9), (1, 1), (1, 2)):
        yield X("MCFailing", dict(BS=bs, BPP=1, PAGES=pages, MaxLen=scale(tier, 2, 3), MaxOps=scale(tier, 4, 4)), invariants=["Inv"], properties=["Props"],
                constraints=["Bound"], view="MCView")
    yield T(exe, seed, "fail", scale(tier, 700, 8000))
    yield T(exe, seed, "failfull", scale(tier, 500, 6000))
    yield T(exe, seed, "failevict", scale(tier, 500, 6000))
    yield T(exe, seed, "failnames", scale(tier, 400, 5000))


def c18(exe, seed, tier):
    for pages, ev, ops in ((9, False, 4), (1, False, 3), (2, True, 3)):
        yield X("MCTimes", dict(BS=1, PAGES=pages, EV=ev, MaxOps=ops if tier == "quick" or ev else ops + 1), invariants=["Inv", "NotOlder"],
                properties=["SetSticks", "Syncs", "Frame"])
    for p, q in (("times", 700), ("timesnames", 500), ("timesfull", 300)):
        yield lambda p=p, q=q: times_suite(exe, seed, p, scale(tier, q, 10 * q))


PLAN = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11,
        "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}

TECHNIQUE = {"": "TLA+ specification checked with TLC; every transition of a bounded state graph replayed into the real lazyfs, and recorded "
                 "random runs of the real lazyfs validated against the specification by TLC"}
NOTES = {"": "The specification's properties are checked exhaustively within small bounds; the real binary (built from /repo, driven over the FUSE "
             "protocol without a mount) conforms on every replayed transition and every recorded run. Trusted: TLC, the FUSE client, the projection "
             "of cells to bytes in harness/driver.py, libfuse."}

# how each property is decided, for DESIGN.md
HOW = {
    "C01": "Action property `SyncSticks` and `DurStable` on the bounded graph (an fsync makes dur = vol; only persisting operations "
           "change dur), every transition replayed. Random runs with many syncs, fdatasyncs, links, renames, a full cache, each followed by "
           "clear or kill and a comparison of the backing directory after *every* step. Oracle: `dur` of the specification. Tests sync a "
           "few files and clear once.",
    "C02": "As C01; the backing directory is compared with `dur` after every step, so data that reaches it early is seen at once, and "
           "content after clear and after SIGKILL with restart is compared with the last durable content. Cache with room.",
    "C03": "Every read offset and length on the enumerated graph of one file; random runs over 14 geometries (block sizes 1 to 65536, cells cut "
           "unevenly), with many reads; content through each handle, sizes from stat and through handles.",
    "C04": "Every transition of the graph of names (two directories, files, hard links, symlinks, open and hidden files) up to the bound, with "
           "errors, link counts and contents on both sides; random runs with longer histories and strange names.",
    "C05": "All truncation sizes at every enumerated content; random runs dominated by truncate, ftruncate and O_TRUNC with regrowth and syncs.",
    "C06": "Two-file graph with checkpoint in every state; random name histories with checkpoints followed by clear or kill.",
    "C07": "Specification: blocks without a page may go to the backing file only if all pages are in use (`Put`); model checked with a "
           "cache of 3 pages; random runs with 1 to 4 pages and 1 to 3 blocks per page, pages in use compared with the specification.",
    "C08": "Model checked with eviction of any whole blocks; traces: every cell of every backing file must be old, or the view's before or after "
           "the operation, and the blocks that differ must fit the cache; contents, sizes and losses after clear and kill.",
    "C09": "Specification: `MCGeometry` runs the same operations in two geometries in lockstep (invariant `Alike`: same replies, contents, "
           "durable contents). Binding: LazyFS gets a block size and page size of its own, unrelated to the cells of the specification: "
           "every transition of the data graph in 36 geometries, random runs in thousands (also with faults, names, offsets around 2^31 to 2^40, "
           "caches configured by total size, full caches and eviction).",
    "C10": "Graph: every kind of operation x timing x pattern (matching or not), from every state; random runs with random patterns "
           "(alternatives, classes, anchors, special characters in names), whose set of matching paths is computed by an independent engine.",
    "C11": "Graph over all configured clear-cache faults (operation, timing, occurrence 1 and 2, crash or not); random runs with up to five.",
    "C12": "Graph over parts x persist subsets x occurrence x write sizes, with one-byte cells; random runs, faults from file and FIFO.",
    "C13": "Graph over persist subsets x occurrence with groups ended by fsync; random runs, faults from file and FIFO.",
    "C14": "Random runs in which the report (files, names, block ranges, bytes, total) is parsed and compared with `ub` of the specification; with a full cache and with eviction, " +
           "within what those leave open.",
    "C15": "`Fifo.tla`: bytes sent and read in pieces of any length; whole commands, once, in order, acknowledged after their effect, all of them "
           "eventually (liveness). `Commands.tla`: which commands are accepted, and what a sequence of commands does. Binding: every command "
           "`MCCommands` puts together from good and bad attributes (2652) is written to the real FIFO, followed by an operation of each kind; "
           "random runs with sequences of commands (good, malformed, unknown, up to 200 kB long) cut into random pieces with pauses, in part before "
           "other operations, from several threads; acknowledgements counted, sizes asked for right after them with threads held up at locks.",
    "C16": "`Locks.tla`: operations that work block by block under a shared lock, commands that have the lock to themselves: contents are at every "
           "moment what whole operations in the order of letting go of the lock give; none waits for ever once there is an end to new ones. Binding: two "
           "to four clients with files of their own, a thread that gives commands, one that renames the directory all files are in, or one that asks "
           "for link counts of files of others, have requests in flight at the same time. A preloaded library holds threads of LazyFS up at random at "
           "locks and at calls to the file system below, or (in a *duel*) stops an operation at its n-th lock or call until others have run. "
           "`TraceConc.tla`: TLC accepts a run only if there is an order of the operations in flight, each between its call and its return, in "
           "which the specification gives the replies, contents, sizes, losses, pages in use and backing files there were. A request that is never "
           "answered, or a LazyFS that is gone, is not accepted. Runs with crash and clear-cache faults, with a cache too small, and with one where every allocation evicts a page of another operation, too.",
    "C17": "`Failing.tla` says what each operation may do when a call below it is refused or cut short; `MCFailing` checks on it that success of "
           "a sync is never claimed for content that is not there and that a failed one loses nothing. Binding: a preloaded library refuses, "
           "shortens or repeats refusals of the pwrite, ftruncate, open, pread, ... that LazyFS makes in a random operation of a random run (with "
           "room, with a full cache, with eviction); TLC accepts the run only if replies, contents and backing files are among those allowed.",
    "C18": "`Times.tla`: for each file the sets of times, modes and owners stat may report and the backing file may have; `MCTimes` checks on it that "
           "times set stick, syncs make durable what stat says, nothing goes back to older than what was synced, and other files keep theirs. "
           "Binding: random runs with utimens (either time, both, now, far past and future, nanoseconds; by name and handle), chmod, chown, modes at creation "
           "under a umask, among writes, reads, truncations, syncs, clears, kills, checkpoints, links, renames, with room, and with a full cache; the attributes of "
           "every file on both sides after every step are recorded and TLC accepts the run only if they are among those `Times.tla` allows.",
}
