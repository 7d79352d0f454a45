"""Implementation to specification: random runs of the real LazyFS, recorded for TraceLazyFS.tla."""
import os
import random
import re

import build_lazyfs
from driver import Driver, Geometry
from gate import Gate, OPS

gate_ops = [x for x in OPS if x not in ("lstat", "lock")]
NOFL = {"creat": False, "excl": False, "trunc": False, "append": False}

# name tables: what the components of the specification's paths are called on disk
NAMES = [
    {},
    {"a": "a file", "b": "b+(1)[x].db", "c": "c{2}^$", "d": "d.d", "e": "e|e"},
    {"a": "x", "b": "xx", "c": "xxx", "d": "x.x", "e": "xxxx"},
    {"a": "a" * 200, "b": "b" * 255, "c": "ç✓", "d": "d" * 120, "e": "E e"},
    {"a": "k=v", "b": "k:v=1", "c": "$HOME", "d": "d-d", "e": "#e"},
    {"a": "wal", "b": "wal.1", "c": "MANIFEST-000001", "d": "data", "e": "data.old"},
]

GEOS = [
    lambda: Geometry(4), lambda: Geometry(1), lambda: Geometry(2), lambda: Geometry(3), lambda: Geometry(5),
    lambda: Geometry(8, [0, 1, 4, 7]), lambda: Geometry(512, [0, 1, 511]), lambda: Geometry(4096, [0, 1, 4095]),
    lambda: Geometry(4096, [0, 2048]), lambda: Geometry(4096), lambda: Geometry(16384, [0, 4096, 12288]),
    lambda: Geometry(1000, [0, 1, 500, 999]), lambda: Geometry(4096, [0]), lambda: Geometry(65536, [0, 4095, 4097, 65535]),
]


def small_geo(r):
    return r.choice([Geometry(4), Geometry(2), Geometry(3), Geometry(1), Geometry(8, [0, 1, 4, 7])])


def byte_geo(r):
    """Cells of one byte: torn writes are divided by bytes."""
    return Geometry(r.choice([1, 2, 3, 4, 5, 7, 16]))


def few_blocks(r):
    """Which blocks found no page cannot always be seen, and TLC follows all the possibilities: few blocks."""
    return r.choice([Geometry(2), Geometry(3), Geometry(4), Geometry(8, [0, 1, 4, 7]), Geometry(4096, [0, 1, 4095])])


def fail_geo(r):
    """Cells of one byte (calls may be cut short anywhere), not too many blocks."""
    return Geometry(r.choice([2, 3, 4, 5]))


def any_geo(r):
    i = r.randrange(len(GEOS))
    if i == 9:  # 4096 one-byte cells are too many for a specification
        i = 7
    return GEOS[i]()


def sweep_geo(r):
    """Cells of any length, that need not have to do with blocks."""
    k = r.randrange(2, 5)
    size = r.choice([r.randrange(k, 12), r.randrange(12, 100), r.randrange(100, 2000), r.randrange(2000, 20000)])
    return Geometry(size, [0] + sorted(r.sample(range(1, size), k - 1)))


def far_geo(r):
    """Around the places where numbers of 31, 32 and 33 bits end."""
    g = sweep_geo(r)
    at = r.choice([1 << 31, 1 << 32, 1 << 33, 3 << 32, 1 << 40])
    return Geometry(g.size, g.cuts, base=(at // g.size - r.randrange(0, 3)) * g.size)


def real_blocks(r, geo, maxlen):
    """A block size for LazyFS, independent of the cells; enough pages for all."""
    top = (maxlen // geo.bs + 2) * geo.size
    small = max(1, top // 3000)
    k = r.random()
    if geo.base:
        # LazyFS numbers blocks with 31 bits (known-findings.txt)
        b = r.choice([x for x in (1, 16, 512, 1000, 4096, 4096, 65536) if x >= small and (geo.base + 2 * top) // x < 1 << 31])
    elif k < 0.3:
        b = r.randrange(small, small + 8)
    elif k < 0.6:
        b = r.randrange(small, max(small, geo.size) + 2)
    else:
        b = max(small, r.choice([1, 2, 3, 4, 7, 8, 16, 64, 100, 512, 1000, 4096, 5000, 65536]))
    bpp = r.choice([1, 1, 1, 2, 3, 4, 8])
    return dict(block=b, bpp=bpp, pages=7 * (top // b + 3))


def simple_size(r, geo, cfg):
    """The cache given as a total size; the number of pages that makes (blocks have 4096 bytes then)."""
    bpp = r.choice([1, 1, 2, 3, 4])
    text, total = r.choice([("64kb", 65536), ("64KB", 65536), ("100k", 102400), ("0.125mb", 131072), ("0.1Mb", int(1048576 * 0.1)),
                            ("1m", 1048576), ("0.001gb", int((1 << 30) * 0.001)), ("48.5K", int(1024 * 48.5)), ("0.0001G", int((1 << 30) * 0.0001))])
    cfg.update(bpp=bpp, pages=total // (4096 * bpp))
    return text, bpp


class Run:
    """One recorded run."""

    def __init__(self, exe, work, seed, prof):
        self.r = r = random.Random(seed)
        self.seed = seed
        self.prof = prof
        self.geo = prof["geo"](r) if callable(prof.get("geo")) else small_geo(r)
        cfg = dict(bs=self.geo.bs, bpp=1, pages=64, ev=False)
        cfg.update(prof["cfg"](r) if prof.get("cfg") else {})
        self.names = dict(r.choice(NAMES)) if prof.get("fancy", True) else {}
        self.simple = prof["simple"](r, self.geo, cfg) if prof.get("simple") else None
        self.maxlen = prof.get("maxlen", 12)
        self.real = prof["real"](r, self.geo, self.maxlen) if prof.get("real") else None
        self.d = Driver(exe, work, self.geo, cfg, names=self.names, simple=self.simple, log_ops=r.random() < 0.1,
                        timeout=prof.get("timeout", 20.0), real=self.real, completed=r.random() >= prof.get("p_noack", 0.0))
        self.cfg = cfg
        self.gate = None
        if prof.get("gate"):
            so = build_lazyfs.build_gate()
            self.gate = Gate(so, work, self.d.root)
            if prof.get("noise"):
                self.gate.noise(prof["noise"], r.randrange(1, 1 << 30))
            self.d.preload, self.d.env = so, self.gate.env
        self.val = 0
        self.ev = []
        self.dirs = [[]] + [[x] for x in prof.get("dirs", ["d"])]
        self.fnames = prof.get("fnames", ["a", "b", "c"])
        self.clear, self.top, self.tsq = [], [], []
        self.init = []
        self.nexth = 1
        self.armed = False   # a fault on open or read: do not look through the mount
        self.failed = None

    # ---- helpers
    def path(self, kinds="f"):
        return self.r.choice(self.dirs) + [self.r.choice(self.fnames)]

    def anypath(self):
        if self.r.random() < 0.25 and len(self.dirs) > 1:
            return self.r.choice(self.dirs[1:])
        return self.path()

    def lkind(self, p):
        b = self.d.backing(p)
        return "l" if os.path.islink(b) else "d" if os.path.isdir(b) else "f" if os.path.exists(b) else None

    def through_link(self, p):
        return any(self.lkind(p[:i]) == "l" for i in range(1, len(p)))

    def data(self, n):
        # neighbouring writes differ, and so do cells of one write now and then
        self.val = self.val % 240 + 1
        if self.r.random() < 0.3:
            return [(self.val + i) % 240 + 1 for i in range(n)]
        return [self.val] * n

    def size_of(self, h):
        return self.sizes.get(h, 0)

    def offset(self):
        r = self.r
        m = self.maxlen
        k = r.random()
        if k < 0.3:
            return min(m, r.randrange(0, m // self.geo.bs + 1) * self.geo.bs)
        return r.randrange(0, m + 1)

    def length(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.randrange(1, self.geo.bs + 2)
        return r.randrange(1, max(2, self.maxlen // 2))

    # ---- one event
    def event(self, o, observe=True):
        d = self.d
        what = self.failing(o) if self.gate else None
        d.out = []
        r = d.run(o)
        if o["op"] == "cmds":
            o = dict(o, cs=[dict({k: v for k, v in c.items() if k != "raw"}, text=repr(c["raw"][:300])) for c in o["cs"]], cuts=[list(c) for c in o["cuts"]])
        if o["op"] == "part":
            o = {"op": "part", "text": repr(o["bytes"])}
        e = {"o": o, "r": r, "a": d.alive()}
        if o["op"] == "cmds":
            e["out"] = d.out
        if what:
            self.gate.off()
            if self.gate.fired():
                e["x"] = what
        e["b"] = d.back()
        p = self.prof
        if e["a"] and observe:
            try:
                looks = not self.armed
                if looks and self.r.random() < p.get("p_mount", 0.15):
                    e["m"] = d.mount()
                if looks and self.r.random() < p.get("p_fds", 0.3):
                    e["f"] = d.fdview()
                if self.later:
                    pass
                elif self.r.random() < p.get("p_usage", 0.1) and not self.real:
                    e["u"] = d.usage()
                if self.r.random() < p.get("p_report", 0.0) and self.geo.uniform and not self.later:
                    # names LazyFS has not been asked about since the cache was cleared are not known to it
                    for x in e["b"]:
                        d.fs.stat(d.real(x["p"]))
                    e["rep"] = d.report()
            except Exception as x:
                e["r"] = {"e": "LOOKING: " + repr(x), "v": []}
                e["a"] = d.alive()
        self.ev.append(e)
        return e["r"]

    # ---- failures below LazyFS
    def failing(self, o):
        r, p = self.r, self.prof
        if o["op"] in ("kill", "start", "clear", "nothing", "close") or r.random() >= p.get("p_fail", 0.0):
            return None
        kill = r.random() < p.get("p_kill", 0.2)
        own = {"fsync": ["open", "pwrite", "trunc", "times"], "checkpoint": ["open", "pwrite", "trunc", "times"],
               "write": ["open", "pread", "pwrite"], "ftruncate": ["open", "pwrite", "pread"], "truncate": ["open", "pwrite", "pread"],
               "open": ["open", "create"], "read": ["pread", "open"]}.get(o["op"], [])
        k = r.random()
        if own and k < 0.75:
            ops = [r.choice(own)]
        elif k < 0.9:
            ops = [x for x in gate_ops if x != "times"]
        else:
            ops = r.sample(gate_ops, 3)
        act, arg = ("kill", 0) if kill else ("error", r.choice([5, 28, 122, 13, 24, 30]))
        if "pwrite" in ops and r.random() < 0.5:
            act, arg = "killpart" if kill else "short", r.randrange(0, 9)
        if act in ("short", "killpart"):
            ops = ["pwrite"]
        self.gate.rule(0, ops, act, arg=arg, skip=r.choice([0, 0, 0, 1, 1, 2, 3]), count=1 if kill or r.random() < 0.7 else r.choice([2, -1]))
        return "kill" if kill else "err"

    # ---- random operations
    def op(self):
        r = self.r
        w = self.prof["ops"]
        then, self.then = self.then, None
        if then and (then["op"] != "close" or then["h"] in self.d.handles):
            return then
        if self.later:
            o, n = self.later
            self.later = (o, n - 1)
            if n == 0:
                self.later = None
                if o["h"] and o["h"] not in self.d.handles:
                    o["h"] = 0
                return o
            w = {k: v for k, v in w.items() if k not in FIFO_OPS}
        name = r.choices(list(w), list(w.values()))[0]
        return getattr(self, "g_" + name)()

    def handle(self):
        hs = list(self.d.handles)
        return self.r.choice(hs) if hs else None

    def g_open(self):
        r = self.r
        if len(self.d.handles) >= self.prof.get("maxfds", 4):
            return self.g_close()
        p = self.path()
        if self.through_link(p) or self.lkind(p) == "l":
            return None
        fl = dict(NOFL, creat=r.random() < 0.85 and not self.geo.base)
        if r.random() < 0.1:
            fl["excl"] = True
        if r.random() < self.prof.get("p_trunc", 0.15) and not self.geo.base:
            fl["trunc"] = True
        if r.random() < 0.15:
            fl["append"] = True
        h = self.nexth
        self.nexth += 1
        return {"op": "open", "h": h, "p": p, "fl": fl}

    def g_close(self):
        h = self.handle()
        look = h and self.other_name(self.hino.get(h))
        if look:
            self.then = {"op": "close", "h": h}
        return look or (h and {"op": "close", "h": h})

    def other_name(self, ino, gone=None):
        """Before a name of this file goes: a look at another of its names, unless that was just done.  LazyFS finds unsynced
        data only through names it has seen since the cache was last empty (known-findings.txt)."""
        last = self.ev[-1]["o"] if self.ev else {}
        if ino is None:
            return None
        for p in [d + [f] for d in self.dirs for f in self.fnames]:
            try:
                st = os.lstat(self.d.backing(p))
                if p != gone and st.st_ino == ino and st.st_nlink > 1:
                    return None if last.get("op") == "stat" and self.inode(last["p"]) == ino and last["p"] != gone else {"op": "stat", "p": p}
            except OSError:
                pass
        return None

    def inode(self, p):
        try:
            return os.lstat(self.d.backing(p)).st_ino
        except OSError:
            return None

    def g_write(self):
        h = self.handle()
        if h is None:
            return self.g_open()
        off = self.offset()
        n = min(self.length(), self.maxlen - off)
        if n <= 0:
            off, n = max(0, off - 1), 1
        return {"op": "write", "h": h, "off": off, "d": self.data(n)}

    def g_read(self):
        h = self.handle()
        return h and {"op": "read", "h": h, "off": self.offset(), "n": self.r.randrange(1, self.maxlen + 2)}

    def g_ftruncate(self):
        h = self.handle()
        return h and {"op": "ftruncate", "h": h, "n": self.offset()}

    def g_truncate(self):
        p = self.path()
        if self.lkind(p) in ("d", "l") or self.through_link(p):
            return None
        return {"op": "truncate", "p": p, "n": self.offset()}

    def g_fsync(self):
        h = self.handle()
        return h and {"op": "fsync", "h": h, "data": self.r.random() < 0.4}

    def g_clear(self):
        return {"op": "clear"}

    def g_checkpoint(self):
        return {"op": "checkpoint"}

    def g_nothing(self):
        return {"op": "nothing", "text": self.r.choice(["lazyfs::help", "lazyfs::unsynced-data-report", "bogus",
                                                        "lazyfs::display-cache-usage"])}

    def open_at(self, p):
        """Closes the handles through this name first, where the specification asks for it."""
        b = self.d.backing(p)
        try:
            ino = os.lstat(b).st_ino
        except OSError:
            return []
        return [h for h, x in self.d.handles.items() if self.hino.get(h) == ino]

    def g_unlink(self):
        p = self.path()
        if self.through_link(p):
            return None
        if self.prof.get("nohidden") and self.open_at(p):
            return {"op": "close", "h": self.open_at(p)[0]}
        look = self.other_name(self.inode(p), p)
        if look:
            self.then = {"op": "unlink", "p": p}
        return look or {"op": "unlink", "p": p}

    def g_rename(self):
        p, q = self.anypath(), self.anypath()
        if self.through_link(p) or self.through_link(q):
            return None
        if self.lkind(p) == "l" and q in self.dirs:
            return None
        if self.lkind(p) == "d" and p not in self.dirs:
            return None
        if self.lkind(p) == "f" and q in self.dirs:
            return None if self.lkind(q) != "d" else {"op": "rename", "p": p, "q": q}
        if self.lkind(p) == "d" and q not in self.dirs:
            q = self.r.choice(self.dirs[1:])
        bp, bq = self.d.backing(p), self.d.backing(q)
        if os.path.lexists(bp) and os.path.lexists(bq) and os.lstat(bp).st_ino == os.lstat(bq).st_ino and self.open_at(q):
            return {"op": "close", "h": self.open_at(q)[0]}
        if self.prof.get("nohidden") and self.open_at(q):
            return {"op": "close", "h": self.open_at(q)[0]}
        look = self.other_name(self.inode(q), q) if p != q else None
        if look:
            self.then = {"op": "rename", "p": p, "q": q}
        return look or {"op": "rename", "p": p, "q": q}

    def g_link(self):
        p, q = self.path(), self.path()
        if self.through_link(p) or self.through_link(q) or self.lkind(p) == "d":
            return None
        return {"op": "link", "p": p, "q": q}

    def g_symlink(self):
        q = self.path()
        if self.through_link(q):
            return None
        return {"op": "symlink", "t": ["@", self.r.choice("abc")], "q": q}

    def g_mkdir(self):
        p = self.r.choice(self.dirs[1:])
        return {"op": "mkdir", "p": p}

    def g_rmdir(self):
        p = self.r.choice(self.dirs[1:])
        return {"op": "rmdir", "p": p}

    def g_access(self):
        p = self.path()
        return None if self.lkind(p) == "l" or self.through_link(p) else {"op": "access", "p": p}

    def g_readlink(self):
        p = self.path()
        return None if self.through_link(p) else {"op": "readlink", "p": p}

    def g_stat(self):
        p = self.anypath()
        return None if self.through_link(p) else {"op": "stat", "p": p}

    def g_kill(self):
        return {"op": "kill"}

    def start_op(self):
        self.later, self.torn = None, False
        self.first = self.clear, self.top, self.tsq
        self.configured()
        o = {"op": "start", "cfg": self.cfg, "clear": self.clear, "top": self.top, "tsq": self.tsq}
        self.clear, self.top, self.tsq = self.first
        return o

    # ---- faults
    def universe(self):
        """Every path an operation of this run can name, as (specification, what LazyFS sees)."""
        u = [d + [f] for d in self.dirs for f in self.fnames] + self.dirs[1:] + [["@", x] for x in "abc"]
        return [(p, self.d.fault_path(p)) for p in u]

    def pattern(self):
        """A pattern, and the paths it is found in."""
        r = self.r
        u = self.universe()
        esc = lambda t: re.sub(r"([.^$|()\[\]{}*+?\\/])", lambda m: m.group(1) if m.group(1) == "/" else "\\" + m.group(1), t)
        one = lambda: r.choice(u)[1]
        k = r.randrange(12)
        if k < 3:
            pat = "^" + esc(one()) + "$"
        elif k == 3:
            pat = esc(one())
        elif k == 4:
            pat = esc(os.path.basename(one())) + "$"
        elif k == 5:
            pat = "/" + esc(os.path.basename(one()))
        elif k == 6:
            pat = esc(one()) + "|" + esc(one())
        elif k == 7:
            pat = "(" + "|".join(esc(os.path.basename(one())) for _ in range(2)) + ")$"
        elif k == 8:
            pat = "^.*" + esc(os.path.basename(one())[-2:]) + "$"
        elif k == 9:
            pat = esc(os.path.basename(os.path.dirname(one())) or "x") + "/[^/]*$"
        elif k == 10:
            t = os.path.basename(one())
            pat = "/" + "." * len(t.encode()) + "$"
        else:
            pat = r.choice(["nothing like this", "\\d{9}", "^root", "[0-9]Q+"])
        return pat, [p for p, t in u if re.search(pat.encode(), t.encode(), re.S)]

    def g_crash(self):
        r = self.r
        op = r.choice(["unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"])
        tm = r.choice(["before", "after"])
        f = t = [["*"]]
        s = f"lazyfs::crash::timing={tm}::op={op}"
        parts = []
        two = op in ("rename", "link", "symlink")
        if not two or r.random() < 0.7:
            pat, f = self.pattern()
            parts.append("from_rgx=" + pat)
        if two and (not parts or r.random() < 0.6):
            pat, t = self.pattern()
            parts.append("to_rgx=" + pat)
        if op in ("open", "read") and f:
            self.armed = True
        order = ["timing=" + tm, "op=" + op] + parts
        r.shuffle(order)
        return {"op": "crash", "f": {"op": op, "tm": tm, "f": f, "t": t}, "text": "lazyfs::crash::" + "::".join(order)}

    def torn_op(self):
        r = self.r
        p = self.path()
        if r.random() < 0.6 or not self.geo.uniform:
            k, b = r.randrange(1, 6), []
            n = k
        else:
            b = [r.randrange(1, 4) for _ in range(r.randrange(1, 4))]
            k, n = 0, len(b)
        per = r.sample(range(1, n + 1), r.randrange(1, n + 1))
        return {"p": p, "parts": k, "bytes": b, "persist": sorted(per), "order": per, "occ": r.randrange(1, 5)}

    def torn_seq(self):
        r = self.r
        per = r.sample(range(1, 5), r.randrange(1, 4))
        return {"p": self.path(), "persist": sorted(per), "order": per, "occ": r.randrange(1, 4)}

    def clear_fault(self):
        r = self.r
        op = r.choice(["unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"])
        two = op in ("rename", "link", "symlink")
        p = self.path()
        if op == "symlink":
            p = ["@", r.choice("abc")]
        return {"op": op, "tm": r.choice(["before", "after"]), "p": p, "q": self.path() if two else [], "occ": r.randrange(1, 4),
                "crash": r.random() < 0.4}

    # ---- sequences of commands, good and bad
    def cmd(self):
        r = self.r
        k = r.choices(["clear", "checkpoint", "usage", "report", "help", "junk", "crash", "tornop", "tornseq"],
                      [8, 5, 8, 4, 1, 5, 6, 3, 3])[0]
        if k == "report" and (self.torn or not self.geo.uniform):
            k = "usage"
        if k in ("clear", "checkpoint", "usage", "report", "help"):
            t = {"clear": "lazyfs::clear-cache", "checkpoint": "lazyfs::cache-checkpoint", "usage": "lazyfs::display-cache-usage",
                 "report": "lazyfs::unsynced-data-report", "help": "lazyfs::help"}[k]
            return {"k": k, "raw": t.encode()}
        if k == "junk":
            t = r.choice([b"", b"x", b"lazyfs::clear-cache ", b" lazyfs::clear-cache", b"lazyfs::clear-cache-now", b"LAZYFS::CLEAR-CACHE",
                          b"lazyfs:clear-cache", b"clear-cache", b"lazyfs::", b"lazyfs::clear-cache::", b"lazyfs::cache-checkpoints",
                          b"lazyfs::cache-checkpoint=1", b"lazyfs::clear-cach", b"xlazyfs::clear-cache", b"lazyfs::cache-checkpoin", b"{}", b"{0}%s%n",
                          b"\xff\xfe", b"lazyfs::clear-cache\t", b"lazyfs::clear-cache\r", b"lazyfs::clear-cache;lazyfs::clear-cache",
                          b"finished::clear-cache", b"lazyfs::unsynced-data-reports", b"y" * r.choice([100, 5000, 70000, 200000])])
            return {"k": "junk", "raw": t}
        return getattr(self, "cmd_" + k)(r.random() < 0.6)

    def attrs(self, kind, a):
        self.r.shuffle(a)
        return ("lazyfs::" + kind + "".join("::" + x for x in a)).encode()

    def cmd_crash(self, bad):
        r = self.r
        op = r.choice(["unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"])
        tm = r.choice(["before", "after"])
        two = op in ("rename", "link", "symlink")
        c = {"k": "crash", "op": op, "tm": tm, "fr": "no", "to": "no", "f": [], "t": [], "extra": False}
        pats = {}

        def pat(key, lst):
            c[key] = "ok"
            p, c[lst] = (".*", [p for p, _ in self.universe()]) if bad else self.pattern()
            if not bad and r.random() < 0.2:   # long, and within what is accepted
                p = "|".join([f"/nosuch{i}/" + "z" * r.randrange(20) for i in range(r.choice([3, 60, 300]))] + [p])
                if len(p) > 16000:
                    p, c[lst] = ".*", [p for p, _ in self.universe()]
            pats[key] = p

        if not two or r.random() < 0.7:
            pat("fr", "f")
        if two and (not pats or r.random() < 0.6):
            pat("to", "t")
        a = ["timing=" + tm, "op=" + op]
        if bad:
            how = r.randrange(9)
            if how == 0:
                c["tm"] = r.choice(["during", "BEFORE", "beforeafter", "", "no"])
                a[0] = "timing=" + c["tm"]
            elif how == 1:
                c["op"] = r.choice(["mkdir", "writes", "Write", "flush", "", "fdatasync", "*"])
                a[1] = "op=" + c["op"]
            elif how == 2:
                c["tm"] = "no"
                a.pop(0)
            elif how == 3:
                c["op"] = "no"
                a.pop(1)
            elif how == 4:
                pats.clear()
                c.update(fr="no", to="no", f=[], t=[])
                if not two and r.random() < 0.5:
                    a.append("from_rgx=")
            elif how == 5 and not two:
                pat("to", "t")
                if r.random() < 0.5:
                    pats.pop("fr")
                    c.update(fr="no", f=[])
            elif how in (5, 6):
                key = r.choice(sorted(pats))
                pats[key] = r.choice(["(", "[a", "*", "a{2,1}", "a\\", "(?<x)", ")", "a" * 16385, "(a|" * 9000, "x" * 100000])
                c[key] = "bad"
            else:
                c["extra"] = True
                a.append(r.choice(["x=y", "persist=1", "file=/x", "op", "timing", "occurrence=1", "crash=true", "lazyfs::clear-cache",
                                   " op=write", "from=" + "x", "rgx=.*"]))
        a += [{"fr": "from_rgx=", "to": "to_rgx="}[k] + v for k, v in pats.items()]
        c["raw"] = self.attrs(r.choice(["crash", "crash", "crash", "crash-now"]) if bad and c["extra"] else "crash", a)
        if not bad and op in ("open", "read") and c["f"]:
            self.armed = True
        return c

    BADLIST = ["", ",", "1,,2", "a", "-1", ",1", "1,", "99999999999", "1;2", "1 2", "1.5", "0x1", " 1", "1," * 5000, "+1"]

    def cmd_tornop(self, bad):
        r = self.r
        f = self.torn_op()
        w = self.geo.size // self.geo.bs
        c = {"k": "tornop", "p": f["p"], "parts": -1 if f["bytes"] else f["parts"], "bytes": f["bytes"], "persist": f["order"], "occ": f["occ"],
             "bad": False, "extra": False}
        a = {"file": self.d.backing(f["p"]), "occurrence": str(c["occ"])}
        if not bad:
            if r.random() < 0.2:
                del a["occurrence"]
                c["occ"] = 1
            if r.random() < 0.1:   # a long list says no more
                c["persist"] = c["persist"] + [r.choice(c["persist"]) for _ in range(r.choice([100, 2000, 40000] if not self.gate else [20]))]
            self.torn = True
        else:
            how = r.randrange(10)
            if how == 0:
                c["p"] = []
                a["file"] = "" if r.random() < 0.5 else None
            elif how == 1:
                c["persist"] = []
            elif how == 2:
                c["bad"] = True
                a["persist"] = r.choice(self.BADLIST)
            elif how == 3:
                c["bad"] = True
                c["bytes"], c["parts"] = [], 2
                a["parts"] = r.choice(["", "x", "-1", "2,3", "9999999999", "1.0", " 2"])
            elif how == 4:
                c["bytes"], c["parts"] = [1, 1], 2
            elif how == 5:
                c["bytes"], c["parts"] = [], -1
            elif how == 6:
                n = len(c["bytes"]) if c["bytes"] else c["parts"]
                c["persist"] = r.choice([[n + 1], [0], [1, n + 5], [0, 1], [999999999]])
            elif how == 7:
                c["occ"] = 0
                a["occurrence"] = "0"
            elif how == 8:
                c["bad"] = True
                a["occurrence"] = r.choice(["", "x", "-1", "1,2", "9999999999"])
            else:
                c["extra"] = True
        if c["parts"] != -1:
            a.setdefault("parts", str(c["parts"]))
        if c["bytes"]:
            if bad and r.random() < 0.3:
                c["bytes"] = [0] + c["bytes"][1:]
            a.setdefault("parts_bytes", ",".join(str(x * w) for x in c["bytes"]))
        if c["persist"]:
            a.setdefault("persist", ",".join(map(str, c["persist"])))
        l = [f"{k}={v}" for k, v in a.items() if v is not None]
        if c["extra"]:
            l.append(r.choice(["op=write", "x=y", "timing=after", "persists=1", "part=2"]))
        c["raw"] = self.attrs("torn-op", l)
        c["persist"] = c["persist"][:50]
        return c

    def cmd_tornseq(self, bad):
        r = self.r
        f = self.torn_seq()
        c = {"k": "tornseq", "op": "write", "p": f["p"], "persist": f["order"], "occ": f["occ"], "bad": False, "extra": False}
        a = {"op": "write", "file": self.d.backing(f["p"]), "occurrence": str(c["occ"])}
        if not bad:
            if r.random() < 0.2:
                del a["occurrence"]
                c["occ"] = 1
            if r.random() < 0.15:
                c["persist"] = c["persist"] + [r.choice(c["persist"]) for _ in range(r.choice([100, 2000, 40000] if not self.gate else [20]))]
            self.torn = True
        else:
            how = r.randrange(7)
            if how == 0:
                c["p"] = []
                a["file"] = "" if r.random() < 0.5 else None
            elif how == 1:
                c["persist"] = r.choice([[], [0], [1, 0]])
            elif how == 2:
                c["bad"] = True
                a["persist"] = r.choice(self.BADLIST)
            elif how == 3:
                c["op"] = r.choice(["read", "fsync", "", "no", "writes"])
                a["op"] = None if c["op"] == "no" else c["op"]
            elif how == 4:
                c["occ"] = 0
                a["occurrence"] = "0"
            elif how == 5:
                c["bad"] = True
                a["occurrence"] = r.choice(["", "x", "-1", "1,2", "9999999999"])
            else:
                c["extra"] = True
        if c["persist"]:
            a.setdefault("persist", ",".join(map(str, c["persist"])))
        l = [f"{k}={v}" for k, v in a.items() if v is not None]
        if c["extra"]:
            l.append(r.choice(["parts=2", "x=y", "timing=after", "parts_bytes=1,2"]))
        c["raw"] = self.attrs("torn-seq", l)
        c["persist"] = c["persist"][:50]
        return c

    def g_cmds(self):
        r = self.r
        # names LazyFS has not been asked about since the cache was cleared are not known to the report
        for x in self.d.back():
            self.d.fs.stat(self.d.real(x["p"]))
        if r.random() < 0.1:
            n = r.choice([2, 5, 20, 60])
            return {"op": "cmds", "cs": [{"k": "clear", "raw": b"lazyfs::clear-cache"} for _ in range(n)], "cuts": [], "h": 0, "threads": r.choice([2, 3, 5])}
        cs = [self.cmd() for _ in range(r.choice([1, 1, 2, 3, 4, 6, 10]))]
        h = self.handle()
        if h and not self.armed and r.random() < 0.4:
            cs.append({"k": "clear", "raw": b"lazyfs::clear-cache"})
        else:
            h = 0
        data = b"".join(c["raw"] + b"\n" for c in cs)
        k = r.choice([0, 0, 1, 2, 3, 8, 30])
        cuts = sorted(r.randrange(0, len(data)) for _ in range(k))
        if r.random() < 0.1:
            cuts = list(range(1, min(len(data), 60)))
        o = {"op": "cmds", "cs": cs, "cuts": [(c, r.choice([0, 0, 0, 0.0003, 0.002])) for c in cuts], "h": h}
        if r.random() < 0.2 and len(cs[0]["raw"]) < 4000:
            o["sent"] = r.randrange(0, len(cs[0]["raw"]) + 1)
            o["cuts"] = []
            self.later = (o, r.randrange(1, 4))
            return {"op": "part", "bytes": data[:o["sent"]]}
        return o

    def g_tornop(self):
        return {"op": "tornop", "f": self.torn_op()}

    def g_tornseq(self):
        return {"op": "tornseq", "f": self.torn_seq()}

    def configured(self):
        """Faults for a configuration: one of a kind for a path, and not both kinds of torn writes."""
        self.clear, self.top, self.tsq = [], [], []
        self.armed = False
        n = self.prof.get("config", {})
        seen = set()
        for _ in range(self.r.randrange(n.get("clear", 0) + 1)):
            c = self.clear_fault()
            if str(c["p"]) not in seen:
                seen.add(str(c["p"]))
                self.clear.append(c)
                self.armed = self.armed or c["op"] in ("open", "read")
        torn = set()
        for k, l, make in (("top", self.top, self.torn_op), ("tsq", self.tsq, self.torn_seq)):
            for _ in range(self.r.randrange(n.get(k, 0) + 1)):
                f = make()
                if str(f["p"]) not in torn:
                    torn.add(str(f["p"]))
                    l.append(f)

    # ---- the whole run
    def before(self):
        """Files there are at the start."""
        d = self.d
        os.makedirs(d.root, exist_ok=True)
        r = self.r
        if r.random() < self.prof.get("p_init", 0.5):
            for p in self.dirs[1:]:
                if len(p) == 1 and r.random() < 0.7:
                    os.mkdir(d.backing(p))
            for _ in range(r.randrange(1, 4)):
                p = self.path()
                if not os.path.isdir(os.path.dirname(d.backing(p))) or os.path.lexists(d.backing(p)):
                    continue
                with open(d.backing(p), "wb") as f:
                    f.truncate(self.geo.base)
                    f.seek(self.geo.base)
                    f.write(self.geo.encode(0, self.data(r.randrange(0, self.maxlen))))
        self.init = d.back()

    then = None
    later = None   # commands of which part is in the fifo
    torn = False   # torn writes have been armed

    def go(self):
        self.hino = {}
        self.before()
        self.configured()
        d = self.d
        try:
            d.start(self.clear, self.top, self.tsq, self.cfg)
            n = self.r.randrange(*self.prof.get("length", (20, 60)))
            while len(self.ev) < n:
                o = self.op() if d.alive() else self.start_op()
                if not o:
                    continue
                rep = self.event(o)
                if rep["e"] == "HANG" or rep["e"].startswith("LOOKING"):
                    break
                if o["op"] == "open" and rep["e"] == "ok":
                    try:
                        self.hino[o["h"]] = os.lstat(d.backing(o["p"])).st_ino
                    except OSError:
                        pass
                if not d.alive() and self.prof.get("once"):
                    break
            self.finish()
        finally:
            d.done()
            if self.gate:
                self.gate.close()
        return self.record()

    def finish(self):
        """Look at everything, lose the cache, look again."""
        if self.later and self.d.alive():
            o, self.later = self.later[0], None
            o["h"] = 0
            self.event(o)
        if self.d.alive() and self.ev and self.ev[-1]["r"]["e"] in ("ok",):
            save = dict(self.prof)
            self.prof = dict(save, p_mount=1.0, p_fds=1.0, p_usage=1.0)
            if self.r.random() < 0.5:
                self.event({"op": "clear"})
            else:
                self.event({"op": "nothing"})
            self.prof = save
        if self.d.alive():
            self.event({"op": "kill"})

    def record(self):
        return {"cfg": self.cfg, "init": self.init, "clear": self.clear, "top": self.top, "tsq": self.tsq, "ev": self.ev,
                "meta": {"seed": self.seed, "block": self.geo.size, "cuts": self.geo.cuts, "names": self.names,
                         "base": self.geo.base, "real": self.real, "simple": self.simple}}


class Script(Run):
    """A run of given operations (a run ends when LazyFS does)."""

    def __init__(self, exe, work, seed, prof, ops):
        super().__init__(exe, work, seed, prof)
        self.ops = ops

    def before(self):
        os.makedirs(self.d.root, exist_ok=True)
        for p, n in (("a", 3), ("b", 2)):
            with open(self.d.backing([p]), "wb") as f:
                f.write(self.geo.encode(0, self.data(n)))
        self.init = self.d.back()

    def op(self):
        return self.ops.pop(0)

    def go(self):
        self.prof = dict(self.prof, length=(len(self.ops), len(self.ops) + 1), once=True)
        return super().go()


FIFO_OPS = {"clear", "checkpoint", "nothing", "crash", "tornop", "tornseq", "cmds", "kill"}
DATA = dict(open=6, close=2, write=30, read=8, ftruncate=8, truncate=3, fsync=8, clear=3, checkpoint=2, unlink=2, rename=2,
            stat=1, kill=0.5, nothing=0.5)
NAMESOPS = dict(open=8, close=4, write=12, read=2, ftruncate=2, truncate=1, fsync=3, clear=2, checkpoint=1, unlink=5, rename=12,
                link=6, symlink=2, mkdir=4, rmdir=2, stat=3, access=1, readlink=1, kill=0.5)



def few_pages(r, ev=False):
    return dict(pages=r.choice([1, 2, 3, 4, 6] if ev else [1, 2, 3, 4]), bpp=r.choice([1, 1, 2, 4] if ev else [1, 1, 2]), ev=ev)


PROFILES = {
    "data": dict(ops=DATA, geo=any_geo, p_report=0.05),
    "names": dict(ops=NAMESOPS, dirs=["d", "e"], fnames=["a", "b"], maxlen=4, length=(20, 60), p_mount=0.3),
    "full": dict(ops=DATA, geo=few_blocks, maxlen=8, p_usage=0.7, cfg=lambda r: dict(pages=r.choice([1, 2, 3, 4]), bpp=r.choice([1, 1, 2, 3]))),
    "evict": dict(ops=dict(DATA, unlink=1, rename=1), geo=small_geo, nohidden=True, p_mount=0.4, p_trunc=0.05,
                  cfg=lambda r: dict(pages=r.choice([1, 2, 3, 4, 6]), bpp=r.choice([1, 1, 2, 4]), ev=True)),
    "crash": dict(ops=dict(NAMESOPS, crash=9, truncate=3, access=5, read=5, kill=0.2), dirs=["d"], fnames=["a", "b"], maxlen=4, nohidden=True, length=(30, 80),
                  p_mount=0.1, p_fds=0.1),
    "clear": dict(ops=dict(NAMESOPS, truncate=3, access=4, read=5, write=16, kill=1.0, clear=0.5), dirs=["d"], fnames=["a", "b"], maxlen=6, nohidden=True,
                  length=(30, 80), config=dict(clear=5), p_mount=0.1, p_fds=0.2),
    "tornop": dict(ops=dict(DATA, tornop=3, fsync=5, link=1), nohidden=True, length=(20, 70), config=dict(top=4), geo=byte_geo),
    "tornseq": dict(ops=dict(DATA, tornseq=3, fsync=8, ftruncate=3, link=1), nohidden=True, length=(20, 70), config=dict(tsq=4), geo=small_geo),
    "faults": dict(ops=dict(NAMESOPS, truncate=3, access=2, read=3, write=25, crash=1.5, tornop=1, kill=1.0), dirs=["d"], nohidden=True, maxlen=8,
                   length=(30, 80), geo=byte_geo, config=dict(clear=3, top=2, tsq=2)),
    "report": dict(ops=dict(DATA, link=2, rename=4), geo=small_geo, p_report=0.6, cfg=lambda r: dict(bpp=r.choice([1, 1, 2, 4]))),
    # blocks that were evicted are as good as synced
    "reportevict": dict(ops=dict(DATA, link=2, rename=4), geo=small_geo, p_report=0.6, nohidden=True, p_trunc=0.05, cfg=lambda r: few_pages(r, True)),
    # many commands at once, in pieces, good and bad ones
    "cmds": dict(ops=dict(NAMESOPS, write=20, fsync=5, cmds=22, truncate=3, access=3, read=4), dirs=["d"], fnames=["a", "b"], maxlen=6, nohidden=True,
                 length=(25, 60), geo=byte_geo, p_mount=0.2, p_fds=0.2, p_noack=0.1),
    "script": dict(ops={}, fancy=False, geo=lambda r: Geometry(2), p_mount=0, p_fds=0, p_usage=0),
    # the same, with threads held up at locks now and then
    "acks": dict(ops=dict(DATA, write=30, fsync=5, cmds=22, clear=8), maxlen=6, nohidden=True, length=(20, 40), geo=byte_geo, p_mount=0.5, p_fds=0.3,
                 gate=True, noise=300),
    # the file system below fails; full: also with few pages, evict: with eviction
    "fail": dict(ops=dict(DATA, fsync=14, checkpoint=4, link=1), geo=fail_geo, gate=True, p_fail=0.4, p_kill=0.0, nohidden=True, maxlen=10),
    "failnames": dict(ops=dict(NAMESOPS, fsync=6, checkpoint=3), geo=fail_geo, gate=True, p_fail=0.4, p_kill=0.0, nohidden=True, maxlen=4,
                      dirs=["d", "e"], fnames=["a", "b"], p_mount=0.5),
    "failfull": dict(ops=dict(DATA, fsync=8), geo=fail_geo, gate=True, p_fail=0.4, p_kill=0.0, nohidden=True, maxlen=7, p_mount=0.3,
                     cfg=lambda r: dict(pages=r.choice([1, 2, 3]), bpp=r.choice([1, 1, 2]))),
    "failevict": dict(ops=dict(DATA, fsync=8, unlink=1, rename=1), geo=fail_geo, gate=True, p_fail=0.4, p_kill=0.0, nohidden=True, maxlen=8,
                      p_mount=0.4, p_trunc=0.05, cfg=lambda r: dict(pages=r.choice([1, 2, 3, 4]), bpp=r.choice([1, 1, 2, 4]), ev=True)),
    # killed at a call below
    "killat": dict(ops=dict(NAMESOPS, write=20, fsync=14, checkpoint=4), geo=fail_geo, gate=True, p_fail=0.25, p_kill=1.0, nohidden=True, maxlen=8),
    "killfull": dict(ops=dict(DATA, fsync=8), geo=fail_geo, gate=True, p_fail=0.25, p_kill=1.0, nohidden=True, maxlen=7,
                     cfg=lambda r: dict(pages=r.choice([1, 2, 3]), bpp=r.choice([1, 1, 2]))),
    "killevict": dict(ops=dict(DATA, fsync=8, unlink=1, rename=1), geo=fail_geo, gate=True, p_fail=0.25, p_kill=1.0, nohidden=True, maxlen=8,
                      p_trunc=0.05, cfg=lambda r: dict(pages=r.choice([1, 2, 3, 4]), bpp=r.choice([1, 1, 2, 4]), ev=True)),
    "sweep": dict(ops=dict(DATA, link=1), geo=sweep_geo, real=real_blocks, cfg=lambda r: dict(pages=1000)),
    "sweepnames": dict(ops=NAMESOPS, dirs=["d", "e"], fnames=["a", "b"], maxlen=4, geo=sweep_geo, real=real_blocks, p_mount=0.3,
                       cfg=lambda r: dict(pages=1000)),
    "sweepfaults": dict(ops=dict(NAMESOPS, truncate=3, access=2, read=3, write=25, crash=1.5, tornop=1, kill=1.0), dirs=["d"], nohidden=True,
                        maxlen=8, length=(30, 80), geo=byte_geo, real=real_blocks, config=dict(clear=3, top=3), cfg=lambda r: dict(pages=1000)),
    "far": dict(ops=dict(DATA, unlink=0, truncate=6), dirs=["d"], geo=far_geo, real=real_blocks, cfg=lambda r: dict(pages=1000), p_init=1.0),
    "simple": dict(ops=DATA, geo=lambda r: r.choice([Geometry(4096, [0, 1, 4095]), Geometry(4096, [0, 2048]), Geometry(4096, [0, 1000])]),
                   maxlen=8, simple=simple_size, p_usage=0.5, fnames=["a", "b"], length=(15, 40)),
}
# the same with few pages, without and with eviction
for _p in ("names", "crash", "clear", "tornop", "tornseq", "faults", "cmds"):
    _geo = few_blocks if PROFILES[_p].get("geo", any_geo) is any_geo else PROFILES[_p]["geo"]
    PROFILES[_p + "full"] = dict(PROFILES[_p], geo=_geo, cfg=few_pages)
    PROFILES[_p + "evict"] = dict(PROFILES[_p], geo=_geo, nohidden=True, p_trunc=0.05, cfg=lambda r: few_pages(r, True))
