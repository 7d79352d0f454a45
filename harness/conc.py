"""C16: runs of the real LazyFS with many requests in flight, recorded for TraceConc.tla.

Every worker has files and names of its own; a thread of commands writes to the fault FIFO.  In a "crowd" they all run freely
(threads of LazyFS are held up at locks and backing calls now and then).  In a "duel" one operation is stopped at its n-th lock
or backing call, another operation or command is then run until it is done or waits, and the first one goes on."""
import os
import random
import threading
import time

import build_lazyfs
import gen
from driver import Driver, Geometry
from gate import Gate

FILEOPS = dict(open=5, close=3, write=25, read=8, ftruncate=8, truncate=3, fsync=10, stat=4, unlink=4, rename=8, mkdir=2, rmdir=1, access=1, link=5)
HANDLEOPS = dict(write=30, read=10, ftruncate=8, fsync=12)

PROFILES = {
    # workers, what they do, what commands are given
    "free": dict(commands=dict(clear=6, checkpoint=5, usage=3, report=2, nothing=1), peeker=True),
    "faults": dict(commands=dict(clear=3, checkpoint=2, crash=4, usage=1), config=True),
    # one thread renames the directory the others have files open in
    "dirs": dict(commands=dict(clear=5, checkpoint=5), ops=HANDLEOPS, mover=True),
    # a cache too small for them all: only what applications see is looked at
    "small": dict(commands=dict(nothing=1), view=True),
    # every allocation takes a page from another
    "pages": dict(commands=dict(nothing=1), view=True, ops=dict(write=30, read=25, ftruncate=8, fsync=6, truncate=2, unlink=1, rename=1, open=2),
                  pages=[1, 1, 2], ev=[True, True, False], duels=0.9),
}


class Worker:
    def __init__(self, run, k, rnd):
        self.run, self.k, self.r = run, k, rnd
        self.handles = {}       # number -> path
        self.n = 0
        self.val = 0
        a, b = f"{k}a", f"{k}b"
        self.dirs = [[f"{k}d"], [f"{k}e"]]
        if run.prof.get("mover"):
            self.paths = [["s", a], ["s", b]]
        else:
            self.paths = [[a], [b], ["s", a]] + [d + [a] for d in self.dirs]

    def data(self, n):
        self.val = self.val % 50 + 1
        return [self.val * 4 + self.k] * n

    def open_at(self, p):
        return [h for h, q in self.handles.items() if q == p or q[:len(p)] == p]

    def same(self, p, q):
        try:
            return p != q and os.path.samefile(self.run.d.backing(p), self.run.d.backing(q))
        except OSError:
            return False

    def open_op(self, p):
        self.n += 1
        r = self.r
        fl = dict(gen.NOFL, creat=r.random() < 0.9, trunc=r.random() < 0.1 and not self.run.prof.get("config"))
        return {"op": "open", "h": self.n * 10 + self.k, "p": p, "fl": fl}

    def op(self, even=False):
        r, m = self.r, self.run.maxlen
        w = self.run.prof.get("ops", FILEOPS)
        k = r.choice(list(w)) if even else r.choices(list(w), list(w.values()))[0]
        if k in ("write", "read", "ftruncate", "fsync", "close"):
            if not self.handles:
                return self.open_op(r.choice(self.paths))
            h = r.choice(list(self.handles))
            if k == "write":
                off = r.randrange(0, m)
                return {"op": "write", "h": h, "off": off, "d": self.data(r.randrange(1, m - off + 1))}
            if k == "read":
                return {"op": "read", "h": h, "off": r.randrange(0, m), "n": r.randrange(1, m + 1)}
            if k == "ftruncate":
                return {"op": "ftruncate", "h": h, "n": r.randrange(0, m + 1)}
            if k == "fsync":
                return {"op": "fsync", "h": h, "data": r.random() < 0.4}
            return {"op": "close", "h": h}
        p = r.choice(self.paths)
        if k == "open":
            return self.open_op(p) if len(self.handles) < 3 else {"op": "close", "h": r.choice(list(self.handles))}
        if k == "truncate":
            return {"op": "truncate", "p": p, "n": r.randrange(0, m + 1)}
        if k == "stat":
            return {"op": "stat", "p": p}
        if k == "access":
            return {"op": "access", "p": p}
        if k == "unlink":
            return {"op": "close", "h": self.open_at(p)[0]} if self.open_at(p) else {"op": "unlink", "p": p}
        if k == "rename":
            if r.random() < 0.2:
                p, q = r.sample(self.dirs, 2)
            else:
                q = r.choice(self.paths)
            if self.same(p, q):  # libfuse loses track of open files then
                return {"op": "stat", "p": q}
            return {"op": "close", "h": self.open_at(q)[0]} if p != q and self.open_at(q) else {"op": "rename", "p": p, "q": q}
        if k == "link":
            return {"op": "link", "p": p, "q": r.choice(self.paths)}
        return {"op": k, "p": r.choice(self.dirs)}

    def after(self, o, r):
        if r["e"] != "ok":
            return
        if o["op"] == "open":
            self.handles[o["h"]] = o["p"]
        elif o["op"] == "close":
            self.handles.pop(o["h"], None)
        elif o["op"] == "rename" and o["p"] != o["q"]:
            for h, x in self.handles.items():
                if x[:len(o["p"])] == o["p"]:
                    self.handles[h] = o["q"] + x[len(o["p"]):]


class Commander:
    def __init__(self, run, rnd):
        self.run, self.r = run, rnd

    def op(self):
        w = self.run.prof["commands"]
        k = self.r.choices(list(w), list(w.values()))[0]
        if k == "crash":
            wk = self.r.choice(self.run.workers)
            op = self.r.choice(["write", "fsync", "truncate", "create", "unlink", "read", "open"])
            f = self.r.sample(wk.paths, 2)
            self.run.armed = self.run.armed or op in ("read", "open")
            return {"op": "crash", "f": {"op": op, "tm": self.r.choice(["before", "after"]), "f": f, "t": [["*"]]}}
        return {"op": k}

    def after(self, o, r):
        pass


class Mover:
    """Renames the directory that everything is in."""

    def __init__(self, run, rnd):
        self.at, self.other = ["s"], ["t"]

    def op(self):
        return {"op": "rename", "p": self.at, "q": self.other}

    def after(self, o, r):
        if r["e"] == "ok":
            self.at, self.other = self.other, self.at


class Peeker:
    """Asks for the kinds and link counts of files of others (in directories that stay)."""

    def still(self, p):
        return len(p) == 1 or p[0] == "s"

    def __init__(self, run, rnd):
        self.run, self.r = run, rnd

    def op(self):
        if self.run.about and self.r.random() < 0.7:
            return {"op": "peek", "p": self.r.choice(self.run.about)}
        return {"op": "peek", "p": self.r.choice([p for w in self.run.workers for p in w.paths if self.still(p)])}

    def after(self, o, r):
        pass


class ConcDriver(Driver):
    def run(self, o):
        # the kernel walks the path again when libfuse no longer knows a node on it
        for _ in range(20):
            r = super().run(o)
            if r["e"] != "ESTALE":
                break
        return r

    def op_peek(self, o):
        x = self.op_stat(o)
        return {"k": x["k"], "nl": x["nl"]}

    def op_usage(self, o):
        return [self.usage()]

    def op_report(self, o):
        return [self.report()["total"]]


class Run:
    def __init__(self, exe, work, seed, prof):
        self.r = r = random.Random(seed)
        self.seed, self.prof = seed, prof
        # a kill may leave half of a page of a cell: small cells where there are crashes
        self.geo = r.choice([Geometry(2), Geometry(3), Geometry(4), Geometry(1)] + [Geometry(4096, [0, 2048])] * (not prof.get("config")))
        self.maxlen = 6
        self.cfg = dict(bs=self.geo.bs, bpp=1, pages=200, ev=False)
        real = None
        if prof.get("view"):
            ev = r.choice(prof.get("ev", [True, False]))
            real = dict(block=self.geo.size, bpp=r.choice([1, 1, 2]), pages=r.choice(prof.get("pages", [1, 2, 3, 5])))
        self.d = ConcDriver(exe, work, self.geo, self.cfg, timeout=30.0, real=real, log_ops=False)
        if real:
            self.d.cfg = dict(self.cfg, ev=ev)
        self.gate = None
        if prof.get("gate", True):
            so = build_lazyfs.build_gate()
            self.gate = Gate(so, work, self.d.root)
            self.gate.noise(r.choice([0, 30, 100, 300]), r.randrange(1, 1 << 30))
            self.d.preload, self.d.env = so, self.gate.env
        self.ev = []
        self.L = threading.Lock()
        self.i = 0
        self.armed = False
        self.about = []
        self.bad = False
        self.workers = [Worker(self, k, random.Random(r.random())) for k in range(1, r.choice([2, 2, 3, 4]) + 1)]
        self.commander = Commander(self, random.Random(r.random()))
        self.others = [Mover(self, r)] if prof.get("mover") else [Peeker(self, r)] if prof.get("peeker") and r.random() < 0.5 else []

    # ---- events
    def do(self, who, o):
        with self.L:
            self.i += 1
            c = {"t": "call", "i": self.i, "o": o}
            self.ev.append(c)
        r = self.d.run(o)
        with self.L:
            c["r"] = r
            self.ev.append({"t": "ret", "i": c["i"]})
        who.after(o, r)
        if r["e"] in ("DEAD", "HANG"):
            self.bad = True
        return r

    def alone(self, who, o):
        r = self.d.run(o)
        self.ev.append({"t": "op", "o": o, "r": r})
        who.after(o, r)
        if r["e"] in ("DEAD", "HANG"):
            self.bad = True
        return r

    def crowd(self):
        r = self.r
        self.about = []

        def go(who, n):
            for _ in range(n):
                if self.bad:
                    return
                self.do(who, who.op())

        ts = [threading.Thread(target=go, args=(w, r.randrange(2, 7))) for w in self.workers]
        ts += [threading.Thread(target=go, args=(self.commander, r.randrange(1, 4)))]
        ts += [threading.Thread(target=go, args=(m, r.randrange(1, 6))) for m in self.others]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def duel(self):
        r = self.r
        a = r.choice(self.workers + [self.commander] + self.others)
        if self.prof.get("duels"):
            a = r.choice(self.workers)
        rest = [w for w in self.workers + [self.commander, self.commander] * ("duels" not in self.prof) + self.others if w is not a] or [self.commander]
        # often an operation of any kind, against commands
        plain = not isinstance(a, Worker) or r.random() < 0.5 or "duels" in self.prof
        if not plain:
            rest = [self.commander, self.commander] + self.others
        oa = a.op() if plain else a.op(even=True)
        self.about = [oa[k] for k in "pq" if k in oa and (len(oa[k]) == 1 or oa[k][0] == "s")]
        point = r.choice(["lock", "lock", "call"])
        ops = ["lock"] if point == "lock" else ["open", "pread", "pwrite", "trunc", "rename", "unlink", "create", "mkdir", "rmdir", "times"]
        self.gate.rule(0, ops, "block", skip=r.randrange(0, r.choice([4, 10, 25, 60])) if point == "lock" else r.choice([0, 0, 1, 2]), count=1)
        ta = threading.Thread(target=self.do, args=(a, oa))
        ta.start()
        end = time.monotonic() + 0.5
        while not self.gate.fired() and ta.is_alive() and time.monotonic() < end:
            time.sleep(0.0002)
        n = r.choice([1, 1, 2, 3])
        who = r.choice(rest)
        ops = [who.op for _ in range(n)]
        if who is self.commander and "checkpoint" in self.prof["commands"] and r.random() < 0.4:
            ops = [lambda: {"op": "checkpoint"}, lambda: {"op": "clear"}]

        def go():
            for op in ops:
                if self.bad:
                    return
                self.do(who, op())

        tb = threading.Thread(target=go)
        tb.start()
        tb.join(0.015)
        self.gate.off()
        ta.join()
        tb.join()

    def look(self, final=False):
        d = self.d
        e = {"t": "obs", "a": d.alive(), "b": d.back() if not self.prof.get("view") or final else []}
        if e["a"] and not self.armed:
            try:
                if self.r.random() < 0.5 or self.prof.get("view"):
                    e["m"] = d.mount()
                if self.r.random() < 0.5 or self.prof.get("view"):
                    e["f"] = d.fdview()
                if self.r.random() < 0.3 and not self.prof.get("view"):
                    e["u"] = d.usage()
            except Exception as x:
                e["a"] = False
                e["x"] = repr(x)
        if self.prof.get("view") and not final:
            del e["b"]
        self.ev.append(e)

    # ---- the whole run
    def go(self):
        d, r = self.d, self.r
        os.makedirs(d.root)
        os.mkdir(os.path.join(d.root, "s"))
        for w in self.workers:
            for p in w.paths:
                if os.path.isdir(os.path.dirname(d.backing(p))) and r.random() < 0.5:
                    with open(d.backing(p), "wb") as f:
                        f.write(self.geo.encode(0, w.data(r.randrange(0, 5))))
        self.init = d.back()
        self.clear, self.top, self.tsq = [], [], []
        if self.prof.get("config"):
            self.configured()
        try:
            d.start(self.clear, self.top, self.tsq)
            for w in self.workers:
                for p in w.paths[:2]:
                    self.alone(w, w.open_op(p)) if not self.bad else None
            for _ in range(r.randrange(2, 5)):
                if self.bad:
                    break
                if self.gate and r.random() < self.prof.get("duels", 0.6):
                    for _ in range(r.choice([1, 2, 4])):
                        self.duel()
                else:
                    self.crowd()
                self.look()
            if d.alive() and not self.bad:
                if self.prof.get("view"):
                    self.alone(self.commander, {"op": "checkpoint"})
                    self.look(final=True)
                else:
                    self.alone(self.commander, {"op": "clear"})
                    self.look()
            if self.ev[-1]["t"] != "obs":
                self.look(final=True)
        finally:
            if self.gate:
                self.gate.off()
            self.hung = self.stuck()
            d.done()
            if self.gate:
                self.gate.close()
        return {"cfg": self.cfg, "init": self.init, "clear": self.clear, "top": self.top, "tsq": self.tsq, "ev": self.ev,
                "meta": {"seed": self.seed, "block": self.geo.size, "cuts": self.geo.cuts, "hung": self.hung}}

    def stuck(self):
        """After a reply that did not come: what the threads of LazyFS are doing."""
        if not any(e.get("r", {}).get("e") == "HANG" for e in self.ev) or not self.d.alive():
            return None
        pid = self.d.fs.proc.pid
        out = []
        for t in os.listdir(f"/proc/{pid}/task"):
            try:
                out.append(open(f"/proc/{pid}/task/{t}/wchan").read() + " " + open(f"/proc/{pid}/task/{t}/syscall").read().strip()[:60])
            except OSError:
                pass
        return out

    def configured(self):
        r = self.r
        for w in self.workers:
            k = r.random()
            p = r.choice(w.paths)
            if k < 0.4:
                op = r.choice(["write", "fsync", "truncate", "create", "unlink"])
                self.clear.append({"op": op, "tm": r.choice(["before", "after"]), "p": p, "q": [], "occ": r.randrange(1, 4), "crash": r.random() < 0.3})
            elif k < 0.6:
                n = r.randrange(1, 4)
                self.top.append({"p": p, "parts": n, "bytes": [], "persist": sorted(r.sample(range(1, n + 1), r.randrange(1, n + 1))), "occ": r.randrange(1, 6)})
            elif k < 0.7:
                self.tsq.append({"p": p, "persist": sorted(r.sample(range(1, 4), 2)), "occ": 1})
