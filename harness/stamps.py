"""Random runs with times, modes and owners, for TraceTimes.tla."""
import os
import time

import gen

OPS = dict(gen.DATA, utimens=14, chmod=4, chown=3, write=18, fsync=12, clear=6, checkpoint=3, read=5, link=2, kill=1.5, stat=3)
NAMESOPS = dict(gen.NAMESOPS, utimens=10, chmod=4, chown=3, fsync=5, clear=5, kill=1)
PROFILES = {
    "times": dict(ops=OPS, geo=gen.small_geo, p_mount=0, p_fds=0, maxlen=8, length=(30, 60)),
    "timesnames": dict(ops=NAMESOPS, geo=gen.small_geo, dirs=["d", "e"], fnames=["a", "b"], p_mount=0, p_fds=0, maxlen=4, length=(30, 60)),
    "timesfull": dict(ops=OPS, geo=gen.few_blocks, p_mount=0, p_fds=0, maxlen=6, length=(20, 50),
                      cfg=lambda r: dict(pages=r.choice([1, 2, 3]), bpp=r.choice([1, 1, 2]))),
}
COARSE = 5        # CLOCK_REALTIME_COARSE
FIRST = 1000000     # numbers of times that were set; smaller numbers are steps


class Run(gen.Run):
    def __init__(self, exe, work, seed, prof):
        super().__init__(exe, work, seed, prof)
        self.number = {}        # nanoseconds -> number
        self.d.times = {}       # number -> (s, ns)
        self.steps = []
        self.last = 0

    def number_of(self, ns):
        n = self.number.get(ns)
        if n is None:
            n = self.number[ns] = FIRST + len(self.number)
            self.d.times[n] = divmod(ns, 10 ** 9)
        return n

    def project(self, ns):
        if ns in self.number:
            return self.number[ns]
        for i in range(len(self.steps) - 1, -1, -1):
            lo, hi = self.steps[i]
            if lo <= ns <= hi:
                return i + 1
        return -2

    def time(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return 0
        if k < 0.45:
            return -1
        if k < 0.6 and self.number:
            return r.choice(list(self.number.values()))
        s = r.choice([0, 1, -1, 86400 * 365 * 30 + r.randrange(10 ** 8), (1 << 31) - 1, 1 << 31, 1 - (1 << 31), 1 << 32, (1 << 33) + 5, r.randrange(1 << 30)])
        return self.number_of(s * 10 ** 9 + r.choice([0, 1, 999, 1000, 999999999, 999999000, r.randrange(10 ** 9)]))

    def where(self):
        h = self.handle()
        if h and self.r.random() < 0.4:
            return {"h": h, "p": ["a"]}
        p = self.anypath()
        return None if self.through_link(p) else {"h": 0, "p": p}

    def g_utimens(self):
        w = self.where()
        a, m = self.time(), self.time()
        if self.r.random() < 0.05:
            a = m = -1
        return w and (a or m) and dict(w, op="utimens", a=a, m=m)

    def g_chmod(self):
        w = self.where()
        if not w or not w["h"] and self.lkind(w["p"]) == "l":
            return None
        return dict(w, op="chmod", mode=self.r.choice([0, 0o400, 0o444, 0o600, 0o644, 0o666, 0o755, 0o777, 0o1777, 0o222, self.r.randrange(512)]))

    def g_chown(self):
        w = self.where()
        return w and dict(w, op="chown", own=[self.r.choice([0, 1, 1000, 65534, 70000]), self.r.choice([0, 5, 1000, 65534, 70000])])

    def g_open(self):
        o = super().g_open()
        if o and o["op"] == "open":
            o["mode"] = self.r.choice([0o644, 0o600, 0o666, 0o777, 0o400, 0o640, self.r.randrange(512)])
        return o

    def g_mkdir(self):
        return dict(super().g_mkdir(), mode=self.r.choice([0o755, 0o700, 0o777, 0o775, 0o1777]))

    def before(self):
        super().before()
        for x in self.init:
            st = os.lstat(self.d.backing(x["p"]))
            x.update(dm=self.number_of(st.st_mtime_ns), da=self.number_of(st.st_atime_ns), mode=st.st_mode & 0o7777, own=[st.st_uid, st.st_gid])
        self.last = time.clock_gettime_ns(time.CLOCK_REALTIME)

    def event(self, o, observe=True):
        # steps must not share an instant of the coarse clock file systems use
        while time.clock_gettime_ns(COARSE) <= self.last:
            time.sleep(0.0005)
        lo = time.clock_gettime_ns(COARSE)
        r = super().event(o, observe)
        e = self.ev[-1]
        obs = []
        try:
            share = self.r.choice([0, 0.3, 1]) if e["a"] and observe else 0
            for x in e["b"]:
                if self.r.random() < share:
                    a = self.d.fs.stat(self.d.real(x["p"]))
                else:
                    a = None
                obs.append((x["p"], os.lstat(self.d.backing(x["p"])), a))
        except Exception as x:
            e["r"] = {"e": "LOOKING: " + repr(x), "v": []}
            e["a"] = self.d.alive()
        self.last = time.clock_gettime_ns(time.CLOCK_REALTIME)
        self.steps.append((lo, self.last))
        e["t"] = []
        for p, st, a in obs:
            x = {"p": p, "dm": self.project(st.st_mtime_ns), "da": self.project(st.st_atime_ns), "mode": st.st_mode & 0o7777, "own": [st.st_uid, st.st_gid]}
            if a:
                x.update(vm=self.project(a.mtime[0] * 10 ** 9 + a.mtime[1]), va=self.project(a.atime[0] * 10 ** 9 + a.atime[1]),
                         vmode=a.mode & 0o7777, vown=[a.uid, a.gid], ino=a.ino == st.st_ino)
            e["t"].append(x)
        return e["r"]

    def finish(self):
        if self.d.alive() and self.ev and self.ev[-1]["r"]["e"] == "ok":
            self.event({"op": "clear"})
        if self.d.alive():
            self.event({"op": "kill"})
