"""The harness's side of gate.c: rules for the calls LazyFS makes to the file system below it."""
import ctypes
import mmap
import os
import time

OPS = {k: 1 << i for i, k in enumerate(["open", "pread", "pwrite", "trunc", "rename", "link", "unlink", "symlink", "mkdir", "rmdir", "times",
                                        "sync", "create", "chmod", "lstat", "lock"])}
ACT = {k: i for i, k in enumerate(["none", "error", "short", "block", "kill", "delay", "killpart"])}


class _Rule(ctypes.Structure):
    _fields_ = [(k, ctypes.c_int) for k in ("active", "skip", "count", "mask", "action", "arg", "fired", "release")] + [("path", ctypes.c_char * 224)]


class _Ctl(ctypes.Structure):
    _fields_ = [(k, ctypes.c_int) for k in ("magic", "noise", "seed", "calls")] + [("r", _Rule * 8)]


class Gate:
    def __init__(self, so, work, root):
        self.path = os.path.join(work, "gate.ctl")
        self.so = so
        with open(self.path, "wb") as f:
            f.truncate(ctypes.sizeof(_Ctl))
        self.f = open(self.path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), ctypes.sizeof(_Ctl))
        self.c = _Ctl.from_buffer(self.m)
        self.env = {"GATE_CTL": self.path, "GATE_ROOT": root}

    def rule(self, i, ops, action, arg=0, skip=0, count=1, path=""):
        r = self.c.r[i]
        r.active = 0
        r.skip, r.count, r.mask, r.action, r.arg = skip, count, sum(OPS[o] for o in ops), ACT[action], arg
        r.fired = r.release = 0
        r.path = path.encode()
        r.active = 1
        return r

    def off(self, i=None):
        for k in range(8) if i is None else [i]:
            self.c.r[k].active = 0
            self.c.r[k].release = 1

    def fired(self, i=0):
        return self.c.r[i].fired

    def wait_fired(self, i=0, timeout=5.0, n=1):
        end = time.monotonic() + timeout
        while self.c.r[i].fired < n:
            if time.monotonic() > end:
                return False
            time.sleep(0.0002)
        return True

    def release(self, i=0):
        self.c.r[i].release = 1

    def noise(self, permille, seed=1):
        self.c.seed = seed
        self.c.noise = permille

    @property
    def calls(self):
        return self.c.calls

    def close(self):
        del self.c
        try:
            self.m.close()
        except BufferError:
            pass
        self.f.close()
