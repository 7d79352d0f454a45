"""Builds the lazyfs binary from /repo's working tree into /verif/.build (content-addressed, offline, no cmake).

All of libs/libpcache/src/**/*.cpp, lazyfs/src/*.cpp and lazyfs/include/**/*.cpp go into one executable, so files that
are added or moved are picked up.  Objects are cached by a hash of every header and of the source, so that a change in
/repo is always seen and an unchanged tree is never rebuilt.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

REPO = os.environ.get("LAZYFS_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build"))

INC = ["lazyfs/include", "libs/libpcache/include"]
BASE = ["-std=c++17", "-g", "-pthread", "-D_FILE_OFFSET_BITS=64", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB",
        "-DSPDLOG_FMT_EXTERNAL", "-w"]
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread"],
}


def sources():
    s = glob.glob(f"{REPO}/libs/libpcache/src/**/*.cpp", recursive=True)
    s += glob.glob(f"{REPO}/lazyfs/src/**/*.cpp", recursive=True)
    s += glob.glob(f"{REPO}/lazyfs/include/**/*.cpp", recursive=True)
    return sorted(s)


def headers():
    h = []
    for d in INC:
        for p in glob.glob(f"{REPO}/{d}/**/*", recursive=True):
            if os.path.isfile(p) and not p.endswith(".cpp"):
                h.append(p)
    return sorted(h)


def _fuse_flags():
    c = subprocess.run(["pkg-config", "--cflags", "fuse3"], capture_output=True, text=True).stdout.split()
    return c or ["-I/usr/include/fuse3"]


class BuildError(Exception):
    pass


def build(variant="plain"):
    """Returns (path of the binary, tree hash)."""
    os.makedirs(OUT, exist_ok=True)
    flags = BASE + VARIANTS[variant]
    hh = hashlib.sha256()
    for p in headers():
        hh.update(os.path.relpath(p, REPO).encode())
        hh.update(open(p, "rb").read())
    hh.update(" ".join(flags).encode())
    hdr = hh.hexdigest()
    objs, jobs = [], []
    tree = hashlib.sha256(hdr.encode())
    for p in sources():
        body = open(p, "rb").read()
        rel = os.path.relpath(p, REPO)
        k = hashlib.sha256(hdr.encode() + rel.encode() + body).hexdigest()[:24]
        tree.update(k.encode())
        o = f"{OUT}/obj/{k}.o"
        objs.append(o)
        jobs.append((p, o))
    key = tree.hexdigest()[:24]
    exe = f"{OUT}/lazyfs-{variant}-{key}"
    with open(f"{OUT}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe, key
        os.makedirs(f"{OUT}/obj", exist_ok=True)
        inc = [f"-I{REPO}/{d}" for d in INC] + _fuse_flags()

        def one(j):
            src, obj = j
            if os.path.exists(obj):
                return None
            tmp = obj + ".tmp.o"
            r = subprocess.run(["g++", *flags, *inc, "-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return f"{src}:\n{r.stderr[-3000:]}"
            os.rename(tmp, obj)
            return None

        with cf.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, jobs) if e]
        if errs:
            raise BuildError("\n".join(errs))
        r = subprocess.run(["g++", *flags, *objs, "-o", exe + ".tmp", "-lfuse3", "-lspdlog", "-lfmt"],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        os.rename(exe + ".tmp", exe)
    return exe, key


def build_gate():
    """The LD_PRELOAD library that stands for the underlying file system's schedule, crash points and errors."""
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "gate.c")
    k = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = f"{OUT}/gate-{k}.so"
    os.makedirs(OUT, exist_ok=True)
    with open(f"{OUT}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-pthread", "-w", src, "-o", out + ".tmp", "-ldl"],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr)
            os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    v = sys.argv[1] if len(sys.argv) > 1 else "plain"
    print(build(v)[0])
