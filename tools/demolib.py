"""For the demonstrations: LazyFS as built in /repo, over a scratch directory of its own."""
import atexit
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fuseclient import Dead, FuseError, Hang, LazyFS  # noqa: E402,F401

EXE = "/repo/lazyfs/build/lazyfs"
WORK = tempfile.mkdtemp(prefix="demo")
_all = []


def _end():
    for f in _all:
        try:
            f.kill()
        except Exception:
            pass
    shutil.rmtree(WORK, ignore_errors=True)


atexit.register(_end)


def start(block=8, bpp=1, pages=64, evict=False, injections="", name="w", **k):
    f = LazyFS(EXE, os.path.join(WORK, name), config=dict(block=block, page=block * bpp, pages=pages, evict=evict), injections=injections, **k)
    _all.append(f)
    return f


def want(what, got, expected):
    if got != expected:
        print(f"{what}: {got!r} instead of {expected!r}")
        sys.exit(1)


def disk(f, name):
    with open(os.path.join(f.root, name), "rb") as x:
        return x.read()


def content(f, path):
    h = f.open(path)
    try:
        return f.pread(h, 0, f.stat(path).size or 1)
    finally:
        f.close(h)


def put(f, path, data, off=0, sync=False, keep=False):
    h = f.open(path, os.O_RDWR | os.O_CREAT)
    f.pwrite(h, off, data)
    if sync:
        f.fsync(h)
    if keep:
        return h
    f.close(h)


def dies(f, op):
    """Does this operation find LazyFS dying?"""
    try:
        op()
    except Dead:
        return True
    return bool(f.wait_death(0.3))
