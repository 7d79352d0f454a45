"""A FUSE-protocol client: plays the kernel towards an unmodified lazyfs binary, over a socketpair (nothing is mounted).

libfuse accepts /dev/fd/N as an already open FUSE connection.  Every call below is one or more FUSE requests, in the
order in which Linux would issue them (entry and attribute timeouts are 0, so every path walk is a LOOKUP and every read
is preceded by a GETATTR).
"""
import errno
import fcntl
import os
import select
import shutil
import signal
import socket
import stat as statmod
import struct
import subprocess
import tempfile
import termios
import threading
import time

(LOOKUP, FORGET, GETATTR, SETATTR, READLINK, SYMLINK, MKNOD, MKDIR, UNLINK, RMDIR, RENAME, LINK, OPEN, READ, WRITE,
 STATFS, RELEASE, FSYNC) = (1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20)
FLUSH, INIT, OPENDIR, READDIR, RELEASEDIR, ACCESS, CREATE, RENAME2 = 25, 26, 27, 28, 29, 34, 35, 45
INIT_FLAGS = 0x7F | 1 << 10 | 1 << 12 | 1 << 18 | 1 << 19
ATTR = struct.Struct("<QQQqqqIIIIIIIIII")  # ino size blocks at mt ct atn mtn ctn mode nlink uid gid rdev blksize flags
ENTRY = struct.Struct("<QQQQII")
FATTR_MODE, FATTR_UID, FATTR_GID, FATTR_SIZE, FATTR_ATIME, FATTR_MTIME, FATTR_FH, FATTR_ATIME_NOW, FATTR_MTIME_NOW = 1, 2, 4, 8, 16, 32, 64, 128, 256


class Dead(Exception):
    """lazyfs has gone (the connection is closed)."""


class Hang(Exception):
    """lazyfs did not answer in time."""


class FuseError(Exception):
    def __init__(self, err):
        super().__init__(errno.errorcode.get(err, str(err)))
        self.err = err


class Attr:
    __slots__ = ("ino", "size", "blocks", "atime", "mtime", "ctime", "mode", "nlink", "uid", "gid")

    def __init__(self, t):
        self.ino, self.size, self.blocks = t[0:3]
        self.atime, self.mtime, self.ctime = (t[3], t[6]), (t[4], t[7]), (t[5], t[8])
        self.mode, self.nlink, self.uid, self.gid = t[9:13]

    @property
    def isdir(self):
        return statmod.S_ISDIR(self.mode)

    @property
    def isreg(self):
        return statmod.S_ISREG(self.mode)


class Handle:
    __slots__ = ("node", "fh", "flags")

    def __init__(self, node, fh, flags):
        self.node, self.fh, self.flags = node, fh, flags


class LazyFS:
    """One running lazyfs over a backing directory."""

    def __init__(self, exe, work, config=None, injections="", root=None, preload=None, env=None, timeout=20.0,
                 log_ops=False, completed=True, single=False):
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.root = root or os.path.join(work, "root")
        os.makedirs(self.root, exist_ok=True)
        self.fifo = os.path.join(work, "f")
        self.cfifo = os.path.join(work, "fc") if completed else None
        self.timeout = timeout
        for f in (self.fifo, self.cfifo):
            if f:
                try:
                    os.unlink(f)
                except FileNotFoundError:
                    pass
                os.mkfifo(f)
        cfg = os.path.join(work, "c.toml")
        conf = dict(block=4096, page=4096, pages=64, evict=False, simple=None)
        conf.update(config or {})
        with open(cfg, "w") as f:
            f.write(f'[faults]\nfifo_path="{self.fifo}"\n')
            if self.cfifo:
                f.write(f'fifo_path_completed="{self.cfifo}"\n')
            f.write(f'[cache]\napply_eviction={"true" if conf["evict"] else "false"}\n')
            if conf["simple"]:
                f.write(f'[cache.simple]\ncustom_size="{conf["simple"][0]}"\nblocks_per_page={conf["simple"][1]}\n')
            else:
                f.write(f'[cache.manual]\nio_block_size={conf["block"]}\npage_size={conf["page"]}\n'
                        f'no_pages={conf["pages"]}\n')
            f.write(f'[filesystem]\nlog_all_operations={"true" if log_ops else "false"}\nlogfile=""\n')
            f.write(injections)
        # the readers' ends first: lazyfs's worker opens the completion fifo for writing, which waits for a reader
        self.cfd = os.open(self.cfifo, os.O_RDWR | os.O_NONBLOCK) if self.cfifo else -1
        self.ffd = os.open(self.fifo, os.O_RDWR | os.O_NONBLOCK)
        self.sock, server = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (self.sock, server):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        self.logpath = os.path.join(work, "log")
        self.log = open(self.logpath, "wb")
        e = dict(os.environ)
        e.pop("LD_PRELOAD", None)
        if preload:
            e["LD_PRELOAD"] = preload
        if env:
            e.update(env)
        args = [exe, f"/dev/fd/{server.fileno()}", "--config-path", cfg, "-o", "modules=subdir", "-o",
                f"subdir={self.root}", "-f"]
        if single:
            args.append("-s")
        self.proc = subprocess.Popen(args, cwd=work, stdin=subprocess.DEVNULL, stdout=self.log,
                                     stderr=subprocess.STDOUT, pass_fds=[server.fileno()], env=e, umask=0o22)
        server.close()
        self.unique = 2
        self.lock = threading.Lock()
        self.replies = {}
        self.cv = threading.Condition()
        self.receiving = False
        self.dead = False
        self.handles = []
        self.completions = b""
        body = struct.pack("<IIII", 7, 31, 131072, INIT_FLAGS)
        self.request(INIT, 0, body)
        # the fault worker prints this line when it is ready; commands sent before it are kept by the fifo anyway

    # ---- requests
    def send(self, op, node, body=b""):
        with self.lock:
            self.unique += 2
            u = self.unique
        try:
            self.sock.send(struct.pack("<IIQQIIII", 40 + len(body), op, u, node, 0, 0, os.getpid(), 0) + body)
        except OSError:
            self.dead = True
            raise Dead()
        return u

    def wait(self, u, timeout=None):
        end = time.monotonic() + (timeout or self.timeout)
        with self.cv:
            while u not in self.replies:
                if self.dead:
                    raise Dead()
                if self.receiving:
                    if not self.cv.wait(max(0.0, end - time.monotonic())) and time.monotonic() >= end:
                        raise Hang()
                    continue
                self.receiving = True
                self.cv.release()
                data = None
                try:
                    left = end - time.monotonic()
                    r, _, _ = select.select([self.sock], [], [], max(0.0, left))
                    if r:
                        try:
                            data = self.sock.recv(1 << 18)
                        except OSError:
                            data = b""
                finally:
                    self.cv.acquire()
                    self.receiving = False
                    self.cv.notify_all()
                if data is None:
                    raise Hang()
                if len(data) < 16:
                    self.dead = True
                    self.cv.notify_all()
                    raise Dead()
                _, err, ru = struct.unpack_from("<IiQ", data)
                self.replies[ru] = (err, data[16:])
            err, body = self.replies.pop(u)
        if err:
            raise FuseError(-err)
        return body

    def request(self, op, node, body=b""):
        return self.wait(self.send(op, node, body))

    # ---- names
    def lookup(self, parent, name):
        b = self.request(LOOKUP, parent, name.encode() + b"\0")
        node = ENTRY.unpack_from(b)[0]
        if not node:
            raise FuseError(errno.ENOENT)
        return node, Attr(ATTR.unpack_from(b, ENTRY.size))

    def walk(self, path):
        """(node, attr) of a path, without following a final symlink."""
        node, attr = 1, None
        parts = [p for p in path.split("/") if p]
        if not parts:
            return 1, self.getattr(1)
        for p in parts:
            node, attr = self.lookup(node, p)
        return node, attr

    def parent(self, path):
        parts = [p for p in path.split("/") if p]
        node = 1
        for p in parts[:-1]:
            node, _ = self.lookup(node, p)
        return node, parts[-1]

    def getattr(self, node, h=None):
        b = self.request(GETATTR, node, struct.pack("<IIQ", 1 if h else 0, 0, h.fh if h else 0))
        return Attr(ATTR.unpack_from(b, 16))

    def stat(self, path):
        return self.walk(path)[1]

    # ---- files
    def open(self, path, flags=os.O_RDWR, mode=0o644, excl=False):
        try:
            node, attr = self.walk(path)
            if excl:
                raise FuseError(errno.EEXIST)
        except FuseError as e:
            if e.err != errno.ENOENT or not flags & os.O_CREAT:
                raise
            parent, name = self.parent(path)
            b = self.request(CREATE, parent, struct.pack("<IIII", flags | os.O_LARGEFILE, statmod.S_IFREG | mode, 0o22, 0)
                             + name.encode() + b"\0")
            node = ENTRY.unpack_from(b)[0]
            fh = struct.unpack_from("<Q", b, ENTRY.size + ATTR.size)[0]
        else:
            if attr.isdir:
                raise FuseError(errno.EISDIR)
            b = self.request(OPEN, node, struct.pack("<II", (flags & ~(os.O_CREAT | os.O_EXCL)) | os.O_LARGEFILE, 0))
            fh = struct.unpack_from("<Q", b)[0]
        h = Handle(node, fh, flags)
        self.handles.append(h)
        return h

    def close(self, h):
        if h in self.handles:
            self.handles.remove(h)
        try:
            self.request(FLUSH, h.node, struct.pack("<QIIQ", h.fh, 0, 0, 0))
        except FuseError as e:
            if e.err != errno.ENOSYS:
                raise
        self.request(RELEASE, h.node, struct.pack("<QIIQ", h.fh, h.flags, 0, 0))

    def read_raw(self, h, off, size):
        return self.request(READ, h.node, struct.pack("<QQIIQII", h.fh, off, size, 0, 0, h.flags, 0))

    def pread(self, h, off, size, align=4096):
        """As the kernel: the size is asked for first, whole pages are read, and what is past the end is cut off."""
        a = self.getattr(h.node, h)
        if off >= a.size:
            return b""
        size = min(size, a.size - off)
        lo = off // align * align
        hi = (off + size + align - 1) // align * align
        out = b""
        pos = lo
        while pos < hi:
            n = min(hi - pos, 131072)
            b = self.read_raw(h, pos, n)
            out += b
            if len(b) < n:
                break
            pos += n
        return out[off - lo:off - lo + size]

    def write_raw(self, h, off, data):
        b = self.request(WRITE, h.node, struct.pack("<QQIIQII", h.fh, off, len(data), 0, 0, h.flags, 0) + data)
        return struct.unpack_from("<I", b)[0]

    def pwrite(self, h, off, data):
        done = 0
        if h.flags & os.O_APPEND:
            off = self.getattr(h.node, h).size
        while done < len(data):
            n = self.write_raw(h, off + done, data[done:done + 131072])
            done += n
            if n < min(131072, len(data) - done + n):
                break
        return done

    def fsync(self, h, data_only=False):
        self.request(FSYNC, h.node, struct.pack("<QII", h.fh, 1 if data_only else 0, 0))

    def setattr(self, node, valid, size=0, h=None, mode=0, atime=(0, 0), mtime=(0, 0), uid=0, gid=0):
        if h:
            valid |= FATTR_FH
        b = struct.pack("<IIQQQqqQIIIIIIII", valid, 0, h.fh if h else 0, size, 0, atime[0], mtime[0], 0, atime[1],
                        mtime[1], 0, mode, 0, uid, gid, 0)
        return self.request(SETATTR, node, b)

    def truncate(self, path, size):
        node, _ = self.walk(path)
        self.setattr(node, FATTR_SIZE, size)

    def ftruncate(self, h, size):
        self.setattr(h.node, FATTR_SIZE, size, h)

    def _of(self, path, h):
        return (h.node, self.getattr(h.node, h)) if h else self.walk(path)

    def utimens(self, path, atime=None, mtime=None, h=None):
        """A time is (seconds, nanoseconds), "now", or None to leave it."""
        node, _ = self._of(path, h)
        valid = 0
        for t, flag, now in ((atime, FATTR_ATIME, FATTR_ATIME_NOW), (mtime, FATTR_MTIME, FATTR_MTIME_NOW)):
            if t:
                valid |= flag | (now if t == "now" else 0)
        self.setattr(node, valid, h=h, atime=atime if atime and atime != "now" else (0, 0),
                     mtime=mtime if mtime and mtime != "now" else (0, 0))

    def chmod(self, path, mode, h=None):
        node, a = self._of(path, h)
        self.setattr(node, FATTR_MODE, h=h, mode=(a.mode & 0o170000) | mode)

    def chown(self, path, uid, gid, h=None):
        node, a = self._of(path, h)
        self.setattr(node, (FATTR_UID if uid >= 0 else 0) | (FATTR_GID if gid >= 0 else 0), h=h, uid=max(uid, 0), gid=max(gid, 0))

    # ---- names that change
    def unlink(self, path):
        p, n = self.parent(path)
        _, a = self.lookup(p, n)
        if a.isdir:
            raise FuseError(errno.EISDIR)
        self.request(UNLINK, p, n.encode() + b"\0")

    def rmdir(self, path):
        p, n = self.parent(path)
        _, a = self.lookup(p, n)
        if not a.isdir:
            raise FuseError(errno.ENOTDIR)
        self.request(RMDIR, p, n.encode() + b"\0")

    def mkdir(self, path, mode=0o755):
        p, n = self.parent(path)
        self.request(MKDIR, p, struct.pack("<II", mode, 0o22) + n.encode() + b"\0")

    def rename(self, a, b):
        pa, na = self.parent(a)
        _, aa = self.lookup(pa, na)
        pb, nb = self.parent(b)
        try:
            _, ab = self.lookup(pb, nb)
        except FuseError as e:
            if e.err != errno.ENOENT:
                raise
            ab = None
        if ab is not None:  # the kernel's may_delete
            if aa.isdir and not ab.isdir:
                raise FuseError(errno.ENOTDIR)
            if ab.isdir and not aa.isdir:
                raise FuseError(errno.EISDIR)
        self.request(RENAME, pa, struct.pack("<Q", pb) + na.encode() + b"\0" + nb.encode() + b"\0")

    def link(self, a, b):
        node, _ = self.walk(a)
        p, n = self.parent(b)
        try:
            self.lookup(p, n)
        except FuseError as e:
            if e.err != errno.ENOENT:
                raise
        else:
            raise FuseError(errno.EEXIST)
        self.request(LINK, p, struct.pack("<Q", node) + n.encode() + b"\0")

    def symlink(self, target, path):
        p, n = self.parent(path)
        self.request(SYMLINK, p, n.encode() + b"\0" + target.encode() + b"\0")

    def readlink(self, path):
        node, _ = self.walk(path)
        return self.request(READLINK, node)

    def access(self, path, mask=4):
        node, _ = self.walk(path)
        self.request(ACCESS, node, struct.pack("<II", mask, 0))

    def readdir(self, path):
        node, _ = self.walk(path)
        b = self.request(OPENDIR, node, struct.pack("<II", os.O_RDONLY, 0))
        fh = struct.unpack_from("<Q", b)[0]
        out, off = [], 0
        while True:
            b = self.request(READDIR, node, struct.pack("<QQIIQII", fh, off, 65536, 0, 0, 0, 0))
            if not b:
                break
            i = 0
            while i + 24 <= len(b):
                ino, off, nlen, typ = struct.unpack_from("<QQII", b, i)
                out.append(b[i + 24:i + 24 + nlen].decode())
                i += 24 + (nlen + 7) // 8 * 8
        self.request(RELEASEDIR, node, struct.pack("<QIIQ", fh, 0, 0, 0))
        return sorted(n for n in out if n not in (".", ".."))

    # ---- the fault fifo
    def command(self, text):
        self.send_fifo(text.encode() + b"\n")

    def send_fifo(self, data):
        end = time.monotonic() + self.timeout
        while data:
            try:
                data = data[os.write(self.ffd, data):]
            except BlockingIOError:
                if self.proc.poll() is not None:
                    raise Dead()
                if time.monotonic() > end:
                    raise Hang()
                select.select([], [self.ffd], [], 0.2)

    def take_completions(self):
        """The lines there are on the completion fifo."""
        while self.cfifo and select.select([self.cfd], [], [], 0)[0]:
            self.completions += os.read(self.cfd, 65536)
        *lines, self.completions = self.completions.split(b"\n")
        return [x.decode(errors="replace") for x in lines]

    def await_completion(self, timeout=None, poll_dead=True):
        """Waits for one line on the completion fifo."""
        end = time.monotonic() + (timeout or self.timeout)
        while b"\n" not in self.completions:
            left = end - time.monotonic()
            if left <= 0:
                raise Hang()
            r, _, _ = select.select([self.cfd], [], [], min(left, 0.5))
            if r:
                self.completions += os.read(self.cfd, 4096)
            elif self.proc.poll() is not None:
                raise Dead()
        line, self.completions = self.completions.split(b"\n", 1)
        return line.decode()

    def clear_cache(self, timeout=None):
        self.command("lazyfs::clear-cache")
        return self.await_completion(timeout)

    def fence(self):
        """Waits until every command sent so far has been taken from the fifo and done (no change to the cache): an unknown
        command, which LazyFS echoes in its log; or, should it not, that the thread reading the fifo waits for more."""
        self._fence = getattr(self, "_fence", 0) + 1
        tag = f"vf-{self._fence}-fence"
        self.command(tag)
        self.wait_log(tag, idle=True)

    def wait_log(self, text, timeout=None, idle=False):
        end = time.monotonic() + (timeout or self.timeout)
        t = text.encode()
        d = 0.0002
        while True:
            if t in self.read_log():
                return
            if self.proc.poll() is not None:
                if t in self.read_log():
                    return
                raise Dead()
            if idle and d > 0.01 and self.fifo_idle():
                return
            if time.monotonic() > end:
                raise Hang()
            time.sleep(d)
            d = min(d * 1.5, 0.02)

    def fifo_idle(self):
        """The fifo is empty and a thread of LazyFS waits in read() or poll() for it."""
        n = struct.unpack("i", fcntl.ioctl(self.ffd, termios.FIONREAD, b"\0" * 4))[0]
        if n:
            return False
        base = f"/proc/{self.proc.pid}"
        try:
            fds = {int(f) for f in os.listdir(base + "/fd") if os.path.realpath(f"{base}/fd/{f}") == os.path.realpath(self.fifo)}
            for t in os.listdir(base + "/task"):
                w = open(f"{base}/task/{t}/syscall").read().split()
                if w[0] == "0" and int(w[1], 16) in fds:
                    return True
        except (OSError, ValueError, IndexError):
            pass
        return False

    def read_log(self):
        with open(self.logpath, "rb") as f:
            return f.read()

    # ---- the end
    def alive(self):
        return self.proc.poll() is None

    def wait_death(self, timeout=5.0):
        try:
            return self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            return None

    def kill(self):
        if self.proc.poll() is None:
            self.proc.send_signal(signal.SIGKILL)
        self.proc.wait()
        for fd in (self.cfd, self.ffd):
            if fd >= 0:
                try:
                    os.close(fd)
                except OSError:
                    pass
        self.cfd = self.ffd = -1
        self.sock.close()
        self.log.close()


if __name__ == "__main__":
    import sys
    exe = sys.argv[1]
    w = tempfile.mkdtemp(prefix="lfs-")
    t = time.time()
    N = 50
    for i in range(N):
        fs = LazyFS(exe, f"{w}/{i}", config=dict(block=4, page=4, pages=16))
        h = fs.open("/a", os.O_CREAT | os.O_RDWR)
        fs.pwrite(h, 0, b"hello world")
        assert fs.pread(h, 0, 100, 4) == b"hello world"
        fs.clear_cache()
        assert fs.pread(h, 0, 100, 4) == b""
        fs.kill()
    print("start+few ops", (time.time() - t) / N)
    fs = LazyFS(exe, f"{w}/x", config=dict(block=4, page=4, pages=16))
    h = fs.open("/a", os.O_CREAT | os.O_RDWR)
    t = time.time()
    for i in range(2000):
        fs.write_raw(h, i % 20, b"abc")
    print("write", (time.time() - t) / 2000)
    t = time.time()
    for i in range(2000):
        fs.getattr(h.node, h)
    print("getattr", (time.time() - t) / 2000)
    t = time.time()
    for i in range(200):
        fs.clear_cache()
    print("clear", (time.time() - t) / 200)
    t = time.time()
    for i in range(200):
        fs.fence()
    print("fence", (time.time() - t) / 200)
    fs.kill()
    print(fs.read_log()[-500:].decode())
    shutil.rmtree(w)
