"""Runs operations of the specification (records as in LazyFS.tla's Apply) on the real LazyFS and projects what can be
observed (replies, the mounted view, the backing directory, whether it lives) onto the specification's state."""
import errno
import os
import re
import shutil
import stat as statmod
import threading
import time

import fuseclient
from fuseclient import Dead, FuseError, Hang, LazyFS

CHUNK = 131072


class Geometry:
    """How cells become bytes.  cuts: the byte offsets in a block at which its cells start; the block has `size` bytes.
    Cell i of the specification starts at byte  base + ...; base (a whole number of blocks) moves everything to high
    offsets: what lies before it is a sparse part of the backing file that the specification does not see."""

    def __init__(self, size=4, cuts=None, base=0):
        self.size = size
        self.cuts = cuts or list(range(size))
        self.bs = len(self.cuts)
        self.base = base
        assert base % size == 0
        w = size // self.bs
        self.uniform = size % self.bs == 0 and self.cuts == list(range(0, size, w))

    def pos(self, cell):
        return self.base + cell // self.bs * self.size + self.cuts[cell % self.bs]

    def cell(self, pos):
        """The cell that starts at byte pos, or None."""
        pos -= self.base
        if pos < 0:
            return None
        b, r = divmod(pos, self.size)
        try:
            return b * self.bs + self.cuts.index(r)
        except ValueError:
            return None

    def encode(self, off, cells):
        return b"".join(pattern(v, self.pos(off + i), self.pos(off + i + 1)) for i, v in enumerate(cells))

    def decode(self, off, data):
        """Cells of the bytes that start at cell off: -2 for a cell that is no pattern, a final -1 for half a cell."""
        out = []
        i = 0
        while i < len(data):
            a, b = self.pos(off), self.pos(off + 1)
            piece = data[i:i + b - a]
            if len(piece) < b - a:
                out.append(-1)
                break
            out.append(unpattern(piece, a))
            i += b - a
            off += 1
        return out


_T = bytes((7 * x + 13 * (x >> 12) + (x >> 20)) % 251 for x in range(1 << 16))
_MAPS = {}


def _base(lo, hi):
    # depends on the position, so that misplaced bytes are seen; repeats only after a long way
    out = b""
    while lo < hi:
        k = lo & 0xFFFF
        n = min(hi - lo, 0x10000 - k)
        sh = (lo >> 16) * 17 % 251
        piece = _T[k:k + n]
        if sh:
            m = _MAPS.get(("s", sh))
            if m is None:
                m = _MAPS[("s", sh)] = bytes((x + sh) % 251 if x < 251 else 0 for x in range(256))
            piece = piece.translate(m)
        out += piece
        lo += n
    return out


def pattern(v, lo, hi):
    if v == 0:
        return b"\0" * (hi - lo)
    m = _MAPS.get(v)
    if m is None:
        m = _MAPS[v] = bytes(1 + (x + 29 * v) % 251 if x < 251 else 0 for x in range(256))
    return _base(lo, hi).translate(m)


_INV29 = pow(29, -1, 251)


def unpattern(piece, lo):
    if piece[0] == 0:
        return 0 if not piece.strip(b"\0") else -2
    v = (piece[0] - 1 - _base(lo, lo + 1)[0]) * _INV29 % 251
    return v if v and pattern(v, lo, lo + len(piece)) == piece else -2


def quietly(path, flags):
    """Opens without changing the access time, if that is allowed."""
    try:
        return os.open(path, flags | os.O_NOATIME)
    except PermissionError:
        return os.open(path, flags)


class Driver:
    """A LazyFS (and its restarts) over one backing directory, driven by operations of the specification."""

    def __init__(self, exe, work, geo, cfg, names=None, observe="auto", preload=None, env=None, timeout=20.0, fold=True,
                 simple=None, log_ops=False, real=None, completed=True):
        self.exe, self.work, self.geo, self.cfg = exe, work, geo, dict(cfg)
        self.names = names or {}
        self.preload, self.env, self.timeout = preload, env, timeout
        self.simple = simple
        self.real_geo = real    # block, bpp, pages of LazyFS if they are not those of the specification
        self.log_ops = log_ops
        self.completed = completed
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        self.root = os.path.join(work, "root")
        self.fs = None
        self.handles = {}
        self.prefix = ""  # a directory below the root in which everything happens
        self.targets = {}

    # ---- names
    def real(self, p):
        return self.prefix + "/" + "/".join(self.names.get(c, c) for c in p)

    def backing(self, p):
        return self.root + self.real(p)

    def target(self, t):
        """The text of a symbolic link; the specification has <<"@", x>>."""
        s = "no/such " + self.names.get(t[1], t[1])
        self.targets[s] = list(t)
        return s

    def fault_path(self, p):
        return self.target(p) if p and p[0] == "@" else self.backing(p)

    # ---- start and stop
    def start(self, clear=(), top=(), tsq=(), cfg=None):
        if cfg:
            self.cfg = dict(cfg)
        inj = "".join(self.injection(f, k) for k, l in (("clear", clear), ("top", top), ("tsq", tsq)) for f in l)
        c = self.cfg
        conf = dict(block=self.geo.size, page=self.geo.size * c["bpp"], pages=c["pages"], evict=c["ev"], simple=self.simple)
        if self.real_geo:
            g = self.real_geo
            conf.update(block=g["block"], page=g["block"] * g["bpp"], pages=g["pages"])
        self.handles = {}
        self.fs = LazyFS(self.exe, self.work, config=conf, injections=inj, root=self.root, preload=self.preload,
                         env=self.env, timeout=self.timeout, log_ops=self.log_ops, completed=self.completed)

    def toml(self, s):
        return "'" + s + "'" if "'" not in s else '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

    def injection(self, f, k):
        if k == "clear":
            two = f["op"] in ("rename", "link", "symlink")
            return (f'[[injection]]\ntype="clear-cache"\nfrom={self.toml(self.fault_path(f["p"]))}\n'
                    + (f'to={self.toml(self.fault_path(f["q"]))}\n' if two else "")
                    + f'op="{f["op"]}"\ntiming="{f["tm"]}"\noccurrence={f["occ"]}\ncrash={"true" if f["crash"] else "false"}\n')
        per = "[" + ",".join(str(x) for x in f.get("order", sorted(f["persist"]))) + "]"
        if k == "top":
            return (f'[[injection]]\ntype="torn-op"\nfile={self.toml(self.backing(f["p"]))}\noccurrence={f["occ"]}\n'
                    + (f'parts_bytes={self.byte_parts(f)}\n' if f["bytes"] else f'parts={f["parts"]}\n') + f"persist={per}\n")
        return (f'[[injection]]\ntype="torn-seq"\nop="write"\nfile={self.toml(self.backing(f["p"]))}\n'
                f'occurrence={f["occ"]}\npersist={per}\n')

    def byte_parts(self, f):
        w = self.geo.size // self.geo.bs
        return "[" + ",".join(str(x * w) for x in f["bytes"]) + "]"

    def stop(self):
        if self.fs:
            self.fs.kill()
            self.fs = None
        self.handles = {}

    def done(self):
        self.stop()
        shutil.rmtree(self.work, ignore_errors=True)

    def alive(self):
        return self.fs is not None and not self.fs.dead and self.fs.alive()

    # ---- operations
    def run(self, o):
        """Performs one operation, gives its reply {e, v} as the specification has it."""
        try:
            v = getattr(self, "op_" + o["op"])(o)
            r = {"e": "ok", "v": [] if v is None else v}
        except FuseError as e:
            r = {"e": errno.errorcode.get(e.err, str(e.err)), "v": []}
        except Dead:
            if self.fs:
                self.fs.wait_death(5.0)
            r = {"e": "DEAD", "v": []}
        except Hang:
            r = {"e": "HANG", "v": []}
        return r

    def op_open(self, o):
        fl = o["fl"]
        flags = os.O_RDWR
        for k, b in (("creat", os.O_CREAT), ("excl", os.O_EXCL), ("trunc", os.O_TRUNC), ("append", os.O_APPEND)):
            if fl[k]:
                flags |= b
        if fl.get("wronly"):
            flags = flags & ~os.O_RDWR | os.O_WRONLY
        self.handles[o["h"]] = self.fs.open(self.real(o["p"]), flags, mode=o.get("mode", 0o644), excl=fl["creat"] and fl["excl"])

    def op_close(self, o):
        self.fs.close(self.handles.pop(o["h"]))

    def op_write(self, o):
        h, off = self.handles[o["h"]], o["off"]
        if h.flags & os.O_APPEND:
            size = self.fs.getattr(h.node, h).size
            off = self.geo.cell(max(size, self.geo.base))
            if off is None:
                return [-1]
        data = self.geo.encode(off, o["d"])
        if not data:
            return [0]
        at, done = self.geo.pos(off), 0
        while done < len(data):
            n = self.fs.write_raw(h, at + done, data[done:done + CHUNK])
            done += n
            if n < min(CHUNK, len(data) - done + n):
                break
        e = self.geo.cell(at + done)
        return [e - off if e is not None else -1]

    def read_cells(self, h, off, n):
        lo, hi = self.geo.pos(off), self.geo.pos(off + n)
        out = b""
        while lo < hi:
            k = min(CHUNK, hi - lo)
            b = self.fs.read_raw(h, lo, k)
            out += b
            if len(b) < k:
                break
            lo += k
        return self.geo.decode(off, out)

    def op_read(self, o):
        return self.read_cells(self.handles[o["h"]], o["off"], o["n"])

    def op_ftruncate(self, o):
        self.fs.ftruncate(self.handles[o["h"]], self.geo.pos(o["n"]))

    def op_truncate(self, o):
        self.fs.truncate(self.real(o["p"]), self.geo.pos(o["n"]))

    def op_fsync(self, o):
        self.fs.fsync(self.handles[o["h"]], data_only=o.get("data", False))

    # times: 0 to leave it, -1 for the time it is, or a number from self.times
    def op_utimens(self, o):
        a, m = ("now" if x == -1 else self.times[x] if x else None for x in (o["a"], o["m"]))
        self.fs.utimens(self.real(o["p"]), a, m, self.handles[o["h"]] if o["h"] else None)

    def op_chmod(self, o):
        self.fs.chmod(self.real(o["p"]), o["mode"], self.handles[o["h"]] if o["h"] else None)

    def op_chown(self, o):
        self.fs.chown(self.real(o["p"]), *o["own"], self.handles[o["h"]] if o["h"] else None)

    def op_unlink(self, o):
        self.fs.unlink(self.real(o["p"]))

    def op_rename(self, o):
        if o["p"] == o["q"]:
            self.fs.walk(self.real(o["p"]))  # the kernel does nothing more
            return
        p, q = self.real(o["p"]), self.real(o["q"])
        if q.startswith(p + "/"):  # the kernel's own check
            if self.fs.walk(p)[1].isdir:
                self.fs.parent(q)
                raise FuseError(errno.EINVAL)
        if p.startswith(q + "/"):  # and this one
            self.fs.walk(p)
            raise FuseError(errno.ENOTEMPTY if self.fs.walk(p)[1].isdir else errno.EISDIR)
        self.fs.rename(p, q)

    def op_link(self, o):
        self.fs.link(self.real(o["p"]), self.real(o["q"]))

    def op_symlink(self, o):
        self.fs.symlink(self.target(o["t"]), self.real(o["q"]))

    def op_mkdir(self, o):
        self.fs.mkdir(self.real(o["p"]), o.get("mode", 0o755))

    def op_rmdir(self, o):
        self.fs.rmdir(self.real(o["p"]))

    def op_access(self, o):
        self.fs.access(self.real(o["p"]))

    def op_readlink(self, o):
        b = self.fs.readlink(self.real(o["p"]))
        return self.targets.get(b.decode(), ["?", b.decode()])

    def op_stat(self, o):
        return self.attr(self.fs.stat(self.real(o["p"])))

    def attr(self, a):
        k = "d" if a.isdir else "l" if statmod.S_ISLNK(a.mode) else "f"
        size = -1
        if k == "f":
            size = self.geo.cell(max(a.size, self.geo.base))
            size = -2 if size is None else size
        return {"k": k, "size": size, "nl": -1 if k == "d" else a.nlink}

    def op_clear(self, o):
        if not self.fs.cfifo:
            self.fs.command("lazyfs::clear-cache")
            self.fs.fence()
            return
        line = self.fs.clear_cache()
        if line != "finished::clear-cache":
            raise AssertionError(line)

    def op_checkpoint(self, o):
        self.fs.command("lazyfs::cache-checkpoint")
        self.fs.fence()

    def op_nothing(self, o):
        if "text" in o:
            self.fs.command(o["text"])
        self.fs.fence()

    def op_crash(self, o):
        self.fs.command(o["text"] if "text" in o else self.crash_text(o["f"]))
        self.fs.fence()

    def crash_text(self, f):
        def rgx(S):
            return "(" + "|".join("^" + re.sub(r"([.^$|()\[\]{}*+?\\])", r"\\\1", self.fault_path(p)) + "$" for p in sorted(S)) + ")"
        two = f["op"] in ("rename", "link", "symlink")
        s = f'lazyfs::crash::timing={f["tm"]}::op={f["op"]}'
        # every command is wrapped in .* by lazyfs: anchors do not bind there, so use what cannot be a substring
        if f["f"] != [["*"]]:
            s += "::from_rgx=" + rgx(f["f"])
        if two and f["t"] != [["*"]]:
            s += "::to_rgx=" + rgx(f["t"])
        return s

    def op_tornop(self, o):
        f = o["f"]
        per = ",".join(str(x) for x in f.get("order", sorted(f["persist"])))
        self.fs.command(f'lazyfs::torn-op::file={self.backing(f["p"])}::persist={per}::'
                        + (f'parts_bytes={self.byte_parts(f)[1:-1]}' if f["bytes"] else f'parts={f["parts"]}')
                        + f'::occurrence={f["occ"]}')
        self.fs.fence()

    def op_tornseq(self, o):
        f = o["f"]
        per = ",".join(str(x) for x in f.get("order", sorted(f["persist"])))
        self.fs.command(f'lazyfs::torn-seq::op=write::file={self.backing(f["p"])}::persist={per}::occurrence={f["occ"]}')
        self.fs.fence()

    def op_part(self, o):
        """Part of a line: nothing may come of it."""
        self.fs.send_fifo(o["bytes"])

    def op_cmds(self, o):
        """Commands, as one stream of bytes in pieces, or all the same from several threads.  `sent`: bytes of it that are
        in the fifo already.  Replies with the number of acknowledgements; with a handle h, asks for its size right after
        the last one.  What usage and report print goes to self.out."""
        fs = self.fs
        log0 = len(fs.read_log())
        lines = [c["raw"] + b"\n" for c in o["cs"]]
        clears = sum(c["k"] == "clear" for c in o["cs"])
        acks = []
        if o.get("threads"):
            k = o["threads"]
            ts = [threading.Thread(target=lambda part: [fs.send_fifo(x) for x in part], args=(lines[i::k],)) for i in range(k)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            data = b"".join(lines)[o.get("sent", 0):]
            at = 0
            for cut, gap in o["cuts"] + [(len(data), 0)]:
                fs.send_fifo(data[at:cut])
                at = max(at, cut)
                if gap:
                    time.sleep(gap)
        after = []
        if o["h"]:
            if fs.cfifo:
                for _ in range(clears):
                    acks.append(fs.await_completion())
            else:
                fs.fence()
            h = self.handles[o["h"]]
            a = self.attr(fs.getattr(h.node, h))
            after = [a["size"]]
        fs.fence()
        acks += fs.take_completions()
        n = len(acks) if all(x == "finished::clear-cache" for x in acks) else -1
        if not fs.cfifo:
            n = clears
        self.out = self.outputs(fs.read_log()[log0:].decode(errors="replace"))
        return [n] + after

    def outputs(self, text):
        marks = list(re.finditer(r"cache usage \(%pages\) is ([0-9.e+-]+)%|report request submitted", text))
        out = []
        for i, m in enumerate(marks):
            if m.group(1):
                x = float(m.group(1)) * self.cfg["pages"] / 100
                out.append({"u": round(x) if abs(x - round(x)) < 1e-6 * max(1, x) else -2})
            else:
                out.append({"rep": self.parse_report(text[m.start():marks[i + 1].start() if i + 1 < len(marks) else len(text)])})
        return out

    def op_kill(self, o):
        self.stop()
        raise Dead()

    def op_start(self, o):
        self.stop()
        self.start(o["clear"], o["top"], o["tsq"], o["cfg"])

    # ---- observations
    def usage(self):
        """Pages in use."""
        log0 = len(self.fs.read_log())
        self.fs.command("lazyfs::display-cache-usage")
        self.fs.fence()
        m = re.search(rb"cache usage \(%pages\) is ([0-9.e+-]+)%", self.fs.read_log()[log0:])
        if not m:
            return -1
        x = float(m.group(1)) * self.cfg["pages"] / 100
        return round(x) if abs(x - round(x)) < 1e-6 * max(1, x) else -2

    def report(self):
        """The unsynced-data report: {files: [{names, runs: [{a, b, n}]}], total}, or {bad: reason}."""
        log0 = len(self.fs.read_log())
        self.fs.command("lazyfs::unsynced-data-report")
        self.fs.fence()
        return self.parse_report(self.fs.read_log()[log0:].decode(errors="replace"))

    def parse_report(self, text):
        w = self.geo.size // self.geo.bs
        inv = {v: k for k, v in self.names.items()}
        files, order, total, synced = {}, [], None, False
        for line in text.splitlines():
            if "all data blocks are synced" in line:
                synced = True
            m = re.search(r"report: \[inode (\d+)\] is not fully synced", line)
            if m:
                files[m.group(1)] = {"names": [], "runs": []}
            m = re.search(r"\[inode (\d+)\] info: \(block (\d+)\) to \(block (\d+)\) \[byte index (\d+) to index (\d+)\]", line)
            if m:
                i, a, b, x, y = m.group(1), *map(int, m.groups()[1:])
                n = y - x + 1
                base = self.geo.base // self.geo.size
                files[i]["runs"].append({"a": a - base, "b": b - base, "n": n // w if n % w == 0 and x == 0 else -1})
            m = re.search(r"\[inode (\d+)\] => file: '(.*)'", line)
            if m:
                path = m.group(2)
                pre = self.root + self.prefix + "/"
                rel = path[len(pre):].split("/") if path.startswith(pre) else ["?" + path]
                if rel[-1].startswith(".fuse_hidden"):
                    files[m.group(1)]["names"].append(["~h"])
                else:
                    files[m.group(1)]["names"].append([inv.get(c, c) for c in rel])
            m = re.search(r"total number of bytes un-fsynced: (\d+) bytes", line)
            if m:
                total = int(m.group(1))
        if synced == (total is not None):
            return {"files": [{"names": [], "runs": []}], "total": -1}
        total = total or 0
        return {"files": list(files.values()), "total": total // w if total % w == 0 else -1}

    def unname(self, rel):
        back = {v: k for k, v in self.names.items()}
        return [back.get(c, c) for c in rel.split("/") if c]

    def content(self, path):
        with open(path, "rb", opener=quietly) as f:
            if self.geo.base:
                size = os.fstat(f.fileno()).st_size
                if size < self.geo.base:
                    return [-3]
                f.seek(self.geo.base)
            return self.geo.decode(0, f.read())

    def back(self):
        """The backing directory: [{p, k, nl, c}]."""
        out = []
        top = self.root + self.prefix

        def go(d, rel):
            for e in sorted(os.scandir(d), key=lambda e: e.name):
                if e.name.startswith(".fuse_hidden"):
                    continue
                p = rel + [e.name]
                st = e.stat(follow_symlinks=False)
                if e.is_symlink():
                    t = os.readlink(e.path)
                    out.append({"p": p, "k": "l", "nl": st.st_nlink, "c": [], "t": self.targets.get(t, ["?", t])})
                elif e.is_dir():
                    out.append({"p": p, "k": "d", "nl": -1, "c": [], "t": []})
                    go(e.path, p)
                else:
                    out.append({"p": p, "k": "f", "nl": st.st_nlink, "c": self.content(e.path), "t": []})

        go(top, [])
        inv = {v: k for k, v in self.names.items()}
        for x in out:
            x["p"] = [inv.get(c, c) for c in x["p"]]
        return out

    def mount(self):
        """The mounted view: [{p, k, nl, c}], contents read through a new handle."""
        out = []
        inv = {v: k for k, v in self.names.items()}

        def go(d, rel):
            for name in self.fs.readdir(d or "/"):
                if name.startswith(".fuse_hidden"):
                    continue
                full = d + "/" + name
                p = rel + [inv.get(name, name)]
                a = self.attr(self.fs.stat(full))
                x = {"p": p, "k": a["k"], "nl": a["nl"], "c": [], "t": []}
                if a["k"] == "l":
                    t = self.fs.readlink(full).decode()
                    x["t"] = self.targets.get(t, ["?", t])
                out.append(x)
                if a["k"] == "d":
                    go(full, p)
                elif a["k"] == "f":
                    h = self.fs.open(full, os.O_RDONLY)
                    x["c"] = self.whole(h, a["size"])
                    self.fs.close(h)

        go(self.prefix, [])
        return out

    def whole(self, h, size):
        """The content, read to two cells past the end."""
        c = self.read_cells(h, 0, max(size, 0) + 2)
        return c if len(c) == size else c + [-4, size]

    def fdview(self):
        return [{"h": k, "c": self.whole(h, self.attr(self.fs.getattr(h.node, h))["size"])}
                for k, h in sorted(self.handles.items()) if not h.flags & os.O_WRONLY]
