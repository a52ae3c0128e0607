"""Simulated disk: every file system call the code under test makes below a scratch directory.

The scratch directory is real, but all calls that change it pass through here (open for writing, write,
fsync, rename, unlink, mkdir, ...), where a plan decides which of them fails, is cut short, or is the
last one before the process dies. The page cache is modelled for power failures: what has not been
fsynced may be lost, cut off or zeroed, while renames and other directory changes survive in order
(the most hostile order a journaling file system may produce).
"""
import _io
import builtins
import errno
import io
import os
import shutil
import tempfile


class SimCrash(BaseException):
    """The simulated process died."""


class FaultRaw(io.FileIO):
    """The raw file below Python's own buffering."""

    def __init__(self, fs, file, mode, path, closefd=True):
        self.fs = fs
        self.path = path
        super().__init__(file, mode, closefd)

    def write(self, data):
        data = bytes(data)
        return self.fs.write(self, data)

    def truncate(self, size=None):
        return self.fs.op("truncate", self.path, lambda: super(FaultRaw, self).truncate(size))

    def real_write(self, data):
        return super().write(data)

    def close(self):
        if not self.closed and self.fs.fds.get(self.fileno()) == self.path:
            del self.fs.fds[self.fileno()]
        super().close()

    def __del__(self):
        try:
            super().close()
        except Exception:  # pylint: disable=broad-except
            pass


class ReadFault(io.FileIO):
    """A file of which only the first bytes can be read."""

    def __init__(self, path, fs, left):
        self.fs = fs
        self.left = left
        super().__init__(path, "r")

    def readinto(self, buf):
        if self.left <= 0:
            raise self.fs.read_error("read")
        n = super().readinto(memoryview(buf)[:self.left])
        self.left -= n
        return n

    def read(self, size=-1):
        if size is None or size < 0 or size > self.left:
            raise self.fs.read_error("read")
        self.left -= size
        return super().read(size)

    def readall(self):
        raise self.fs.read_error("read")


class Disk:
    def __init__(self, sim):
        self.sim = sim
        self.root = tempfile.mkdtemp(prefix="disk-", dir=os.environ.get("DST_SCRATCH"))
        self.dead = False
        self.n = 0  # calls since the fault plan was armed
        self.plan = []  # [{"at": n, "do": ..., ...}]
        self.partial = set()
        self.synced = {}  # path -> content known to survive a power failure, for files with unsynced changes
        self.on_crash = None
        self.ops = 0
        self.fds = {}
        self.saved = {}
        self.read_plan = []  # [{"at": n, "do": "open" or "read", "part": quarters that can be read, "len": n}]
        self.reads = 0
        self.read_faults = 0

    # --- patching ---
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p if p.startswith(self.root + os.sep) or p == self.root else None

    def __enter__(self):
        fs = self
        real_open = io.open
        ros = {n: getattr(os, n) for n in ("open", "close", "write", "pwrite", "replace", "rename", "unlink", "remove", "mkdir", "rmdir", "link", "symlink", "fsync", "fdatasync", "truncate", "ftruncate", "fdopen")}
        self.saved = dict(ros)
        self.real_open = real_open

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            path = fs.fds.get(file) if isinstance(file, int) else fs.inside(file)
            if path is not None and isinstance(file, (str, os.PathLike)) and not any(c in mode for c in "wax+"):
                raw = fs.reading(path)
                if raw is not None:
                    if buffering == 0:
                        return raw
                    buf = io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
                    return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)
            if path is None or not any(c in mode for c in "wax+"):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if opener is not None:
                flags = os.O_RDWR if "+" in mode else os.O_WRONLY
                flags |= os.O_CREAT | {"w": os.O_TRUNC, "a": os.O_APPEND, "x": os.O_EXCL}.get(mode[0], 0)
                file, closefd = opener(file, flags), True
                path = fs.fds.get(file, path)
            rawmode = "".join(c for c in mode if c in "rwax+")
            if isinstance(file, int):
                raw = FaultRaw(fs, file, rawmode, path, closefd)
            else:
                kind = "create" if not os.path.exists(path) else ("rewrite" if "w" in rawmode else "append")
                if kind == "rewrite":
                    fs.touch(path)
                raw = fs.op(kind, path, lambda: FaultRaw(fs, path, rawmode, path))
                if kind == "create":
                    fs.synced.setdefault(path, b"")
            if buffering == 0:
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            buf = io.BufferedRandom(raw, size) if "+" in rawmode else io.BufferedWriter(raw, size)
            if "b" in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
            text.mode = mode
            return text

        def path_op(name, kind, two=False):
            real = ros[name]

            def call(path, *args, **kw):
                p = fs.inside(path) if not isinstance(path, int) else fs.fds.get(path)
                if p is None or kw.get("dir_fd") is not None or kw.get("src_dir_fd") is not None:
                    return real(path, *args, **kw)
                dst = fs.inside(args[0] if args else kw.get("dst")) if two else None

                def perform():
                    if kind == "truncate":
                        fs.touch(p)
                    res = real(path, *args, **kw)
                    if kind == "rename":
                        fs.moved(p, dst)
                    elif kind == "unlink":
                        fs.synced.pop(p, None)
                    elif kind == "link" and p in fs.synced:
                        fs.synced[dst] = fs.synced[p]
                    return res

                if kind == "mkdir" and os.path.isdir(p):
                    return real(path, *args, **kw)
                return fs.op(kind, dst or p, perform)

            return call

        def fd_sync(name):
            real = ros[name]

            def call(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                path = fs.path_of(n)
                if path is None:
                    return real(fd)

                def perform():
                    fs.synced.pop(path, None)

                return fs.op("fsync", path, perform)

            return call

        def os_open(path, flags, mode=0o777, **kw):
            p = fs.inside(path) if not isinstance(path, int) else None
            if p is None or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                fd = ros["open"](path, flags, mode, **kw)
            else:
                new = not os.path.exists(p)
                if not new and flags & os.O_TRUNC:
                    fs.touch(p)
                fd = fs.op("create" if new else "rewrite", p, lambda: ros["open"](path, flags, mode, **kw))
                if new:
                    fs.synced.setdefault(p, b"")
            if p is not None:
                fs.fds[fd] = p
            return fd

        def os_close(fd):
            fs.fds.pop(fd, None)
            return ros["close"](fd)

        def os_write(fd, data):
            path = fs.fds.get(fd)
            if path is None:
                return ros["write"](fd, data)

            class Raw:
                real_write = staticmethod(lambda d: ros["write"](fd, d))

            Raw.path = path
            return fs.write(Raw, bytes(data))

        io.open = builtins.open = _io.open = sim_open
        os.open, os.close, os.write = os_open, os_close, os_write
        os.replace, os.rename = path_op("replace", "rename", True), path_op("rename", "rename", True)
        os.unlink, os.remove = path_op("unlink", "unlink"), path_op("remove", "unlink")
        os.mkdir, os.rmdir = path_op("mkdir", "mkdir"), path_op("rmdir", "rmdir")
        os.link, os.symlink = path_op("link", "link", True), path_op("symlink", "link", True)
        os.truncate, os.ftruncate = path_op("truncate", "truncate"), path_op("ftruncate", "truncate")
        os.fsync, os.fdatasync = fd_sync("fsync"), fd_sync("fdatasync")
        return self

    def __exit__(self, *_exc):
        io.open = builtins.open = _io.open = self.real_open
        for n, f in self.saved.items():
            setattr(os, n, f)
        shutil.rmtree(self.root, ignore_errors=True)

    # --- page cache ---
    def path_of(self, fd):
        if fd in self.fds:
            return self.fds[fd]
        try:
            p = os.readlink("/proc/self/fd/%d" % fd)
        except OSError:
            return None
        return p if p.startswith(self.root + os.sep) else None

    def content(self, path):
        try:
            with self.real_open(path, "rb") as fd:
                return fd.read()
        except OSError:
            return b""

    def touch(self, path):
        """The content of a file is about to change."""
        if path not in self.synced:
            self.synced[path] = self.content(path)

    def moved(self, src, dst):
        self.synced.pop(dst, None)
        if src in self.synced:
            self.synced[dst] = self.synced.pop(src)

    def power_failure(self, frac):
        """Lose what was not synced. frac in 0..4 selects what is left of it."""
        for path in sorted(self.synced):
            if not os.path.isfile(path):
                continue
            old, now = self.synced[path], self.content(path)
            if old == now:
                continue
            left = {0: old, 1: b"", 2: now[:len(now) // 2], 3: b"\x00" * len(now), 4: now}[frac]
            if left != now:
                self.sim.fault_count["disk-lost-write"] += 1
            with self.real_open(path, "wb") as fd:
                fd.write(left)
        self.synced.clear()

    # --- faults ---
    def arm(self, plan):
        self.n = 0
        self.plan = plan
        self.partial = set()

    def arm_read(self, plan):
        self.reads = 0
        self.read_faults = 0
        self.read_plan = plan

    def reading(self, path):
        """A reader that fails if that is due, otherwise nothing."""
        n, self.reads = self.reads, self.reads + 1
        for f in self.read_plan:
            if f["at"] <= n < f["at"] + f.get("len", 1) and os.path.isfile(path):
                if f["do"] != "read":
                    raise self.read_error(f["do"])
                self.read_faults += 1
                return ReadFault(path, self, os.path.getsize(path) * f.get("part", 0) // 4)
        return None

    def read_error(self, do):
        self.read_faults += 1
        self.sim.fault_count["disk-fail-" + do] += 1
        self.sim.log("disk-read-error", do)
        code = {"read": errno.EIO, "eio": errno.EIO, "emfile": errno.EMFILE, "eacces": errno.EACCES}[do]
        return OSError(code, os.strerror(code))

    def due(self, kind):
        """The fault planned for the next call of this kind, if any."""
        for f in self.plan:
            if f["at"] <= self.n < f["at"] + f.get("len", 1):
                if f["do"] == "enospc" and kind not in ("create", "mkdir", "write", "link"):
                    continue
                if f["do"] == "short" and kind != "write":
                    continue
                return f
        return None

    def crash(self, f):
        self.sim.fault_count["crash-" + f["do"]] += 1
        self.sim.log("crash", f["do"])
        self.dead = True
        if f["do"] == "power":
            self.power_failure(f.get("left", 0))
        self.synced.clear()
        if self.on_crash:
            self.on_crash()
        raise SimCrash()

    def error(self, f, kind):
        self.sim.fault_count["disk-" + f["do"]] += 1
        self.sim.log("disk-error", f["do"], kind)
        code = {"eio": errno.EIO, "enospc": errno.ENOSPC, "erofs": errno.EROFS, "eacces": errno.EACCES, "edquot": errno.EDQUOT}[f["do"]]
        raise OSError(code, os.strerror(code))

    def op(self, kind, path, perform):
        if self.dead:
            raise SimCrash()
        f = self.due(kind)
        self.n += 1
        self.ops += 1
        self.sim.log("disk", kind, os.path.relpath(path, self.root) if path.endswith(".yml") else "")
        if f is None:
            return perform()
        if f["do"] in ("kill", "power"):
            if f.get("after"):
                perform()
            self.crash(f)
        if f["do"] == "eio" and f.get("after"):
            perform()
        self.error(f, kind)

    def write(self, raw, data):
        if self.dead:
            return len(data)  # nothing reaches the disk any more
        f = self.due("write")
        self.n += 1
        self.ops += 1
        self.sim.log("disk", "write", len(data))
        self.touch(raw.path)
        if f is None:
            return raw.real_write(data)
        cut = len(data) * f.get("part", 0) // 4
        if f["do"] in ("kill", "power"):
            if cut:
                raw.real_write(data[:cut])
            self.crash(f)
        if f["do"] == "short":
            self.sim.fault_count["disk-short"] += 1
            cut = max(1, cut) if data else 0
            return raw.real_write(data[:cut])
        if cut and f["at"] not in self.partial:
            self.partial.add(f["at"])  # what still fits is written, the next call fails
            return raw.real_write(data[:cut])
        self.error(f, "write")

    def die(self):
        """The process is killed while nothing is being written."""
        self.dead = True
        self.synced.clear()

    def restart(self):
        self.dead = False
        self.plan = []
        self.read_plan = []
        self.fds.clear()
