"""Disk of the simulated processes: real files of the scratch directory behind a seam.

Every operation of a simulated process on the scratch directory (open, write,
mkdir, rename, unlink, fsync, spawning a compiler, reading a module) is a yield
point and a numbered fault point.  A fault plan decides what happens there:
    ["error", n, errno]         the n-th operation fails
    ["short", n]                the n-th operation, a write, takes only a part of the bytes (legal)
    ["torn", n, errno]          ... takes a part of the bytes, the next ones fail
    ["full", n]                 from the n-th operation on, everything that needs space fails with ENOSPC
    ["kill", n, frac]           the process dies at the n-th operation, a write is done in part
    ["exit", n, code]           the n-th operation, a command, ends with this code
    ["signal", n, sig, frac]    the n-th operation, a command, runs in part and is killed
    ["noexec", n]               the n-th operation, a command, cannot be started
    ["cc", n]                   the compiler started by the n-th operation, a command, fails
    ["interrupt", n]            KeyboardInterrupt at the n-th operation
Time stamps of the files come from a simulated clock.
"""
import _io
import builtins
import errno
import io
import os
import random
import signal
import subprocess
import sys
import tempfile
import importlib.machinery

from .kernel import current

_real = {"open": builtins.open, "Popen": subprocess.Popen, "open_code": _io.open_code}
OS = ("open", "write", "sendfile", "copy_file_range", "mkdir", "rename", "replace", "unlink", "remove", "rmdir", "link", "symlink", "truncate", "fsync", "access")
for _k in OS:
    _real["os." + _k] = getattr(os, _k)
_names = tempfile._get_candidate_names
_cache_bytecode = importlib.machinery.SourceFileLoader._cache_bytecode
_create_module = importlib.machinery.ExtensionFileLoader.create_module
_FileIO = _io.FileIO

CLEANING = {"unlink", "remove", "rmdir"}
COMMAND = {"exit", "signal", "noexec", "cc"}     # faults of the next command
SPACE = {"write", "mkdir", "open-w", "rename", "replace", "link", "symlink"}


class Disk:
    def __init__(self, root, plan=(), seed=0, clock=None):
        self.root = os.path.realpath(root)
        self.plan = list(plan)
        self.n = 0
        self.log = []          # (rank, kind, relative path)
        self.injected = []
        self.rng = random.Random("disk%s" % seed)
        self.full = False
        self.broken = set()    # paths whose writes now fail
        self.clock = dict({"now": 1.0e9, "grain": 1.0, "tick": .01}, **(clock or {}))
        self.on_kill = None
        self.quiet = 0
        self.fds = {}
        self.count = {}        # operations of each process
        self.armed = {}        # process -> faults planned relative to its own operations

    # ------------------------------------------------------------------ helpers
    def mine(self, path, dir_fd=None):
        """The relative name of a path of the scratch directory, or None."""
        sim, rank = current()
        if sim is None or sim.disk is not self or self.quiet or sim.over:
            return None
        if dir_fd is not None:
            try:
                base = os.readlink("/proc/self/fd/%d" % dir_fd)
            except OSError:
                return None
            path = os.path.join(base, os.fsdecode(path))
        elif isinstance(path, int):
            p = self.fds.get(path)
            return p
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return None
        if p == self.root or p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        q = os.path.realpath(p)
        if q.startswith(self.root + os.sep):
            return q[len(self.root) + 1:]
        return None

    def stamp(self, rel):
        """Give the file the time of the simulated clock."""
        c = self.clock
        c["now"] += c["tick"]
        t = c["now"] - c["now"] % c["grain"] if c["grain"] else c["now"]
        try:
            os.utime(os.path.join(self.root, rel), (t, t))
        except OSError:
            pass

    def sweep(self, since):
        """Stamp the files touched by another program."""
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                try:
                    if os.lstat(p).st_mtime > 1.6e9:
                        self.stamp(os.path.relpath(p, self.root))
                except OSError:
                    pass

    def op(self, kind, rel, size=0):
        """One operation: a yield point; returns the fault of this operation, raises, or never returns."""
        sim, rank = current()
        if kind == "load":
            sim.note("disk %s %s" % (kind, rel))    # a lock of the import system is held: no other process may run now
        else:
            sim.step("disk %s %s" % (kind, rel))
        self.n += 1
        n = self.n
        self.log.append((rank.index, kind, rel))
        mine = self.count[rank.index] = self.count.get(rank.index, 0) + 1
        arm = [p for p in self.armed.get(rank.index, ()) if p[1] <= mine and (p[0] not in COMMAND or kind == "command")]
        if arm and kind in CLEANING and arm[0][0] != "kill":
            arm = []           # what fails while cleaning up is not studied: the next operation
        if arm:
            self.armed[rank.index].remove(arm[0])
            arm = [[arm[0][0], n] + list(arm[0][2:])]
        if self.full and kind in SPACE:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
        for p in self.plan + arm:
            if p[1] != n:
                continue
            what = p[0]
            if what == "kill":
                self.injected.append("process killed")
                if kind in ("write", "command"):
                    return p
                self.die()
            if what == "interrupt":
                self.injected.append("interrupt")
                raise KeyboardInterrupt("injected")
            if what == "full":
                self.injected.append("disk full")
                self.full = True
                if kind in SPACE:
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
                return None
            if what == "short":
                if kind == "write":
                    self.injected.append("short write")
                    return p
                return None
            if what == "torn":
                if kind == "write":
                    self.injected.append("torn write")
                    return p
                what = "error"
            if what in COMMAND:
                if kind == "command":
                    self.injected.append("command: " + what)
                    return p
                what = "error"
                p = ["error", n, errno.EIO]
            if what == "error":
                e = p[2]
                self.injected.append("error " + errno.errorcode[e])
                raise OSError(e, os.strerror(e), rel)
        return None

    def arm(self, rank, faults):
        """Plan faults at operations of one process counted from now on (0: the next one); space is free again."""
        self.full = False
        self.broken.clear()
        c = self.count.get(rank, 0)
        self.armed[rank] = [[f[0], c + 1 + f[1]] + list(f[2:]) for f in faults]

    def die(self):
        sim, rank = current()
        if self.on_kill is not None:
            self.on_kill()
        sim.kill_all("killed at disk operation %d" % self.n)

    # ------------------------------------------------------------------- the seams
    def install(self):
        builtins.open = io.open = self._open
        _io.open_code = io.open_code = self._open_code
        for k in OS:
            setattr(os, k, getattr(self, "_os_" + k))
        tempfile._get_candidate_names = self._candidates
        disk = self

        class Popen(_real["Popen"]):
            def __init__(self, args, *a, **k):
                disk._popen(self, super().__init__, args, a, k)
        subprocess.Popen = Popen

        def cache(self, source_path, bytecode_path, data):
            # bytecode goes to the scratch directory only
            if disk.mine(bytecode_path) is not None:
                _cache_bytecode(self, source_path, bytecode_path, data)
                disk.stamp(disk.mine(bytecode_path))
        importlib.machinery.SourceFileLoader._cache_bytecode = cache
        self._dwb = sys.dont_write_bytecode

        def create(self, spec):
            rel = disk.mine(self.path)
            if rel is not None:
                disk.op("load", rel)
            return _create_module(self, spec)
        importlib.machinery.ExtensionFileLoader.create_module = create

    def uninstall(self):
        builtins.open = io.open = _real["open"]
        _io.open_code = io.open_code = _real["open_code"]
        for k in OS:
            setattr(os, k, _real["os." + k])
        tempfile._get_candidate_names = _names
        subprocess.Popen = _real["Popen"]
        importlib.machinery.SourceFileLoader._cache_bytecode = _cache_bytecode
        importlib.machinery.ExtensionFileLoader.create_module = _create_module
        sys.dont_write_bytecode = self._dwb

    def _candidates(self):
        sim, rank = current()
        if sim is None or sim.disk is not self:
            return _names()
        disk = self

        class Names:
            def __iter__(self):
                return self

            def __next__(self):
                return "".join(disk.rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))
        return Names()

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = self.mine(file) if isinstance(file, (str, bytes, os.PathLike, int)) else None
        if rel is None:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        self.op("open-w" if writing else "open", rel)
        if not writing:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = FaultRaw(self, rel, file, mode.replace("b", "").replace("t", ""), closefd, opener)
        line = False
        if buffering == 0:
            return raw
        if buffering == 1:
            line, buffering = True, -1
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line)
        text.mode = mode
        return text

    def _open_code(self, path):
        rel = self.mine(path)
        if rel is not None:
            self.op("load", rel)
        return _real["open_code"](path)

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        rel = self.mine(path, dir_fd)
        if rel is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            self.op("open-w", rel)
        fd = _real["os.open"](path, flags, mode, dir_fd=dir_fd)
        if rel is not None:
            self.fds[fd] = rel
        else:
            self.fds.pop(fd, None)
        return fd

    def _os_mkdir(self, path, mode=0o777, *, dir_fd=None):
        rel = self.mine(path, dir_fd)
        if rel is not None:
            self.op("mkdir", rel)
        return _real["os.mkdir"](path, mode, dir_fd=dir_fd)

    def _two(name):
        def f(self, src, dst, **k):
            rel = self.mine(dst, k.get("dst_dir_fd"))
            if rel is not None:
                self.op(name, rel)
            return _real["os." + name](src, dst, **k)
        return f

    _os_rename, _os_replace, _os_link = _two("rename"), _two("replace"), _two("link")

    def _os_symlink(self, src, dst, *a, **k):
        rel = self.mine(dst)
        if rel is not None:
            self.op("symlink", rel)
        return _real["os.symlink"](src, dst, *a, **k)

    def _one(name):
        def f(self, path, *a, **k):
            rel = self.mine(path, k.get("dir_fd"))
            if rel is not None:
                self.op(name, rel)
            return _real["os." + name](path, *a, **k)
        return f

    _os_unlink, _os_remove, _os_rmdir, _os_truncate = _one("unlink"), _one("remove"), _one("rmdir"), _one("truncate")

    def _os_fsync(self, fd):
        rel = self.fds.get(fd) if isinstance(fd, int) else None
        if rel is not None and self.mine(os.path.join(self.root, rel)) is not None:
            self.op("fsync", rel)
        return _real["os.fsync"](fd)

    def _count_of(self, rel, size, do):
        """Perform a write of `size` bytes by do(n) or a part of it."""
        p = self.op("write", rel, size)
        if rel in self.broken:
            raise OSError(errno.EIO, os.strerror(errno.EIO), rel)
        if p is None:
            return do(size)
        if p[0] == "kill":
            k = int(p[2] * (size + 1))
            if k:
                do(k)
            self.stamp(rel)
            self.die()
        if p[0] == "torn":
            self.broken.add(rel)
        return do(max(1, size // 2))

    def _os_write(self, fd, data):
        rel = self.fds.get(fd)
        if rel is None or self.mine(os.path.join(self.root, rel)) is None:
            return _real["os.write"](fd, data)
        data = bytes(data)
        return self._count_of(rel, len(data), lambda n: _real["os.write"](fd, data[:n]))

    def _os_sendfile(self, out_fd, in_fd, offset, count, *a, **k):
        rel = self.fds.get(out_fd)
        if rel is None or self.mine(os.path.join(self.root, rel)) is None:
            return _real["os.sendfile"](out_fd, in_fd, offset, count, *a, **k)
        left = os.fstat(in_fd).st_size - (offset or 0)
        if left <= 0:
            return 0
        return self._count_of(rel, min(count, left), lambda n: _real["os.sendfile"](out_fd, in_fd, offset, n, *a, **k))

    def _os_copy_file_range(self, src, dst, count, *a, **k):
        rel = self.fds.get(dst)
        if rel is None or self.mine(os.path.join(self.root, rel)) is None:
            return _real["os.copy_file_range"](src, dst, count, *a, **k)
        return self._count_of(rel, count, lambda n: _real["os.copy_file_range"](src, dst, n, *a, **k))

    def _os_access(self, path, *a, **k):
        rel = self.mine(path) if not isinstance(path, int) else None
        if rel is not None:
            sim, rank = current()
            sim.step("disk access %s" % rel)     # a yield point, not a fault point
        return _real["os.access"](path, *a, **k)

    def _popen(self, obj, init, args, a, k):
        sim, rank = current()
        if sim is None or sim.disk is not self or self.quiet:
            return init(args, *a, **k)
        name = os.path.basename(args[0] if isinstance(args, (list, tuple)) else str(args))
        p = self.op("command", name)
        if p is not None:
            if p[0] == "noexec":
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
            if p[0] == "exit":
                args = [sys.executable, "-S", "-c", "import sys; print('injected failure'); sys.exit(%d)" % (p[2] or 1)]
            elif p[0] == "cc":
                # the compiler that the command starts fails
                k = dict(k, env=dict(k.get("env") or os.environ, CC="false", LDSHARED="false"))
            elif p[0] == "signal":
                args = [sys.executable, "-S", "-c", "import os; os.kill(os.getpid(), %d)" % p[2]]
            elif p[0] == "kill":
                # the job dies while the command runs: the command is done in part or entirely
                if p[2] > .5:
                    k = dict(k, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
                    q = _real["Popen"](args, *a, **k)
                    q.wait()
                    if p[2] < .75:
                        self.shorten()
                self.die()
        self.quiet += 1
        try:
            init(args, *a, **k)
            if k.get("stdout") == subprocess.PIPE or k.get("stderr") == subprocess.PIPE:
                pass
        finally:
            self.quiet -= 1
        real_wait = obj.wait
        disk = self

        def wait(timeout=None):
            rc = real_wait(timeout)
            disk.sweep(None)
            return rc
        obj.wait = wait

    def shorten(self):
        """Cut the file that the interrupted command was writing: the one changed last."""
        best = None
        for d, _, files in os.walk(self.root):
            for f in files:
                q = os.path.join(d, f)
                t = os.lstat(q).st_mtime_ns
                if t > 1.6e18 and (best is None or t > best[0]):
                    best = (t, q)
        if best:
            size = os.path.getsize(best[1])
            _real["os.truncate"](best[1], size * 2 // 3)


class FaultRaw(io.RawIOBase):
    """A raw file of the scratch directory whose writes are operations of the disk."""

    def __init__(self, disk, rel, file, mode, closefd, opener):
        self._disk, self._rel = disk, rel
        self._f = _FileIO(file, mode, closefd, opener)
        self.name = file
        self.mode = mode
        disk.stamp(rel)
        disk.fds[self._f.fileno()] = rel

    def write(self, b):
        d = self._disk
        if d.mine(os.path.join(d.root, self._rel)) is None:
            return self._f.write(b)
        b = bytes(b)
        p = d.op("write", self._rel, len(b))
        if self._rel in d.broken:
            raise OSError(errno.EIO, os.strerror(errno.EIO), self._rel)
        if p is None:
            return self._f.write(b)
        if p[0] == "kill":
            k = int(p[2] * (len(b) + 1))
            if k:
                self._f.write(b[:k])
            d.stamp(self._rel)
            d.die()
        k = max(1, len(b) // 2)
        if p[0] == "torn":
            d.broken.add(self._rel)
        return self._f.write(b[:k])

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._disk.fds.pop(self._f.fileno(), None) if not self._f.closed else None
                self._f.close()
                self._disk.stamp(self._rel)

    def readinto(self, b):
        return self._f.readinto(b)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        d = self._disk
        if d.mine(os.path.join(d.root, self._rel)) is not None:
            d.op("truncate", self._rel)
        return self._f.truncate(size)

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()
