"""The system calls of the HDF5 library behind the disk seam.

The library of h5py is real; the entries of its procedure linkage table for
open, pwrite, write, ftruncate and close are replaced by calls back into the
disk simulator, which decides whether the real system call is made.
"""
import ctypes
import errno
import os
import struct

from .kernel import HarnessError, current

_libc = ctypes.CDLL(None, use_errno=True)
_real = {}
for _n, _a, _r in (("open64", (ctypes.c_char_p, ctypes.c_int, ctypes.c_uint), ctypes.c_int),
                   ("pwrite64", (ctypes.c_int, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int64), ctypes.c_ssize_t),
                   ("write", (ctypes.c_int, ctypes.c_void_p, ctypes.c_size_t), ctypes.c_ssize_t),
                   ("ftruncate64", (ctypes.c_int, ctypes.c_int64), ctypes.c_int),
                   ("close", (ctypes.c_int,), ctypes.c_int)):
    f = getattr(_libc, _n)
    f.argtypes, f.restype = _a, _r
    _real[_n] = (f, _a, _r)
_keep = []
_fds = {}


def _disk():
    sim, rank = current()
    if sim is None or sim.over or getattr(sim, "disk", None) is None:
        return None
    return sim.disk


def _guard(f):
    """Nothing may propagate through the C library."""
    def g(*a):
        try:
            return f(*a)
        except OSError as e:
            ctypes.set_errno(e.errno or errno.EIO)
            return -1
        except BaseException as e:
            d = _disk()
            if d is not None:
                d.harness = e
            ctypes.set_errno(errno.EIO)
            return -1
    return g


def _call(name, *a):
    return _real[name][0](*a)


def _open(path, flags, mode):
    d = _disk()
    rel = d.mine(path) if d is not None else None
    if rel is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        d.op("open-w", rel)
    else:
        rel = None
    fd = _call("open64", path, flags, mode)
    if fd >= 0:
        _fds.pop(fd, None)
        if rel is not None:
            _fds[fd] = rel
            d.stamp(rel)
    return fd


def _faulty(fd, kind, size, write):
    """write(n) performs the real call for n bytes."""
    d = _disk()
    rel = _fds.get(fd)
    if d is None or rel is None:
        return write(size)
    p = d.op(kind, rel, size)
    if rel in d.broken:
        raise OSError(errno.EIO, "broken")
    if p is None:
        return write(size)
    if p[0] == "kill":
        k = int(p[2] * (size + 1))
        if k:
            write(k)
        d.stamp(rel)
        d.die()
    if p[0] == "torn":
        d.broken.add(rel)
    return write(max(1, size // 2))


def _pwrite(fd, buf, size, off):
    return _faulty(fd, "write", size, lambda n: _call("pwrite64", fd, buf, n, off))


def _write(fd, buf, size):
    return _faulty(fd, "write", size, lambda n: _call("write", fd, buf, n))


def _ftruncate(fd, size):
    d = _disk()
    rel = _fds.get(fd)
    if d is not None and rel is not None:
        d.op("truncate", rel)
    return _call("ftruncate64", fd, size)


def _close(fd):
    d = _disk()
    rel = _fds.pop(fd, None)
    if d is None or rel is None:
        return _call("close", fd)
    try:
        d.op("close", rel)
    finally:
        _call("close", fd)      # the descriptor is gone even when close reports an error
        d.stamp(rel)
    return 0


_NEW = {"open64": _open, "pwrite64": _pwrite, "write": _write, "ftruncate64": _ftruncate, "close": _close}


def _slots(path, names):
    """{symbol: offset of its jump slot} of a 64 bit little endian shared object."""
    with open(path, "rb") as f:
        data = f.read()
    if data[:6] != b"\x7fELF\x02\x01":
        raise HarnessError("not a 64 bit ELF: " + path)
    shoff, = struct.unpack_from("<Q", data, 0x28)
    shentsize, shnum = struct.unpack_from("<HH", data, 0x3A)
    sec = []
    for i in range(shnum):
        sec.append(struct.unpack_from("<IIQQQQIIQQ", data, shoff + i * shentsize))
    out = {}
    for s in sec:
        if s[1] != 4:   # SHT_RELA
            continue
        sym = sec[s[6]]
        strs = sec[sym[6]] if sym[1] in (2, 11) else None
        if strs is None:
            continue
        for o in range(s[4], s[4] + s[5], 24):
            off, info, add = struct.unpack_from("<QQq", data, o)
            if info & 0xffffffff not in (6, 7):   # GLOB_DAT, JUMP_SLOT
                continue
            st, = struct.unpack_from("<I", data, sym[4] + (info >> 32) * 24)
            e = data.index(b"\0", strs[4] + st)
            name = data[strs[4] + st:e].decode()
            if name in names:
                out[name] = off
    return out


def install():
    if _keep:
        return
    import h5py  # noqa: loads the library
    lib = None
    with open("/proc/self/maps") as f:
        for line in f:
            w = line.split()
            if len(w) > 5 and "libhdf5" in w[5] and "_hl" not in w[5] and w[2] == "00000000":
                lib = (int(w[0].split("-")[0], 16), w[5])
                break
    if lib is None:
        raise HarnessError("the HDF5 library of h5py is not found")
    base, path = lib
    slots = _slots(path, set(_NEW))
    if "pwrite64" not in slots or "open64" not in slots:
        raise HarnessError("the HDF5 library does not call pwrite64 or open64")
    for name, off in slots.items():
        _, args, res = _real[name]
        cb = ctypes.CFUNCTYPE(res, *args, use_errno=True)(_guard(_NEW[name]))
        _keep.append(cb)
        addr = ctypes.cast(cb, ctypes.c_void_p).value
        page = (base + off) & ~4095
        if _libc.mprotect(ctypes.c_void_p(page), ctypes.c_size_t(8192), 3) != 0:
            raise HarnessError("mprotect fails")
        ctypes.c_uint64.from_address(base + off).value = addr
