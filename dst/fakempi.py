"""A simulated MPI library with the mpi4py interface.

Legal MPI behaviours that real clusters show and a laptop hides are all
reachable: sends that buffer at once, later, or only when the receive is posted;
buffers read and written at any moment between the call and its completion;
processes leaving collectives early; arbitrary relative speeds.
Illegal use (mismatched collectives, truncated messages, leaked requests or
messages) is detected.
"""
import pickle
import sys
import types

import numpy as np

from .kernel import HarnessError, current

ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -3
ROOT = -4
UNDEFINED = -32766
ORDER_C, ORDER_FORTRAN = 56, 57
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = 0, 1, 2, 3
TAG_UB = 2 ** 31 - 1
IDENT, CONGRUENT, SIMILAR, UNEQUAL = 0, 1, 2, 3
COMM_TYPE_SHARED = 0
SUCCESS, ERR_TRUNCATE, ERR_RANK, ERR_TAG, ERR_DIMS, ERR_COMM, ERR_TYPE, ERR_ARG = 0, 15, 6, 4, 11, 5, 3, 12


class Exception(RuntimeError):  # noqa: A001  (mpi4py name)
    def __init__(self, ierr=0, msg=""):
        super().__init__("MPI_ERR %s %s" % (ierr, msg))
        self.error_code = ierr
        self.msg = msg

    def Get_error_code(self):
        return self.error_code

    Get_error_class = Get_error_code

    def Get_error_string(self):
        return str(self)

    error_class = property(Get_error_class)
    error_string = property(Get_error_string)


MPIError = Exception


# ------------------------------------------------------------------ datatypes
class Datatype:
    def __init__(self, base=None, offsets=None, extent=None, name="", basic=False):
        self.np = base              # numpy dtype of basic types
        self.offsets = offsets      # byte offsets of one element, int64 array
        self.extent_ = extent
        self.name = name
        self.basic = basic
        self.committed = basic
        self.freed = False

    @classmethod
    def _basic(cls, np_type, name):
        dt = np.dtype(np_type)
        return cls(dt, np.arange(dt.itemsize, dtype=np.int64), dt.itemsize, name, True)

    def _derived(self, starts, extent, name):
        starts = np.asarray(starts, dtype=np.int64).ravel()
        off = (starts[:, None] + self.offsets[None, :]).ravel()
        return Datatype(None, off, int(extent), name)

    def Create_subarray(self, sizes, subsizes, starts, order=ORDER_C):
        sizes, subsizes, starts = [list(map(int, a)) for a in (sizes, subsizes, starts)]
        if not (len(sizes) == len(subsizes) == len(starts)):
            raise ValueError("subarray: lengths differ")
        for n, k, s in zip(sizes, subsizes, starts):
            if n < 1 or k < 1 or s < 0 or k > n or s + k > n:
                raise MPIError(ERR_ARG, "invalid subarray %s %s %s" % (sizes, subsizes, starts))
        if order == ORDER_FORTRAN:
            sizes, subsizes, starts = sizes[::-1], subsizes[::-1], starts[::-1]
        idx = np.arange(int(np.prod(sizes)), dtype=np.int64).reshape(sizes)
        sub = idx[tuple(slice(s, s + k) for s, k in zip(starts, subsizes))]
        return self._derived(sub.ravel() * self.extent_, int(np.prod(sizes)) * self.extent_, "subarray")

    def Create_contiguous(self, count):
        return self._derived(np.arange(count) * self.extent_, count * self.extent_, "contiguous")

    def Create_vector(self, count, blocklength, stride):
        st = [(i * stride + j) * self.extent_ for i in range(count) for j in range(blocklength)]
        ext = ((count - 1) * stride + blocklength) * self.extent_
        return self._derived(st, ext, "vector")

    def Create_hvector(self, count, blocklength, stride):
        st = [i * stride + j * self.extent_ for i in range(count) for j in range(blocklength)]
        return self._derived(st, (count - 1) * stride + blocklength * self.extent_, "hvector")

    def Create_indexed(self, blocklengths, displacements):
        st = [(d + j) * self.extent_ for b, d in zip(blocklengths, displacements) for j in range(b)]
        ext = max((d + b) for b, d in zip(blocklengths, displacements)) * self.extent_
        return self._derived(st, ext, "indexed")

    def Create_indexed_block(self, blocklength, displacements):
        return self.Create_indexed([blocklength] * len(displacements), displacements)

    def Create_resized(self, lb, extent):
        t = Datatype(self.np, self.offsets, int(extent), "resized")
        return t

    def Dup(self):
        t = Datatype(self.np, self.offsets, self.extent_, self.name, self.basic)
        t.committed = self.committed
        return t

    def Commit(self):
        self.committed = True
        return self

    def Free(self):
        self.freed = True

    def Get_size(self):
        return len(self.offsets)

    def Get_extent(self):
        return 0, self.extent_

    size = property(Get_size)
    extent = property(lambda s: s.extent_)
    lb = property(lambda s: 0)
    ub = property(lambda s: s.extent_)

    def __repr__(self):
        return "<sim datatype %s>" % self.name


_BASIC = {}
for _n, _t in [("DOUBLE", "f8"), ("FLOAT", "f4"), ("INT", "i4"), ("LONG", "i8"), ("SHORT", "i2"),
               ("LONG_LONG", "i8"), ("UNSIGNED", "u4"), ("UNSIGNED_LONG", "u8"), ("CHAR", "S1"),
               ("SIGNED_CHAR", "i1"), ("UNSIGNED_CHAR", "u1"), ("BYTE", "u1"), ("BOOL", "?"),
               ("C_BOOL", "?"), ("INT8_T", "i1"), ("INT16_T", "i2"), ("INT32_T", "i4"),
               ("INT64_T", "i8"), ("UINT8_T", "u1"), ("UINT16_T", "u2"), ("UINT32_T", "u4"),
               ("UINT64_T", "u8"), ("REAL", "f4"), ("REAL8", "f8"), ("DOUBLE_PRECISION", "f8"),
               ("INTEGER", "i4"), ("COMPLEX", "c8"), ("DOUBLE_COMPLEX", "c16"),
               ("C_DOUBLE_COMPLEX", "c16"), ("C_FLOAT_COMPLEX", "c8"), ("LONG_DOUBLE", "g")]:
    _BASIC[_n] = Datatype._basic(_t, _n)
    globals()[_n] = _BASIC[_n]
_BY_NP = {}
for _n in ("DOUBLE", "FLOAT", "INT", "LONG", "SHORT", "UNSIGNED", "UNSIGNED_LONG", "SIGNED_CHAR",
           "UNSIGNED_CHAR", "UINT16_T", "BOOL", "COMPLEX", "DOUBLE_COMPLEX", "LONG_DOUBLE"):
    _BY_NP[np.dtype(_BASIC[_n].np)] = _BASIC[_n]
DATATYPE_NULL = Datatype(name="null")
_typedict = {dt.char: t for dt, t in _BY_NP.items()}


class _Dict(dict):
    pass


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()
BOTTOM = None


class Buf:
    """A parsed buffer argument: flat byte view plus byte offsets."""

    def __init__(self, spec, writable, per_rank=None):
        arr = count = displ = dtype = None
        if isinstance(spec, (list, tuple)):
            items = list(spec)
            arr = items[0]
            rest = items[1:]
            if rest and isinstance(rest[-1], (Datatype, str)):
                dtype = rest.pop()
            if rest:
                c = rest.pop(0)
                if isinstance(c, (list, tuple)):
                    count, displ = (list(c) + [None])[:2]
                else:
                    count = c
            if rest:
                displ = rest.pop(0)
        else:
            arr = spec
        if isinstance(dtype, str):
            dtype = _typedict.get(dtype) or _BASIC[dtype.upper()]
        if arr is None:
            self.flat, self.off, self.item, self.npdt = None, np.zeros(0, np.int64), 1, np.dtype("u1")
            self.count = 0
            self.dtype = dtype or BYTE  # noqa: F821
            return
        if not isinstance(arr, np.ndarray):
            a = np.frombuffer(arr, dtype=np.uint8)
            if dtype is None:
                dtype = BYTE  # noqa: F821
        else:
            a = arr
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise BufferError("ndarray is not contiguous")
        if writable and not a.flags.writeable:
            raise BufferError("buffer source array is read-only")
        if dtype is None:
            dtype = _BY_NP.get(a.dtype.newbyteorder("=") if a.dtype.kind != "V" else a.dtype)
            if dtype is None:
                raise KeyError("no MPI datatype for %s" % a.dtype)
        if dtype.freed or not dtype.committed:
            raise MPIError(ERR_TYPE, "datatype not committed")
        flat = a.reshape(-1, order="A" if not a.flags.c_contiguous else "C").view(np.uint8) if a.size else np.zeros(0, np.uint8)
        nbytes = flat.size
        ext = dtype.extent_
        base = int(displ or 0) * ext if not isinstance(displ, (list, tuple)) else 0
        if count is None:
            if (nbytes - base) % ext:
                raise ValueError("message: buffer length %d is not a multiple of datatype extent size %d" % (nbytes, ext))
            count = (nbytes - base) // ext
        self.counts = count if isinstance(count, (list, tuple, np.ndarray)) else None
        self.displs = displ if isinstance(displ, (list, tuple, np.ndarray)) else None
        if self.counts is None:
            count = int(count)
            off = (base + np.arange(count, dtype=np.int64)[:, None] * ext + dtype.offsets[None, :]).ravel()
            if off.size and off.max() >= nbytes:
                raise ValueError("message: buffer too small for requested count")
        else:
            off = np.arange(nbytes, dtype=np.int64)
        self.count = count
        self.flat, self.off, self.dtype = flat, off, dtype
        self.npdt = dtype.np if dtype.np is not None else (a.dtype if isinstance(arr, np.ndarray) else np.dtype("u1"))

    @property
    def nbytes(self):
        return int(self.off.size)

    def read(self):
        if self.flat is None:
            return b""
        return self.flat[self.off].tobytes()

    def write(self, data):
        if not data:
            return
        self.flat[self.off[: len(data)]] = np.frombuffer(data, dtype=np.uint8)

    def part(self, i, n):
        """(offsets) of the i-th of n equal or given blocks."""
        if self.counts is not None:
            ext = self.dtype.extent_
            d = self.displs[i] if self.displs is not None else int(np.sum(self.counts[:i]))
            return (d * ext + np.arange(self.counts[i])[:, None] * ext + self.dtype.offsets[None, :]).ravel()
        k = self.off.size // n
        return self.off[i * k:(i + 1) * k]


# ------------------------------------------------------------------------ ops
class Op:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def __call__(self, a, b):
        return self.fn(a, b)

    @classmethod
    def Create(cls, fn, commute=False):
        return cls(fn, "user")

    def Free(self):
        pass

    def __reduce__(self):
        return self.name


def _mx(a, b):
    return np.maximum(a, b) if isinstance(a, np.ndarray) else (a if a >= b else b)


def _mn(a, b):
    return np.minimum(a, b) if isinstance(a, np.ndarray) else (a if a <= b else b)


SUM = Op(lambda a, b: a + b, "SUM")
PROD = Op(lambda a, b: a * b, "PROD")
MAX = Op(_mx, "MAX")
MIN = Op(_mn, "MIN")
LAND = Op(lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray) else bool(a) and bool(b), "LAND")
LOR = Op(lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray) else bool(a) or bool(b), "LOR")
LXOR = Op(lambda a, b: bool(a) != bool(b), "LXOR")
BAND = Op(lambda a, b: a & b, "BAND")
BOR = Op(lambda a, b: a | b, "BOR")
BXOR = Op(lambda a, b: a ^ b, "BXOR")
MAXLOC = Op(lambda a, b: a if (a[0] > b[0] or (a[0] == b[0] and a[1] <= b[1])) else b, "MAXLOC")
MINLOC = Op(lambda a, b: a if (a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1])) else b, "MINLOC")
REPLACE = Op(lambda a, b: b, "REPLACE")


# -------------------------------------------------------------------- network
class Message:
    __slots__ = ("ctx", "src", "dst", "tag", "buf", "data", "nbytes", "sreq", "mode", "seq", "rreq", "obj")


class Event:
    __slots__ = ("net", "kind", "msg")

    def __init__(self, net, kind, msg):
        self.net, self.kind, self.msg = net, kind, msg

    def fire(self):
        m = self.msg
        if self.kind == "buffer":
            self.net.do_buffer(m)
        else:
            self.net.do_deliver(m)
        return "%s %d->%d tag %s #%d" % (self.kind, m.src, m.dst, m.tag, m.seq)


class Network:
    def __init__(self, sim):
        self.sim = sim
        self.seq = 0
        self.sends = []        # unmatched messages, in order of posting
        self.recvs = []        # unmatched receive requests, in order of posting
        self.evq = []          # enabled events
        self.colls = {}        # (ctx, seq) -> Coll
        self.coll_seq = {}     # (ctx, world rank) -> seq
        self.next_ctx = 10
        self.open_reqs = set()
        self.stats = {"messages": 0, "lazy": 0, "rendezvous": 0, "collectives": 0,
                      "early_exit": 0, "bytes": 0, "any_source_choices": 0}

    def new_ctx(self):
        self.next_ctx += 1
        return self.next_ctx

    def events(self):
        return self.evq

    # ---- point to point
    def post_send(self, ctx, src, dst, tag, buf, obj, req, sync=False):
        ch = self.sim.choices
        cfg = self.sim.cfg
        m = Message()
        m.ctx, m.src, m.dst, m.tag, m.buf, m.obj = ctx, src, dst, tag, buf, obj
        m.data, m.rreq, m.sreq = None, None, req
        self.seq += 1
        m.seq = self.seq
        m.nbytes = buf.nbytes if buf is not None else len(obj)
        self.stats["messages"] += 1
        self.stats["bytes"] += m.nbytes
        pl, pr = cfg["p_lazy"], cfg["p_rdv"]
        if sync:
            mode = 2
        else:
            def chooser(rng):
                x = rng.random()
                return 2 if x < pr else (1 if x < pr + pl else 0)
            mode = ch.pick(3, "sendmode", chooser) if (pl or pr) else 0
        m.mode = mode
        if mode == 0:
            self.do_buffer(m, event=False)
        elif mode == 1:
            self.stats["lazy"] += 1
            self.evq.append(Event(self, "buffer", m))
        else:
            self.stats["rendezvous"] += 1
        self.sends.append(m)
        self.match_send(m)
        return m

    def do_buffer(self, m, event=True):
        if event:
            self.evq[:] = [e for e in self.evq if not (e.kind == "buffer" and e.msg is m)]
        if m.data is None:
            m.data = m.buf.read() if m.buf is not None else m.obj
        if m.sreq is not None:
            m.sreq.done = True

    def match_ok(self, r, m):
        return (r.ctx == m.ctx and r.dst == m.dst and (r.source == ANY_SOURCE or r.source == m.src)
                and (r.tag == ANY_TAG or r.tag == m.tag))

    def match_send(self, m):
        for r in self.recvs:
            if self.match_ok(r, m):
                # non-overtaking: an earlier unmatched message of the same source must win
                self.recvs.remove(r)
                self.pair(r, m)
                return

    def first_matches(self, r):
        seen, out = set(), []
        for m in self.sends:
            if self.match_ok(r, m) and m.src not in seen:
                seen.add(m.src)
                out.append(m)
        return out

    def post_recv(self, r):
        cands = self.first_matches(r)
        if not cands:
            self.recvs.append(r)
            return
        k = 0
        if len(cands) > 1:
            k = self.sim.choices.pick(len(cands), "anysource")
            self.stats["any_source_choices"] += 1
        self.pair(r, cands[k])

    def pair(self, r, m):
        self.sends.remove(m)
        m.rreq = r
        r.msg = m
        self.evq.append(Event(self, "deliver", m))

    def do_deliver(self, m):
        self.evq[:] = [e for e in self.evq if e.msg is not m]
        if m.data is None:
            m.data = m.buf.read() if m.buf is not None else m.obj
        if m.sreq is not None:
            m.sreq.done = True
        r = m.rreq
        r.status_set(m)
        if r.buf is not None:
            if m.obj is not None:
                r.error = MPIError(ERR_TYPE, "object message received into a buffer")
                self.sim.protocol.append("object message received into a buffer")
            elif m.nbytes > r.buf.nbytes:
                r.error = MPIError(ERR_TRUNCATE, "message truncated: %d bytes into %d" % (m.nbytes, r.buf.nbytes))
                self.sim.protocol.append("truncated message %d->%d tag %s: %d bytes into %d" % (m.src, m.dst, m.tag, m.nbytes, r.buf.nbytes))
            else:
                r.buf.write(m.data)
        else:
            r.obj = m.data
        r.done = True

    def leaks(self):
        out = []
        for m in self.sends:
            out.append("message %d->%d tag %s (%d bytes) never received" % (m.src, m.dst, m.tag, m.nbytes))
        for r in self.recvs:
            out.append("receive on %d from %s tag %s never matched" % (r.dst, r.source, r.tag))
        for e in self.evq:
            if e.kind == "deliver":
                m = e.msg
                if m.rreq not in self.open_reqs:
                    continue
        for q in self.open_reqs:
            if not q.waited:
                out.append("request %s never completed by the program" % q.what)
        for key, c in self.colls.items():
            if not c.complete():
                out.append("collective %s entered by %d of %d" % (c.name, len(c.arrived), c.size))
        return sorted(set(out))


class Status:
    def __init__(self):
        self.source, self.tag, self.error, self.nbytes = ANY_SOURCE, ANY_TAG, 0, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error

    def Get_count(self, datatype=None):
        d = datatype or BYTE  # noqa: F821
        return self.nbytes // d.Get_size()

    Get_elements = Get_count

    @property
    def count(self):
        return self.nbytes


def _sim():
    sim, rank = current()
    if sim is None:
        raise HarnessError("MPI communication outside of a simulated process")
    return sim, rank


class Request:
    def __init__(self, kind="null", what=""):
        self.kind = kind
        self.done = kind == "null"
        self.waited = kind == "null"
        self.error = None
        self.msg = None
        self.obj = None
        self.buf = None
        self.what = what
        self.ctx = self.dst = self.source = self.tag = None
        self.rstat = None
        self.persistent = None
        self.comm = None

    def status_set(self, m):
        self.rstat = (m.src, m.tag, m.nbytes)

    def _fill(self, status):
        if status is not None and self.rstat is not None:
            src = self.rstat[0]
            status.source = self.comm._from_world(src) if self.comm is not None else src
            status.tag, status.nbytes = self.rstat[1], self.rstat[2]

    def _finish(self, status=None):
        self._fill(status)
        if not self.waited:
            self.waited = True
            sim, _ = current()
            if sim is not None:
                sim.net.open_reqs.discard(self)
        if self.persistent:
            self.active = False
        if self.error is not None:
            e, self.error = self.error, None
            raise e

    def Wait(self, status=None):
        if self.kind == "null" or (self.waited and not self.persistent):
            return True
        sim, rank = _sim()
        sim.step("Wait " + self.what)
        sim.block(lambda: self.done, "Wait " + self.what)
        self._finish(status)
        return True

    def wait(self, status=None):
        self.Wait(status)
        return pickle.loads(self.obj) if self.kind == "orecv" and self.obj is not None else None

    def Test(self, status=None):
        sim, rank = _sim()
        sim.step("Test " + self.what)
        if self.done:
            self._finish(status)
            return True
        return False

    def test(self, status=None):
        ok = self.Test(status)
        return ok, (pickle.loads(self.obj) if ok and self.kind == "orecv" else None)

    def Get_status(self, status=None):
        return self.done

    @classmethod
    def Waitall(cls, requests, statuses=None):
        reqs = [r for r in requests]
        live = [r for r in reqs if r is not None and not (r.kind == "null" or r.waited and not r.persistent)]
        if not live:
            return True
        sim, rank = _sim()
        what = "Waitall[" + ", ".join(r.what for r in live) + "]"
        sim.step("Waitall")
        sim.block(lambda: all(r.done for r in live), what)
        err = None
        for i, r in enumerate(reqs):
            try:
                r._finish(statuses[i] if statuses else None)
            except MPIError as e:
                err = err or e
        if err is not None:
            raise err
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        cls.Waitall(requests, statuses)
        return [pickle.loads(r.obj) if r.kind == "orecv" and r.obj is not None else None for r in requests]

    @classmethod
    def Waitany(cls, requests, status=None):
        live = [(i, r) for i, r in enumerate(requests) if r.kind != "null" and not r.waited]
        if not live:
            return UNDEFINED
        sim, rank = _sim()
        sim.step("Waitany")
        sim.block(lambda: any(r.done for _, r in live), "Waitany")
        ready = [(i, r) for i, r in live if r.done]
        k = sim.choices.pick(len(ready), "waitany")
        i, r = ready[k]
        r._finish(status)
        return i

    @classmethod
    def Waitsome(cls, requests, statuses=None):
        live = [(i, r) for i, r in enumerate(requests) if r.kind != "null" and not r.waited]
        if not live:
            return None
        sim, rank = _sim()
        sim.step("Waitsome")
        sim.block(lambda: any(r.done for _, r in live), "Waitsome")
        out = []
        for i, r in live:
            if r.done:
                r._finish()
                out.append(i)
        return out

    @classmethod
    def Testall(cls, requests, statuses=None):
        sim, rank = _sim()
        sim.step("Testall")
        if all(r.done for r in requests):
            for r in requests:
                r._finish()
            return True
        return False

    @classmethod
    def Testany(cls, requests, status=None):
        sim, rank = _sim()
        sim.step("Testany")
        for i, r in enumerate(requests):
            if r.kind != "null" and not r.waited and r.done:
                r._finish(status)
                return i, True
        return UNDEFINED, False

    def Start(self):
        self.persistent()

    @classmethod
    def Startall(cls, requests):
        for r in requests:
            r.Start()

    def Cancel(self):
        sim, _ = _sim()
        if self in sim.net.recvs:
            sim.net.recvs.remove(self)
            self.done = True

    cancel = Cancel

    def Free(self):
        sim, _ = _sim()
        if not self.persistent:
            sim.protocol.append("request freed while active: " + self.what) if not self.done else None
        self.waited = True
        sim.net.open_reqs.discard(self)

    def __bool__(self):
        return self.kind != "null"


Prequest = Request
Grequest = Request
REQUEST_NULL = Request()


class Group:
    def __init__(self, members):
        self.members = list(members)

    def Get_size(self):
        return len(self.members)

    def Get_rank(self):
        _, rank = _sim()
        return self.members.index(rank.index) if rank.index in self.members else UNDEFINED

    def Incl(self, ranks):
        return Group([self.members[r] for r in ranks])

    def Excl(self, ranks):
        return Group([m for i, m in enumerate(self.members) if i not in set(ranks)])

    def Translate_ranks(self, ranks=None, group2=None):
        ranks = ranks if ranks is not None else range(len(self.members))
        return [group2.members.index(self.members[r]) if self.members[r] in group2.members else UNDEFINED for r in ranks]

    @classmethod
    def Translate_ranks_(cls, g1, ranks, g2):
        return g1.Translate_ranks(ranks, g2)

    def Free(self):
        pass

    size = property(Get_size)
    rank = property(Get_rank)


# ---------------------------------------------------------------- collectives
class Coll:
    def __init__(self, name, root, size):
        self.name, self.root, self.size = name, root, size
        self.arrived = {}
        self.left = 0
        self.extra = {}

    def complete(self):
        return len(self.arrived) == self.size


ALL_WAIT = {"barrier", "allreduce", "allgather", "alltoall", "split", "sub", "cart", "dup", "reduce_scatter", "create", "exscan", "scan"}
ROOT_WAITS = {"gather", "reduce"}
OTHERS_WAIT = {"bcast", "scatter"}


class Comm:
    """One communicator; `_members` are world ranks."""

    def __init__(self, ctx=None, members=None, kind="comm"):
        self._ctx = ctx
        self._mem = members
        self._kind = kind
        self._freed = False
        self.name = kind

    # -- group
    @property
    def _members(self):
        if self._mem is not None:
            return self._mem
        sim, rank = current()
        if self._kind == "self":
            return [rank.index if rank is not None else 0]
        return list(range(sim.n)) if sim is not None else [0]

    def _check(self):
        if self._freed:
            raise MPIError(ERR_COMM, "communicator was freed")

    @property
    def _context(self):
        if self._kind == "self":
            _, rank = current()
            return ("self", rank.index)
        return self._ctx

    def _from_world(self, w):
        return self._members.index(w) if w in self._members else w

    def Get_rank(self):
        self._check()
        sim, rank = current()
        if sim is None:
            return 0
        return self._members.index(rank.index)

    def Get_size(self):
        self._check()
        return len(self._members)

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return self.name

    def Set_name(self, name):
        self.name = name

    def Get_group(self):
        return Group(self._members)

    group = property(Get_group)

    def Is_inter(self):
        return False

    def Is_intra(self):
        return True

    is_inter = property(Is_inter)

    def Get_topology(self):
        return UNDEFINED

    topology = property(lambda self: self.Get_topology())

    @staticmethod
    def Compare(a, b):
        if a is b or a._context == b._context:
            return IDENT
        return CONGRUENT if a._members == b._members else UNEQUAL

    def Set_errhandler(self, e):
        pass

    def Get_errhandler(self):
        return ERRORS_RETURN

    def Get_attr(self, key):
        return TAG_UB

    def __bool__(self):
        return self._kind != "null"

    def __eq__(self, other):
        return isinstance(other, Comm) and self._kind == other._kind and (self is other or (self._ctx is not None and self._ctx == other._ctx))

    def __hash__(self):
        return hash((self._kind, self._ctx))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessError("simulated communicator has no '%s'" % name)

    # -- point to point
    def _peer(self, r, any_ok=False):
        r = int(r)
        if r == PROC_NULL or (any_ok and r == ANY_SOURCE):
            return r
        if not 0 <= r < len(self._members):
            raise MPIError(ERR_RANK, "invalid rank %d" % r)
        return self._members[r]

    def _send(self, buf, obj, dest, tag, what, sync=False):
        self._check()
        sim, rank = _sim()
        tag = int(tag)
        if tag < 0:
            raise MPIError(ERR_TAG, "invalid tag %d" % tag)
        dst = self._peer(dest)
        sim.step("%s to %s tag %s" % (what, dest, tag))
        req = Request("send", "%s to %s tag %s" % (what, dest, tag))
        req.comm = self
        if dst == PROC_NULL:
            req.done = True
        else:
            sim.net.open_reqs.add(req)
            req.msg = sim.net.post_send(self._context, rank.index, dst, tag, buf, obj, req, sync)
        return req

    def _recv(self, buf, source, tag, what, kind="recv"):
        self._check()
        sim, rank = _sim()
        src = self._peer(source, True)
        sim.step("%s from %s tag %s" % (what, source, tag))
        req = Request(kind, "%s from %s tag %s" % (what, source, tag))
        req.comm = self
        req.buf = buf
        req.ctx, req.dst, req.source, req.tag = self._context, rank.index, src, int(tag)
        if src == PROC_NULL:
            req.done = True
        else:
            sim.net.open_reqs.add(req)
            sim.net.post_recv(req)
        return req

    def _wait_inner(self, req, status=None):
        sim, rank = _sim()
        sim.block(lambda: req.done, req.what)
        req._finish(status)

    def Isend(self, buf, dest, tag=0):
        return self._send(Buf(buf, False), None, dest, tag, "Isend")

    def Issend(self, buf, dest, tag=0):
        return self._send(Buf(buf, False), None, dest, tag, "Issend", True)

    Irsend = Isend

    def Ibsend(self, buf, dest, tag=0):
        b = Buf(buf, False)
        return self._send(None, b.read(), dest, tag, "Ibsend")

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return self._recv(Buf(buf, True), source, tag, "Irecv")

    def Send(self, buf, dest, tag=0):
        self._wait_inner(self._send(Buf(buf, False), None, dest, tag, "Send"))

    def Ssend(self, buf, dest, tag=0):
        self._wait_inner(self._send(Buf(buf, False), None, dest, tag, "Ssend", True))

    Rsend = Send
    Bsend = Send

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._wait_inner(self._recv(Buf(buf, True), source, tag, "Recv"), status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self._recv(Buf(recvbuf, True), source, recvtag, "Sendrecv/recv")
        s = self._send(Buf(sendbuf, False), None, dest, sendtag, "Sendrecv/send")
        self._wait_inner(s)
        self._wait_inner(r, status)

    def Sendrecv_replace(self, buf, dest, sendtag=0, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        b = Buf(buf, True)
        s = self._send(None, b.read(), dest, sendtag, "Sendrecv_replace/send")
        s.msg.obj, s.msg.data = None, s.msg.data or b.read()
        r = self._recv(b, source, recvtag, "Sendrecv_replace/recv")
        self._wait_inner(s)
        self._wait_inner(r, status)

    def Send_init(self, buf, dest, tag=0):
        p = Request("send", "Send_init")
        p.waited = True

        def start():
            q = self.Isend(buf, dest, tag)
            p.__dict__.update({k: v for k, v in q.__dict__.items() if k != "persistent"})
            if q.msg is not None:
                q.msg.sreq = p
            sim, _ = _sim()
            sim.net.open_reqs.discard(q)
            if not p.done:
                sim.net.open_reqs.add(p)
        p.persistent = start
        return p

    def Recv_init(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        p = Request("recv", "Recv_init")
        p.waited = True

        def start():
            q = self.Irecv(buf, source, tag)
            p.__dict__.update({k: v for k, v in q.__dict__.items() if k != "persistent"})
            sim, _ = _sim()
            net = sim.net
            net.open_reqs.discard(q)
            net.open_reqs.add(p)
            if q in net.recvs:
                net.recvs[net.recvs.index(q)] = p
            if q.msg is not None:
                q.msg.rreq = p
        p.persistent = start
        return p

    def isend(self, obj, dest, tag=0):
        return self._send(None, pickle.dumps(obj), dest, tag, "isend")

    issend = ibsend = isend

    def send(self, obj, dest, tag=0):
        self._wait_inner(self._send(None, pickle.dumps(obj), dest, tag, "send"))

    bsend = send

    def ssend(self, obj, dest, tag=0):
        self._wait_inner(self._send(None, pickle.dumps(obj), dest, tag, "ssend", True))

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return self._recv(None, source, tag, "irecv", "orecv")

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = self._recv(None, source, tag, "recv", "orecv")
        self._wait_inner(r, status)
        return pickle.loads(r.obj) if r.obj is not None else None

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        s = self._send(None, pickle.dumps(sendobj), dest, sendtag, "sendrecv/send")
        r = self._recv(None, source, recvtag, "sendrecv/recv", "orecv")
        self._wait_inner(s)
        self._wait_inner(r, status)
        return pickle.loads(r.obj) if r.obj is not None else None

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim, rank = _sim()
        sim.step("Iprobe")
        return self._probe(source, tag, status) is not None

    iprobe = Iprobe

    def _probe(self, source, tag, status):
        sim, rank = _sim()
        r = Request("recv")
        r.ctx, r.dst, r.source, r.tag = self._context, rank.index, self._peer(source, True), int(tag)
        c = sim.net.first_matches(r)
        if not c:
            return None
        if status is not None:
            status.source, status.tag, status.nbytes = self._from_world(c[0].src), c[0].tag, c[0].nbytes
        return c[0]

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim, rank = _sim()
        sim.step("Probe")
        sim.block(lambda: self._probe(source, tag, None) is not None, "Probe from %s tag %s" % (source, tag))
        self._probe(source, tag, status)
        return True

    probe = Probe

    # -- collectives
    def _coll(self, name, root, payload, combine, extra=None):
        """combine(coll, me) -> value returned to this process, evaluated when its wait is over."""
        self._check()
        sim, rank = _sim()
        net = sim.net
        ctx = self._context
        sim.step("%s(%s)" % (name, self.name))
        k = (ctx, rank.index)
        seq = net.coll_seq.get(k, 0)
        net.coll_seq[k] = seq + 1
        key = (ctx, seq)
        size = len(self._members)
        c = net.colls.get(key)
        me = self._members.index(rank.index)
        if c is None:
            c = net.colls[key] = Coll(name, root, size)
            net.stats["collectives"] += 1
        elif c.name != name or c.root != root:
            sim.protocol.append("collective mismatch: rank %d calls %s(root=%s) while others are in %s(root=%s)"
                                % (rank.index, name, root, c.name, c.root))
            raise MPIError(ERR_ARG, "collective mismatch %s/%s" % (name, c.name))
        c.arrived[me] = payload
        if extra is not None:
            c.extra[me] = extra
        early = False
        if name in ROOT_WAITS and me != root or name in OTHERS_WAIT and me == root or name == "free":
            early = size > 1 and sim.choices.flip(sim.cfg["p_early"], "early")
            early = early or sim.cfg.get("always_early", False)
        if early:
            net.stats["early_exit"] += 1
        elif name in OTHERS_WAIT and me != root:
            if size > 1:
                sim.block(lambda: root in c.arrived, "%s(%s)" % (name, self.name))
        else:
            sim.block(c.complete, "%s(%s)" % (name, self.name))
        out = combine(c, me)
        c.left += 1
        return out

    def Barrier(self):
        self._coll("barrier", None, None, lambda c, me: None)

    barrier = Barrier

    @staticmethod
    def _reduce_objs(objs, op):
        acc = pickle.loads(objs[0])
        for o in objs[1:]:
            acc = op(acc, pickle.loads(o))
        return acc

    def allreduce(self, sendobj, op=SUM):
        return self._coll("allreduce", None, pickle.dumps(sendobj),
                          lambda c, me: self._reduce_objs([c.arrived[i] for i in range(c.size)], op))

    def reduce(self, sendobj, op=SUM, root=0):
        return self._coll("reduce", root, pickle.dumps(sendobj),
                          lambda c, me: self._reduce_objs([c.arrived[i] for i in range(c.size)], op) if me == root else None)

    def scan(self, sendobj, op=SUM):
        return self._coll("scan", None, pickle.dumps(sendobj),
                          lambda c, me: self._reduce_objs([c.arrived[i] for i in range(me + 1)], op))

    def exscan(self, sendobj, op=SUM):
        return self._coll("exscan", None, pickle.dumps(sendobj),
                          lambda c, me: self._reduce_objs([c.arrived[i] for i in range(me)], op) if me else None)

    def gather(self, sendobj, root=0):
        return self._coll("gather", root, pickle.dumps(sendobj),
                          lambda c, me: [pickle.loads(c.arrived[i]) for i in range(c.size)] if me == root else None)

    def allgather(self, sendobj):
        return self._coll("allgather", None, pickle.dumps(sendobj),
                          lambda c, me: [pickle.loads(c.arrived[i]) for i in range(c.size)])

    def bcast(self, obj=None, root=0):
        me = self.Get_rank()
        return self._coll("bcast", root, pickle.dumps(obj) if me == root else None,
                          lambda c, me: obj if me == root else pickle.loads(c.arrived[root]))

    def scatter(self, sendobj=None, root=0):
        me = self.Get_rank()
        return self._coll("scatter", root, [pickle.dumps(o) for o in sendobj] if me == root else None,
                          lambda c, me: pickle.loads(c.arrived[root][me]))

    def alltoall(self, sendobj):
        return self._coll("alltoall", None, [pickle.dumps(o) for o in sendobj],
                          lambda c, me: [pickle.loads(c.arrived[i][me]) for i in range(c.size)])

    # upper case
    @staticmethod
    def _np(buf, data=None):
        return np.frombuffer(buf.read() if data is None else data, dtype=buf.npdt)

    def _send_or_inplace(self, sendbuf, recvbuf):
        return Buf(recvbuf, True) if sendbuf is IN_PLACE else Buf(sendbuf, False)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s, r = self._send_or_inplace(sendbuf, recvbuf), Buf(recvbuf, True)

        def comb(c, me):
            acc = np.frombuffer(c.arrived[0], dtype=s.npdt).copy()
            for i in range(1, c.size):
                acc = op(acc, np.frombuffer(c.arrived[i], dtype=s.npdt))
            r.write(np.asarray(acc, dtype=r.npdt).tobytes())
        self._coll("allreduce", None, s.read(), comb)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        me = self.Get_rank()
        s = self._send_or_inplace(sendbuf, recvbuf)

        def comb(c, me):
            if me == root:
                r = Buf(recvbuf, True)
                acc = np.frombuffer(c.arrived[0], dtype=s.npdt).copy()
                for i in range(1, c.size):
                    acc = op(acc, np.frombuffer(c.arrived[i], dtype=s.npdt))
                r.write(np.asarray(acc, dtype=r.npdt).tobytes())
        self._coll("reduce", root, s.read(), comb)

    def Bcast(self, buf, root=0):
        me = self.Get_rank()
        b = Buf(buf, me != root)
        sim, rank = _sim()

        def comb(c, me):
            if me != root:
                if len(c.arrived[root]) > b.nbytes:
                    sim.protocol.append("Bcast truncated")
                    raise MPIError(ERR_TRUNCATE, "Bcast truncated")
                b.write(c.arrived[root])
        self._coll("bcast", root, b.read() if me == root else None, comb)

    def _gather_into(self, c, recvbuf):
        r = Buf(recvbuf, True)
        sim, _ = _sim()
        for i in range(c.size):
            off = r.part(i, c.size)
            d = c.arrived[i]
            if d is None:
                continue
            if len(d) > off.size:
                sim.protocol.append("gather: %d bytes into %d" % (len(d), off.size))
                raise MPIError(ERR_TRUNCATE, "gather truncated")
            r.flat[off[: len(d)]] = np.frombuffer(d, np.uint8)

    def Gather(self, sendbuf, recvbuf, root=0):
        data = None if sendbuf is IN_PLACE else Buf(sendbuf, False).read()
        self._coll("gather", root, data, lambda c, me: self._gather_into(c, recvbuf) if me == root else None)

    Gatherv = Gather

    def Allgather(self, sendbuf, recvbuf):
        data = None if sendbuf is IN_PLACE else Buf(sendbuf, False).read()
        if data is None:
            r = Buf(recvbuf, True)
            data = r.flat[r.part(self.Get_rank(), self.Get_size())].tobytes()
        self._coll("allgather", None, data, lambda c, me: self._gather_into(c, recvbuf))

    Allgatherv = Allgather

    def Scatter(self, sendbuf, recvbuf, root=0):
        me = self.Get_rank()
        n = self.Get_size()
        parts = None
        if me == root:
            s = Buf(sendbuf, False)
            parts = [s.flat[s.part(i, n)].tobytes() for i in range(n)]

        def comb(c, me):
            if recvbuf is not IN_PLACE:
                Buf(recvbuf, True).write(c.arrived[root][me])
        self._coll("scatter", root, parts, comb)

    Scatterv = Scatter

    def Alltoall(self, sendbuf, recvbuf):
        n = self.Get_size()
        s = Buf(sendbuf, False)
        parts = [s.flat[s.part(i, n)].tobytes() for i in range(n)]

        def comb(c, me):
            r = Buf(recvbuf, True)
            for i in range(n):
                off = r.part(i, n)
                d = c.arrived[i][me]
                r.flat[off[: len(d)]] = np.frombuffer(d, np.uint8)
        self._coll("alltoall", None, parts, comb)

    Alltoallv = Alltoall

    def Ibarrier(self):
        raise HarnessError("non-blocking collectives are not simulated")

    # -- communicator management
    def Dup(self, info=None):
        sim, rank = _sim()

        def comb(c, me):
            ctx = c.extra.setdefault("ctx", None) or sim.net.new_ctx()
            c.extra["ctx"] = ctx
            return ctx
        ctx = self._coll("dup", None, None, comb)
        new = self._clone(ctx)
        return new

    Clone = Dup

    def _clone(self, ctx):
        return Intracomm(ctx, list(self._members), "dup")

    def Split(self, color=0, key=0):
        sim, rank = _sim()

        def comb(c, me):
            table = c.extra.setdefault("ctx", {})
            mine = c.arrived[me][0]
            if mine == UNDEFINED:
                return None
            if mine not in table:
                table[mine] = sim.net.new_ctx()
            grp = sorted((c.arrived[i][1], i) for i in range(c.size) if c.arrived[i][0] == mine)
            return table[mine], [self._members[i] for _, i in grp]
        out = self._coll("split", None, (color, key), comb)
        return COMM_NULL if out is None else Intracomm(out[0], out[1], "split")

    def Split_type(self, split_type=0, key=0, info=None):
        return self.Split(0, key)

    def Create(self, group):
        sim, rank = _sim()

        def comb(c, me):
            t = tuple(group.members)
            table = c.extra.setdefault("ctx", {})
            if t not in table:
                table[t] = sim.net.new_ctx()
            return table[t]
        ctx = self._coll("create", None, None, comb)
        return Intracomm(ctx, list(group.members), "create") if rank.index in group.members else COMM_NULL

    def Create_cart(self, dims, periods=False, reorder=False):
        dims = [int(d) for d in dims]
        if isinstance(periods, (bool, int, np.bool_)):
            periods = [bool(periods)] * len(dims)
        periods = [bool(p) for p in periods]
        if len(periods) != len(dims):
            raise ValueError("mismatch in number of dimensions and periods")
        n = int(np.prod(dims)) if dims else 1
        if any(d <= 0 for d in dims) or n > self.Get_size():
            raise MPIError(ERR_DIMS, "size of communicator smaller than cartesian grid")
        sim, rank = _sim()

        def comb(c, me):
            if "ctx" not in c.extra:
                c.extra["ctx"] = sim.net.new_ctx()
                order = list(range(self.Get_size()))
                if reorder and sim.cfg.get("reorder"):
                    for i in range(len(order) - 1, 0, -1):
                        j = i - sim.choices.pick(i + 1, "reorder")
                        order[i], order[j] = order[j], order[i]
                c.extra["order"] = order
                c.extra["args"] = (dims, periods, reorder)
            elif c.extra["args"] != (dims, periods, reorder):
                sim.protocol.append("Create_cart with different arguments on different ranks")
                raise MPIError(ERR_ARG, "Create_cart arguments differ")
            return c.extra["ctx"], [self._members[i] for i in c.extra["order"][:n]]
        ctx, mem = self._coll("cart", None, None, comb)
        if rank.index not in mem:
            return NullCart()
        return Cartcomm(ctx, mem, dims, periods)

    def Free(self):
        if self._kind in ("world", "self"):
            raise MPIError(ERR_COMM, "cannot free a predefined communicator")
        if len(self._members) > 1:
            self._coll("free", None, None, lambda c, me: None)
        self._freed = True

    Disconnect = Free

    def Abort(self, errorcode=0):
        sim, rank = _sim()
        sim.note("Abort(%s)" % errorcode)
        sim.outcome.detail = "Abort"
        sim.kill_all("MPI_Abort by rank %d" % rank.index)

    def py2f(self):
        return 0


class Intracomm(Comm):
    pass


class Cartcomm(Intracomm):
    def __init__(self, ctx, members, dims, periods):
        Comm.__init__(self, ctx, members, "cart")
        self._dims, self._periods = list(dims), list(periods)

    def _clone(self, ctx):
        return Cartcomm(ctx, list(self._members), self._dims, self._periods)

    def Get_dim(self):
        return len(self._dims)

    ndim = dim = property(Get_dim)

    def Get_topo(self):
        return list(self._dims), [int(p) for p in self._periods], self.Get_coords(self.Get_rank())

    topo = property(Get_topo)
    dims = property(lambda self: list(self._dims))
    periods = property(lambda self: [int(p) for p in self._periods])
    coords = property(lambda self: self.Get_coords(self.Get_rank()))

    def Get_topology(self):
        return 1

    def Get_coords(self, rank):
        self._check()
        rank = int(rank)
        if not 0 <= rank < len(self._members):
            raise MPIError(ERR_RANK, "invalid rank %d" % rank)
        out = []
        for d in reversed(self._dims):
            out.append(rank % d)
            rank //= d
        return out[::-1]

    def Get_cart_rank(self, coords):
        self._check()
        r = 0
        if len(coords) != len(self._dims):
            raise ValueError("expecting %d coordinates" % len(self._dims))
        for c, d, p in zip(coords, self._dims, self._periods):
            c = int(c)
            if not 0 <= c < d:
                if not p:
                    raise MPIError(ERR_ARG, "coordinate %d out of range" % c)
                c %= d
            r = r * d + c
        return r

    def Shift(self, direction, disp):
        c = self.Get_coords(self.Get_rank())

        def at(k):
            q = list(c)
            q[direction] += k
            if not self._periods[direction] and not 0 <= q[direction] < self._dims[direction]:
                return PROC_NULL
            return self.Get_cart_rank(q)
        return at(-disp), at(disp)

    def Sub(self, remain_dims):
        remain = [bool(x) for x in remain_dims]
        sim, rank = _sim()
        mine = self.Get_coords(self.Get_rank())

        def comb(c, me):
            if c.extra.setdefault("args", remain) != remain:
                sim.protocol.append("Sub with different arguments on different ranks")
                raise MPIError(ERR_ARG, "Sub arguments differ")
            table = c.extra.setdefault("ctx", {})
            fixed = tuple(v for v, k in zip(mine, remain) if not k)
            if fixed not in table:
                table[fixed] = sim.net.new_ctx()
            mem = [self._members[i] for i in range(c.size)
                   if tuple(v for v, k in zip(self.Get_coords(i), remain) if not k) == fixed]
            return table[fixed], mem
        ctx, mem = self._coll("sub", None, None, comb)
        return Cartcomm(ctx, mem, [d for d, k in zip(self._dims, remain) if k],
                        [p for p, k in zip(self._periods, remain) if k])


COMM_WORLD = Intracomm(0, None, "world")
COMM_SELF = Intracomm(1, None, "self")
COMM_NULL = Intracomm(-1, [], "null")


class NullCart(Cartcomm):
    """What a process outside of the grid gets: every operation is an error."""

    def __init__(self):
        Cartcomm.__init__(self, -1, [], [], [])

    def __getattribute__(self, name):
        if name.startswith("__"):
            return object.__getattribute__(self, name)
        raise MPIError(ERR_COMM, "null communicator")

    def __eq__(self, other):
        return other is COMM_NULL or isinstance(other, NullCart)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(COMM_NULL)

    def __bool__(self):
        return False
GROUP_EMPTY = Group([])
ERRORS_RETURN = object()
ERRORS_ARE_FATAL = object()
INFO_NULL = None
STATUS_IGNORE = None
STATUSES_IGNORE = None


def Compute_dims(nnodes, dims):
    """Balanced, non-increasing factorisation (same results as Open MPI/MPICH; see selftest)."""
    if isinstance(dims, (int, np.integer)):
        dims = [0] * int(dims)
    dims = [int(d) for d in dims]
    fixed = 1
    for d in dims:
        if d < 0:
            raise MPIError(ERR_DIMS, "invalid dims")
        if d:
            fixed *= d
    if nnodes % fixed:
        raise MPIError(ERR_DIMS, "nnodes is not a multiple of the fixed dims")
    free = [i for i, d in enumerate(dims) if d == 0]
    rest = nnodes // fixed
    if not free:
        if fixed != nnodes:
            raise MPIError(ERR_DIMS, "dims do not match nnodes")
        return dims
    best = None

    def rec(n, k, cap):
        if k == 1:
            if n <= cap:
                yield [n]
            return
        for f in range(min(n, cap), 0, -1):
            if n % f == 0:
                for t in rec(n // f, k - 1, f):
                    yield [f] + t
    for cand in rec(rest, len(free), rest):
        score = (max(cand) - min(cand), cand)
        if best is None or score < best:
            best = score
    for i, v in zip(free, best[1]):
        dims[i] = v
    return dims


_import_time = [1000.0]


def Wtime():
    sim, rank = current()
    if sim is None:
        return _import_time[0]
    clock = sim.cfg.get("wtime")
    if clock is not None:
        return clock(sim, rank)
    return sim.now + sim.cfg.get("skew", 0.0) * rank.index


def Wtick():
    return 1e-9


def Get_processor_name():
    return "simulated"


def Is_initialized():
    return True


def Is_finalized():
    return False


def Init(*a):
    pass


def Init_thread(*a):
    return THREAD_MULTIPLE


def Finalize():
    pass


def Query_thread():
    return THREAD_MULTIPLE


def Is_thread_main():
    return True


def Get_library_version():
    return "simulated MPI"


def Get_version():
    return (3, 1)


def get_vendor():
    return ("simulated", (1, 0, 0))


def Attach_buffer(buf):
    pass


def Detach_buffer():
    return None


def __getattr__(name):
    if name.startswith("__") or name.startswith("_"):
        raise AttributeError(name)
    raise HarnessError("simulated MPI has no '%s'" % name)


def install():
    """Put the simulator in the place of mpi4py."""
    if "mpi4py" in sys.modules and getattr(sys.modules["mpi4py"], "_simulated", False):
        return
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    pkg.__version__ = "4.0.0"
    pkg._simulated = True
    rc = types.SimpleNamespace(initialize=True, threads=True, finalize=None)
    pkg.rc = rc
    me = sys.modules[__name__]
    pkg.MPI = me
    me.__spec__ = me.__spec__
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = me
