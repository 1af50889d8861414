"""C06: a failed or interrupted save is never mistaken for a good one."""
import errno
import os
import shutil
import signal

import numpy as np

from .. import gen, hdf5io, life, world
from ..kernel import Choices, HarnessError
from ..result import Invalid, Violation
from . import c05

ID = "C06"
RULE = ("random histories of 1 to 3 lives of a job of 1 to 3 processes; each life makes 1 to 4 outputs (scalar and vector fields, several directories, "
        "names shared with earlier lives); in each life one storage operation (open, write, truncate, close, mkdir, rename, unlink of the data or the description file, "
        "below the HDF5 library) fails, is short or torn, the disk gets full, or the process is killed there; non-trivial: at least one fault was injected")
REAL = ["pylbm.hdf5", "pylbm.domain", "pylbm.mpi_topology", "h5py and the HDF5 library", "the file system of a scratch directory"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "system calls open, pwrite, write, ftruncate, close of the HDF5 library and the file operations of Python "
        "(executed or failed by the simulated disk)", "process crash (all processes of the job end at one disk operation; what was written before stays)"]
BUDGET = {"quick": 40, "thorough": 900}
NAMES = ["out", "out", "a.h5", "b_c"]
PATHS = ["out", "out", "", ".", "new/nested"]
ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES]


def prepare():
    hdf5io.install()


def gen_fault(rng):
    k = rng.choice(["kill", "kill", "kill", "error", "error", "error", "torn", "full", "short"])
    return {"kind": k, "u": rng.random(), "e": rng.choice(ERR), "frac": rng.choice([0., 0.3, .99, rng.random()])}


def gen_case(rng, tier):
    spec = gen.gen_spec(rng, maxranks=rng.choice([2, 2, 3]), elements=False, values=False, source=False, minwidth=1, dims=(1, 1, 2, 3))
    if rng.random() < .6:
        spec["split"] = [1] * spec["dim"]
    if rng.random() < .25:
        # fields larger than the buffers of the libraries
        spec["n"][0] = max(spec["n"][0], 24000 // int(np.prod(spec["n"][1:]) or 1))
    lives = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        files, used = [], set()
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            f = {"path": rng.choice(PATHS), "step": rng.choice([None, 0, 0, 1, 2]), "name": rng.choice(NAMES)}
            if key(f) in used:
                continue
            used.add(key(f))
            f["sets"] = []
            for k in range(rng.choice([0, 1, 1, 2, 3])):
                vec = rng.random() < .4
                f["sets"].append({"name": rng.choice(["rho", "u", "T"]) + str(k), "vec": vec, "kinds": ["double"] * (rng.choice([spec["dim"], 3]) if vec else 1),
                                  "seed": rng.randrange(100000)})
            files.append(f)
        lives.append({"files": files, "fault": gen_fault(rng) if rng.random() < .95 else None})
    return {"spec": spec, "lives": lives, "sched": gen.gen_sched(rng)}


def shrink(case):
    L = case["lives"]
    for i in range(len(L)):
        if len(L) > 1:
            yield dict(case, lives=L[:i] + L[i + 1:])
    for i, l in enumerate(L):
        for j in range(len(l["files"])):
            if len(l["files"]) > 1:
                yield dict(case, lives=L[:i] + [dict(l, files=l["files"][:j] + l["files"][j + 1:])] + L[i + 1:])
        if l["fault"]:
            yield dict(case, lives=L[:i] + [dict(l, fault=None)] + L[i + 1:])


def key(f):
    stem = os.path.splitext(f["name"])[0] + ("_%d" % f["step"] if f["step"] is not None else "")
    return os.path.normpath(os.path.join(f["path"], stem))


def plan_of(fault, n):
    if fault is None or n == 0:
        return []
    op = 1 + int(fault["u"] * n)
    k = fault["kind"]
    if k == "error":
        return [["error", op, fault["e"]]]
    if k == "torn":
        return [["torn", op, fault["e"]]]
    if k == "kill":
        return [["kill", op, fault["frac"]]]
    return [[k, op]]


def make_main(spec, files, nranks):
    n = tuple(spec["n"])

    def main(r):
        p = world.pylbm()
        from ..kernel import current
        disk = current()[0].disk
        dom = p.Domain(gen.dico(spec))
        reg = dom.mpi_topo.get_region(*dom.global_size)
        sl = tuple(slice(*x) for x in reg)
        first = None
        for i, f in enumerate(files):
            if r == 0:
                disk.notes.append(("begin", i))
            try:
                kw = {}
                if f["step"] is not None:
                    kw["timestep"] = f["step"]
                if f["path"]:
                    kw["path"] = f["path"]
                h5 = p.H5File(dom.mpi_topo, f["name"], **kw)
                h5.set_grid(*dom.coords)
                for d in f["sets"]:
                    arrs = [c05.field(d["seed"] + 10000 * j, n, k)[sl].copy() for j, k in enumerate(d["kinds"])]
                    if d["vec"]:
                        h5.add_vector(d["name"], arrs)
                    else:
                        h5.add_scalar(d["name"], arrs[0])
                h5.save()
            except Exception as e:
                if nranks > 1:
                    raise
                first = first or e
                disk.notes.append(("failed", i, "%s: %s" % (type(e).__name__, str(e)[:200])))
                e.__traceback__ = None
                h5 = None
                continue
            if r == 0:
                disk.notes.append(("saved", i))
            h5 = None
        return [] if first is None else ["%s: %s" % (type(first).__name__, str(first)[:200])]
    return main


def run(case, choices, stats):
    spec = case["spec"]
    n = gen.nranks(spec)
    ref = world.run_serial(lambda r: world.pylbm().Domain(gen.dico(spec)).global_size)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    os.mkdir("disk")
    os.chdir("disk")
    good = {}       # key -> the file description whose save returned
    maybe = {}      # key -> candidates since then
    for li, l in enumerate(case["lives"]):
        files = l["files"]
        main = make_main(spec, files, n)
        plan = []
        if l["fault"]:
            plan = plan_of(l["fault"], dry(case, main, choices, stats, n))
        lf = life.run_life(n, main, choices, case["sched"], gen.argv(spec), plan=plan, seed=li)
        life.add(stats, lf)
        life.raise_violations(lf)
        stats.probe("lives")
        for k in {(o[1]) for o in lf.ops}:
            stats.probe("operations: " + k, sum(o[1] == k for o in lf.ops))
        trace = life.Trace(lf)
        trace.tail = trace.tail[-25:] + ["disk op %d: rank %d %s %s" % ((i + 1,) + tuple(o)) for i, o in enumerate(lf.ops)][-40:] + ["notes: %s" % lf.notes]
        inj = bool(lf.injected)
        stats.nontrivial |= inj
        if lf.kind == "died" and inj and lf.notes and lf.notes[-1][0] == "failed":
            # HDF5 crashes when a file is released that could not be written: the failure had been reported
            stats.probe("crashes of HDF5 after a reported failure")
        elif lf.kind == "died":
            raise Violation("crash", "the process crashed: " + lf.describe(), trace)
        elif not inj:
            if not lf.clean or any(x for x in lf.results if x):
                raise Violation("fails", "output without a fault fails: %s %s" % (lf.describe(), lf.notes), trace)
        elif lf.kind in ("deadlock", "steps"):
            # the other processes wait for the one that failed
            if not any(lf.excs):
                raise Violation("unreported", "after %s the job stops without an error: %s" % (lf.injected, lf.describe()), trace)
        elif lf.kind not in ("ok", "killed"):
            raise HarnessError("life ends as " + lf.describe())
        if lf.kind != "killed":
            # every output that was begun either returned or raised
            ended = {x[1] for x in lf.notes if x[0] != "begin"}
            for x in lf.notes:
                if x[0] == "begin" and x[1] not in ended and not any(lf.excs):
                    raise Violation("unreported", "output %d neither returned nor raised" % x[1], trace)
        for x in lf.notes:
            f = files[x[1]]
            if x[0] == "begin":
                maybe.setdefault(key(f), []).append(f)
            elif x[0] == "saved":
                good[key(f)] = f
                maybe[key(f)] = []
                stats.probe("saved")
            else:
                stats.probe("reported failures")
        verify(case, good, maybe, trace, stats)


def dry(case, main, choices, stats, n):
    """Number of disk operations of the life without a fault, in another copy of the disk."""
    here = os.getcwd()
    shutil.copytree(here, here + ".dry")
    os.chdir(here + ".dry")
    try:
        lf = life.run_life(n, main, Choices(seed=0), dict(case["sched"], policy="uniform"), gen.argv(case["spec"]))
    finally:
        os.chdir(here)
        shutil.rmtree(here + ".dry")
    life.raise_violations(lf)
    if not lf.clean or any(x for x in lf.results if x):
        raise Violation("fails", "output without a fault fails: %s %s" % (lf.describe(), lf.notes), life.Trace(lf))
    return len(lf.ops)


def verify(case, good, maybe, trace, stats):
    n = tuple(case["spec"]["n"])
    for k in sorted(set(good) | set(maybe)):
        cand = maybe.get(k, [])
        if not cand:
            try:
                c05.check_file(case, good[k], n, None, "", trace, set())
            except Violation:
                raise
            except Exception as e:
                raise Violation("content", "%s, whose save had returned, cannot be read: %r" % (k, e), trace)
            stats.probe("intact files checked")
            continue
        if not complete(k + ".xdmf"):
            continue
        stats.probe("complete descriptions of interrupted outputs")
        errs = []
        for f in cand + ([good[k]] if k in good else []):
            try:
                c05.check_file(case, f, n, None, "", trace, set())
                break
            except Exception as e:
                errs.append(str(e)[:300])
        else:
            raise Violation("incomplete", "%s.xdmf is a complete description, but its data file is not complete: %s" % (k, errs), trace)


def complete(x):
    import xml.etree.ElementTree as ET
    try:
        ET.parse(x)
        return True
    except (OSError, ET.ParseError):
        return False
