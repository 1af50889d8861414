"""C18: a computation resumed from its last complete output is the uninterrupted one."""
import os
import random
import tempfile
import xml.etree.ElementTree as ET

import h5py
import numpy as np

from .. import gen, hdf5io, life, world
from ..kernel import Choices, HarnessError, current
from ..result import Invalid, Violation
from . import c06

ID = "C18"
RULE = ("random simulation that writes its whole state (distributions or all moments) every k steps with H5File; lives of the job are killed or fail at a storage operation and "
        "the next life, on another process grid and with another storage order, resumes from the latest output whose description is complete, in one of four ways (distributions "
        "overwritten with or without halo, moments overwritten, distributions as initial values); every state of every life is compared with the uninterrupted run on one process; "
        "non-trivial: a life resumed from an output")
REAL = ["pylbm (simulation, storage, boundary, kernels, hdf5)", "h5py and the HDF5 library", "numpy", "sympy", "the file system of a scratch directory"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "storage operations on the outputs (executed or failed by the simulated disk)",
        "process crash (all processes of the job end at one disk operation)"]
BUDGET = {"quick": 50, "thorough": 900}
WAYS = ["halo", "view", "moments", "init"]


def prepare():
    hdf5io.install()


def grid_of(rng, spec):
    """Another process grid for the same description."""
    if rng.random() < .4:
        return [1] * spec["dim"], True
    s = gen.gen_split(rng, spec["n"], gen.reach(spec["fam"]), 4, minranks=1)
    if s is None or gen.narrow_neumann(dict(spec, split=s)):
        return [1] * spec["dim"], True
    return list(s), False


def gen_case(rng, tier):
    spec = gen.gen_spec(rng, maxranks=4, small=rng.random() < .7)
    if spec.get("source"):
        spec.pop("relvel", None)
    total = rng.randint(2, 8)
    lives = []
    for i in range(rng.choice([1, 2, 2, 2, 3])):
        split, auto = grid_of(rng, spec)
        so = None
        if rng.random() < .3:
            so = list(range(spec["dim"] + 1))
            rng.shuffle(so)
        lives.append({"split": split, "auto": auto, "sorder": so, "way": rng.choice(WAYS), "every": rng.choice([1, 1, 1, 2, 3]),
                      "fault": c06.gen_fault(rng), "stop": rng.randint(1, total)})
    for l in lives[1:]:
        l["fault"]["u"] **= .5
    lives[-1]["fault"] = None
    lives[-1]["stop"] = total
    for l in lives[:-1]:
        if rng.random() < .3:
            l["fault"] = None
    return {"spec": spec, "state": rng.choice(["F", "F", "m"]), "total": total, "lives": lives, "sched": gen.gen_sched(rng)}


def shrink(case):
    L = case["lives"]
    for i in range(len(L) - 1):
        yield dict(case, lives=L[:i] + L[i + 1:])
    for i, l in enumerate(L):
        if l["fault"]:
            yield dict(case, lives=L[:i] + [dict(l, fault=None)] + L[i + 1:])
        if l["split"] != [1] * case["spec"]["dim"]:
            yield dict(case, lives=L[:i] + [dict(l, split=[1] * case["spec"]["dim"], auto=True)] + L[i + 1:])
        if l["sorder"]:
            yield dict(case, lives=L[:i] + [dict(l, sorder=None)] + L[i + 1:])
        for st in range(1, l["stop"]):
            if i < len(L) - 1:
                yield dict(case, lives=L[:i] + [dict(l, stop=st)] + L[i + 1:])


def spec_of(case, l):
    s = dict(case["spec"], split=l["split"], auto=l["auto"])
    s.pop("sorder", None)
    if l["sorder"]:
        s["sorder"] = l["sorder"]
    return s


def read(start, nv, state):
    """The global arrays of an output, as the user's script reads them."""
    with h5py.File("out/state_%d.h5" % start, "r") as f:
        return [np.array(f["%s%d" % (state, i)]).T for i in range(nv)]


def latest():
    """The latest output with a complete description."""
    best = None
    if not os.path.isdir("out"):
        return None
    for x in os.listdir("out"):
        if x.endswith(".xdmf"):
            try:
                ET.parse(os.path.join("out", x))
            except (OSError, ET.ParseError):
                continue
            k = int(x[:-5].split("_")[1])
            best = k if best is None else max(best, k)
    return best


def main_of(case, l, start):
    spec = spec_of(case, l)
    nv = gen.nv_of(spec)
    dim = spec["dim"]
    state = case["state"]
    way = l["way"] if state == "F" else "moments"

    def pick(glob, coords):
        ix = []
        for a in range(dim):
            k = np.rint((np.asarray(coords[a]) - spec["x0"][a]) / spec["dx"] - .5).astype(int)
            k = k % spec["n"][a] if spec["label"][2 * a] == -1 else np.clip(k, 0, spec["n"][a] - 1)
            ix.append(k.ravel())
        return glob[np.ix_(*ix)]

    def main(r):
        sim, rank = current()
        disk = sim.disk
        tempfile.tempdir = os.path.join(os.path.dirname(disk.root), "tmp")
        states = []
        try:
            p = world.pylbm()
            d = gen.dico(spec)
            if start is not None and way == "init":
                glob = read(start, nv, state)
                d["inittype"] = "distributions"
                d["init"] = {k: (lambda k: lambda *xs: pick(glob[k], xs))(k) for k in range(nv)}
            s = p.Simulation(d, sorder=spec.get("sorder"))
            if start is not None:
                if way != "init":
                    glob = read(start, nv, state)
                    if way == "view":
                        for i in range(nv):
                            s.F[i][...] = pick(glob[i], s.domain.coords)
                    elif way == "halo":
                        for i in range(nv):
                            s.F_halo[i] = pick(glob[i], s.domain.coords_halo)
                    else:
                        for i in range(nv):
                            if state == "m":
                                s.m_halo[i] = pick(glob[i], s.domain.coords_halo)
                            else:
                                s.F_halo[i] = pick(glob[i], s.domain.coords_halo)
                        if state == "m":
                            s.m2f()
                s.nt = start
                s.t = 0.
                for _ in range(start):
                    s.t += s.dt
            reg = gen.region(s)

            def look():
                f = np.array([s.F[i] for i in range(nv)])
                states.append((s.nt, float(s.t), f))
            look()
            while s.nt < l["stop"]:
                s.one_time_step()
                look()
                if s.nt % l["every"] == 0:
                    if r == 0:
                        disk.notes.append(("begin", s.nt))
                    h5 = p.H5File(s.domain.mpi_topo, "state", "out", s.nt)
                    h5.set_grid(*s.domain.coords)
                    for i in range(nv):
                        h5.add_scalar("%s%d" % (state, i), s.F[i] if state == "F" else s.m[i])
                    h5.save()
                    h5 = None
                    if r == 0:
                        disk.notes.append(("saved", s.nt))
            return reg, states, None
        except Exception as e:
            if sim.n > 1:
                raise
            disk.notes.append(("failed", type(e).__name__, str(e)[:300]))
            e.__traceback__ = None
            h5 = None
            return gen.region(s) if "s" in locals() else None, states, "%s: %s" % (type(e).__name__, str(e)[:300])
    return main


def run(case, choices, stats):
    spec = case["spec"]
    total = case["total"]
    want = []

    def whole(r):
        def look(s):
            want.append((s.nt, float(s.t), gen.fields(s)[1]))
        s = gen.simulate(dict(spec, split=[1] * spec["dim"], auto=True), steps=total, each=look)
        return np.array(s.domain.in_or_out[tuple(slice(int(v), -int(v)) if v else slice(None) for v in s.domain.stencil.vmax[:spec["dim"]])] == s.domain.valin)
    ref = world.run_serial(whole)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    fluid = ref.results[0]
    if not fluid.any() or not all(np.isfinite(f[:, fluid]).all() and np.abs(f[:, fluid]).max() < 1e4 for _, _, f in want):
        raise Invalid("unstable")
    os.mkdir("tmp")
    os.mkdir("disk")
    os.chdir("disk")
    for li, l in enumerate(case["lives"]):
        start = latest()
        if start is not None:
            stats.probe("lives resumed")
            stats.probe("resumed by " + (l["way"] if case["state"] == "F" else "all moments"))
            stats.nontrivial = True
        ls = spec_of(case, l)
        n = gen.nranks(ls)
        main = main_of(case, l, start)
        plan = []
        if l["fault"]:
            here = os.getcwd()
            import shutil
            shutil.copytree(here, here + ".dry")
            os.chdir(here + ".dry")
            try:
                dry = life.run_life(n, main, Choices(seed=0), dict(case["sched"], policy="uniform"), gen.argv(ls))
            finally:
                os.chdir(here)
                shutil.rmtree(here + ".dry")
            plan = c06.plan_of(l["fault"], len(dry.ops))
        lf = life.run_life(n, main, choices, case["sched"], gen.argv(ls), plan=plan, seed=li)
        life.add(stats, lf)
        life.raise_violations(lf)
        stats.probe("lives")
        trace = life.Trace(lf)
        trace.tail = trace.tail[-15:] + ["disk op %d: rank %d %s %s" % ((i + 1,) + tuple(o)) for i, o in enumerate(lf.ops)][-30:] + ["notes: %s" % lf.notes]
        inj = bool(lf.injected)
        what = "life %d (%s process(es), %s)" % (li, n, "from the beginning" if start is None else "resumed at step %d" % start)
        if lf.kind == "died" and inj and lf.notes and lf.notes[-1][0] == "failed":
            stats.probe("crashes of HDF5 after a reported failure")
            continue
        if lf.kind == "died":
            raise Violation("crash", "%s crashed: %s" % (what, lf.describe()), trace)
        if not inj and (not lf.clean or any(x[2] for x in lf.results)):
            raise Violation("fails", "%s fails without a fault: %s %s" % (what, lf.describe(), [x and x[2] for x in lf.results]), trace)
        if lf.kind in ("deadlock", "steps") and not any(lf.excs):
            raise Violation("unreported", "after %s %s stops without an error: %s" % (lf.injected, what, lf.describe()), trace)
        for r, x in enumerate(lf.results):
            if not x or x[0] is None:
                continue
            sl = tuple(slice(a, b) for a, b in x[0])
            fl = fluid[sl]
            for nt, t, f in x[1]:
                if not 0 <= nt < len(want) or abs(t - want[nt][1]) > 1e-12:
                    raise Violation("time", "%s, process %d: step %s at time %s" % (what, r, nt, t), trace)
                w = want[nt][2][(slice(None),) + sl]
                if f.shape != w.shape:
                    raise Violation("shape", "%s, process %d: shape %s instead of %s" % (what, r, f.shape, w.shape), trace)
                bad = ~np.isclose(f, w, rtol=1e-7, atol=1e-9 * max(1., np.abs(w).max())) & fl
                if bad.any():
                    i = tuple(int(q[0]) for q in np.where(bad))
                    raise Violation("differs", "%s, process %d, step %d: %d of %d distributions of the fluid points are not those of the uninterrupted run, first %d at %s: %r instead of %r"
                                    % (what, r, nt, bad.sum(), bad.size, i[0], list(i[1:]), float(f[i]), float(w[i])), trace)
                stats.probe("states compared")
            stats.sim_steps += len(x[1]) - 1
    if lf.kind == "ok":
        if any(x[1][-1][0] != total for x in lf.results):
            raise Violation("stuck", "the last life, without faults, does not reach the end", trace)
