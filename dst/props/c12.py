"""C12: looking at a simulation does not change it."""
import os

import numpy as np
import sympy as sp

from .. import gen, world
from ..result import Invalid, Violation

ID = "C12"
RULE = ("histories of steps, reads of moments, distributions and halos, textual descriptions, user writes of the distributions and outputs, different "
        "reads on different processes; compared with the unobserved history of the same writes and steps; non-trivial: an observation between two steps")
REAL = ["pylbm", "numpy", "sympy", "h5py/HDF5"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 40, "thorough": 900}


def gen_case(rng, tier):
    spec = gen.gen_spec(rng, maxranks=5)
    if rng.random() < .3:
        spec["split"] = [1] * spec["dim"]
        spec["auto"] = True
    if rng.random() < .5:
        spec["algo"] = {**spec.get("algo", {}), "split": rng.random() < .6}
    nv = gen.nv_of(spec)
    n = gen.nranks(spec)
    ops = []
    for _ in range(rng.randint(3, 14)):
        k = gen.wchoice(rng, {"step": 4, "read": 5, "write": 1.5, "save": 1, "writem": .7})
        if k == "read":
            ops.append(["read", [[rng.choice(["m", "m", "m_halo", "F", "F_halo", "str", "t", "coords", "msym", "slice"]), rng.randrange(nv)]
                                 if rng.random() < .7 else None for _ in range(n)]])
        elif k == "write":
            ops.append(["write", rng.randrange(nv), rng.choice([.9, 1.1, 1.02]), rng.choice(["set", "scalar", "halo"])])
        elif k == "writem":
            ops.append(["writem", rng.randrange(nv), rng.choice([.9, 1.1])])
        elif k == "save":
            ops.append(["save", rng.randrange(nv)])
        else:
            ops.append(["step"])
    if not any(o[0] == "step" for o in ops):
        ops.append(["step"])
    inside = []
    if any(b.get("value") and b["value"].get("time") for b in spec["bc"].values()) and rng.random() < .6:
        # the user's functions of the boundary values look at the simulation too
        inside = [[rng.choice(["m", "msym", "m_halo", "F", "str", "t"]), rng.randrange(nv)] for _ in range(rng.randint(1, 4))]
    return {"spec": spec, "ops": ops, "inside": inside, "sched": gen.gen_sched(rng)}


def moment_matrix(spec):
    """Polynomials at the velocities, rows in the order of the description."""
    p = world.pylbm()
    dim = spec["dim"]
    schemes, _ = gen.family(spec)
    blocks = []
    for s in schemes:
        vel = [np.atleast_1d(p.stencil.Velocity(dim=dim, num=v).v) for v in s["velocities"]]
        rows = []
        for pol in s["polynomials"]:
            e = sp.sympify(pol)
            rows.append([float(e.subs(dict(zip((gen.X, gen.Y, gen.Z), map(int, v))))) for v in vel])
        cm = s["conserved_moments"]
        eq = [sp.sympify(e) for e in s["equilibrium"]]
        blocks.append((np.array(rows), [(eq.index(c), c) for c in (cm if isinstance(cm, (list, tuple)) else [cm])]))
    return blocks


def check_moments(spec, s, blocks, stats, but=None):
    """Every moment read is the combination of the current distributions (the order of the moments in m is left to pylbm)."""
    nv = s.container.m.nv
    f = np.array([s.F[i] for i in range(nv)])
    m = np.array([s.m[i] for i in range(nv)])
    want = []
    k = 0
    for rows, cm in blocks:
        w = np.tensordot(rows, f[k:k + len(rows)], 1)
        for j, c in cm:
            if but is not None and s.scheme.consm[c] == but:
                continue
            got = s.m[c]
            if not np.allclose(got, w[j], rtol=1e-9, atol=1e-10 * max(1, np.abs(f).max())):
                raise Violation("moments", "the moment %s read is not that of the distributions at step %d: %r instead of %r"
                                % (c, s.nt, float(got.ravel()[0]), float(w[j].ravel()[0])))
        want.append(w)
        k += len(rows)
    stats.probe("moments compared with the distributions")
    if but is not None:
        return
    want = np.concatenate(want)
    a = np.sort(m.reshape(nv, -1), axis=0)
    b = np.sort(want.reshape(nv, -1), axis=0)
    if not np.allclose(a, b, rtol=1e-9, atol=1e-10 * max(1, np.abs(f).max())):
        raise Violation("moments", "the moments read are not those of the distributions at step %d" % s.nt)


def do_read(s, what, k):
    nv = s.container.m.nv
    if what == "str":
        str(s), repr(s.domain), str(s.scheme)
    elif what == "t":
        s.t, s.nt, s.dt
    elif what == "coords":
        s.domain.x, s.domain.coords_halo, s.domain.get_bounds(), s.domain.shape_in
    elif what == "msym":
        s.m[list(s.scheme.consm.keys())[0]]
    elif what == "slice":
        np.array(s.m[k]).sum(), np.array(s.m[(k + 1) % nv])
    else:
        np.array(getattr(s, what)[k])


def do_write(s, op):
    k, c, how = op[1:]
    if how == "set":
        s.F_halo[k] = c * s.F_halo[k]
    elif how == "halo":
        s.F_halo[k] = s.F_halo[k] + .01 * (c - 1)
    else:
        s.F_halo[k] = .05 * c


def run(case, choices, stats):
    spec = case["spec"]
    n = gen.nranks(spec)
    blocks = None

    def main(r, observe):
        inside = case.get("inside")
        now = {"n": r}

        def hook(label, t, nargs):
            # a process may call the functions of its own boundaries only: local reads
            now["n"] += 1
            if observe and inside and "s" in now:
                before = now["s"].container.F.array.copy()
                ops = rank.nops
                do_read(now["s"], *inside[now["n"] % len(inside)])
                stats.probe("reads in the user's functions")
                if rank.nops != ops:
                    raise Violation("communicates", "reading in a user's function communicates with other processes or blocks")
                if not np.array_equal(before, now["s"].container.F.array):
                    raise Violation("changes", "reading in a user's function changes the distributions")
        s = gen.simulate(spec, steps=0, hook=hook)
        bl = moment_matrix(spec)
        rank = gen_rank()
        now["s"] = s
        nsave = 0
        snaps = []
        for op in case["ops"]:
            if op[0] == "step":
                s.one_time_step()
                if not observe:
                    snaps.append(np.array([s.F[i] for i in range(s.container.F.nv)]))
            elif op[0] == "write":
                do_write(s, op)
            elif op[0] == "writem":
                # a moment alone is overwritten: the others stay those of the distributions, which do not change
                if not observe:
                    continue
                k, c = op[1:]
                s.m_halo[k] = c * np.array(s.container.F[0])
                if not np.array_equal(s.m_halo[k], c * np.array(s.container.F[0])):
                    raise Violation("moments", "the moment %d overwritten by the user is not the one read" % k)
                check_moments(spec, s, bl, stats, but=k)
                s.F_halo[0] = np.array(s.F_halo[0])     # from now on the moments are again those of the distributions
            elif observe and op[0] == "read" and op[1][r] is not None:
                ops = rank.nops
                before = s.container.F.array.copy()
                t = (s.t, s.nt)
                do_read(s, *op[1][r])
                if rank.nops != ops:
                    raise Violation("communicates", "reading %s communicates with other processes or blocks" % (op[1][r],))
                if (s.t, s.nt) != t or not np.array_equal(before, s.container.F.array):
                    raise Violation("changes", "reading %s changes the distributions or the time" % (op[1][r],))
                if op[1][r][0] in ("m", "m_halo", "msym", "slice"):
                    check_moments(spec, s, bl, stats)
            elif observe and op[0] == "save":
                h5 = world.pylbm().H5File(s.domain.mpi_topo, "o", "out", timestep=nsave)
                nsave += 1
                h5.set_grid(*s.domain.coords)
                h5.add_scalar("a", s.m[op[1]])
                h5.add_vector("b", [s.F[op[1]]] * spec["dim"])
                h5.save()
        nv = s.container.F.nv
        return np.array([s.F[i] for i in range(nv)]), np.array([s.m[i] for i in range(nv)]), (s.t, s.nt)

    from ..kernel import current

    def gen_rank():
        return current()[1]

    ref = world.run_world(n, lambda r: main(r, False), choices, case["sched"], gen.argv(spec))
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    if not all(np.isfinite(f).all() and np.abs(f).max() < 1e6 for f, m, t in ref.results):
        raise Invalid("unstable")
    os.mkdir("out")
    out = world.run_world(n, lambda r: main(r, True), choices, case["sched"], gen.argv(spec))
    stats.world(out)
    for r, e in enumerate(out.excs):
        if isinstance(e, Violation):
            raise Violation(e.kind, "process %d: %s" % (r, e), out)
    if not out.clean:
        raise Violation("fails", "the observed run: " + out.describe(), out)
    for r, (a, b) in enumerate(zip(ref.results, out.results)):
        for w, x, y in zip(("distributions", "moments"), a, b):
            if not np.array_equal(x, y):
                raise Violation("differs", "observing changes the %s of process %d, by up to %g" % (w, r, np.abs(x - y).max()), out)
        if a[2] != b[2]:
            raise Violation("time", "observing changes the time of process %d: %s instead of %s" % (r, b[2], a[2]), out)
    seen = False
    for i, o in enumerate(case["ops"]):
        if o[0] in ("read", "save"):
            stats.probe(o[0] + "s")
            if any(q[0] == "step" for q in case["ops"][i:]):
                seen = True
    stats.nontrivial = seen or bool(case.get("inside"))
    stats.sim_steps += sum(1 for o in case["ops"] if o[0] == "step")
