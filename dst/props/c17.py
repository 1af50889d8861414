"""C17: every history of operations on a simulation is the one of the lattice Boltzmann scheme of its description."""
import random

import numpy as np

from .. import gen, kern, model, world
from ..result import Invalid, Violation

ID = "C17"
RULE = ("random scheme family, box, boundary methods with and without (time dependent) values, obstacles, sources, relative velocity, storage order, process grid, numpy and "
        "for some runs cython; random sequences of time steps, collisions alone, boundary updates, reads, overwritten distributions and initial states, relaxation parameters given or changed at run time; after each "
        "operation the conserved moments and all distributions of the fluid points are compared with a reference model that uses global arrays and the symbolic "
        "description only (the position of the walls is that of the domain on one process); non-trivial: the model ran at least one step")
REAL = ["pylbm (scheme, algorithm, code generation, kernels, boundary methods, storage, halo exchange, simulation)", "numpy", "sympy", "for some runs: cython and the C compiler"]
STUB = ["mpi4py.MPI (simulated network, byte exact datatypes)", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 50, "thorough": 900}


def gen_case(rng, tier, cython=None):
    if cython is None:
        cython = tier != "quick" and rng.random() < .06
    spec = gen.gen_spec(rng, maxranks=2 if cython else 4, small=cython or rng.random() < .6)
    if rng.random() < .35 or cython and rng.random() < .6:
        spec["split"], spec["auto"] = [1] * spec["dim"], True
    if spec.get("source"):
        spec["source_one"] = rng.random() < .5
        if spec.get("relvel"):
            del spec["relvel"]       # known finding: see FINDING
    if cython:
        gen.cython(rng, spec)
    if rng.random() < .2:
        spec["symrelax"] = spec["late"] = True
    ops = []
    kinds = ["step"] * 5 + ["F", "F1", "state", "bc", "read"] + ([] if spec.get("relvel") or spec.get("source") else ["collide"])
    if spec.get("late"):
        kinds += ["param", "param", "stepkw"]
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(kinds)
        ops.append([k, rng.randrange(100)])
    if not any(o[0] in ("step", "stepkw") for o in ops):
        ops.append(["step", 0])
    return {"spec": spec, "sched": gen.gen_sched(rng), "ops": ops}


# a source with a relative velocity: listed in known-findings.txt
FINDING = {"dim": 1, "fam": "D1Q2", "par": {"s": [1.4, 1., 1., 1.], "c": [.2, .1], "q": 0.}, "n": [6], "dx": .125, "x0": [.3], "label": [-1, -1], "relvel": ["const", .2],
           "source": "const", "init": {"seed": 5, "type": "moments"}, "split": [1], "auto": True, "nsteps": 1}


def core(tier):
    yield {"spec": FINDING, "sched": {"policy": "uniform", "p_lazy": 0., "p_rdv": 0., "p_early": 0., "skew": 0., "reorder": False}, "ops": [["step", 0]],
           "finding": "relvel-source"}
    quiet = {"policy": "uniform", "p_lazy": 0., "p_rdv": 0., "p_early": 0., "skew": 0., "reorder": False}
    one = dict({k: v for k, v in FINDING.items() if k not in ("relvel", "source")}, fam="D1Q3", perm=0)
    yield {"spec": one, "sched": quiet, "ops": [["step", 0], ["step", 1]]}
    yield {"spec": dict(one, matrix=True, perm=1), "sched": quiet, "ops": [["step", 0], ["step", 1]]}
    yield {"spec": dict(one, relvel=["mom", .2], algo={"class": "base"}), "sched": quiet, "ops": [["step", 0], ["step", 1]]}
    two = dict(one, dim=2, fam="D2Q9", n=[5, 4], x0=[0., .3], label=[-1, -1, 0, 1], split=[1, 1], perm=2,
               bc={"0": {"method": {"0": "BounceBack"}}, "1": {"method": {"0": "BouzidiBounceBack"}, "value": {"seed": 3, "time": True}}})
    yield {"spec": two, "sched": quiet, "ops": [["step", 0], ["step", 1]]}
    yield {"spec": dict(two, relvel=["const", .1, -.05], algo={"class": "base"}), "sched": quiet, "ops": [["step", 0], ["step", 1]]}
    for k in range(4):
        yield gen_case(random.Random(k + (50 if tier == "quick" else 2000)), tier, cython=True)


def values(seed, k, dim, coords):
    return gen.wave(seed + 31 * k, dim, .02, .1 + .01 * k)(*coords)


def state(seed, i, dim, coords):
    return gen.wave(seed + 7 * i, dim, .1 * (1 if i == 0 else .3), gen._base(i))(*coords)


def relaxation(seed):
    return .7 + 1.2 * ((seed * 37) % 100) / 100


def body(spec, ops):
    dim = spec["dim"]

    def main(r):
        snaps = []
        consm = gen.consm_of(spec)

        def look(s):
            snaps.append((np.array([np.array(s.m[c]) for c in consm]), gen.fields(s)[1], s.nt, float(s.t)))
        s = gen.simulate(spec, steps=0)
        late = gen.late_parameters(spec) if spec.get("late") else []
        for _, _, sy, v in late:
            s.extra_parameters[sy] = v
        look(s)
        nv = s.container.F.nv
        halo = np.meshgrid(*s.domain.coords_halo, sparse=True, indexing="ij")
        for k, seed in ops:
            if k == "step":
                s.one_time_step()
            elif k == "param":
                s.extra_parameters[late[seed % len(late)][2]] = relaxation(seed)
            elif k == "stepkw":
                s.one_time_step(**{late[seed % len(late)][2].name: relaxation(seed)})
            elif k == "F":
                for i in range(nv):
                    s.F_halo[i] = values(seed, i, dim, halo)
            elif k == "F1":
                s.F_halo[seed % nv] = values(seed, seed % nv, dim, halo)
            elif k == "state":
                for i, c in enumerate(consm):
                    s.m_halo[c] = state(seed, i, dim, halo)
                s.equilibrium()
                s.m2f()
            elif k == "bc":
                s.boundary_condition()
            elif k == "collide":
                s.f2m()
                s.relaxation()
                s.m2f()
            elif k == "read":
                str(s), s.m[consm[0]].sum(), s.F[0].sum()
            look(s)
        return gen.region(s), snaps
    return main


def run(case, choices, stats):
    spec, ops = case["spec"], case["ops"]
    dim = spec["dim"]
    if spec.get("generator") == "cython":
        kern.fast_cc()
        stats.probe("cython")

    ref = world.run_serial(lambda r: model.geometry(world.pylbm().Domain(gen.dico(spec))))
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    geo = ref.results[0]
    fluid = geo["fluid"]
    if not fluid.any():
        raise Invalid("no fluid point")
    md = model.Model(spec, geo)
    late = gen.late_parameters(spec) if spec.get("late") else []
    want = []
    xs = np.meshgrid(*geo["coords"], sparse=True, indexing="ij")

    def look():
        m = md.moments()
        want.append((np.array([m[c] for c in md.consm]), md.all(), md.nt, md.t))
    with np.errstate(all="ignore"):
        md.initialise()
        look()
        for k, seed in ops:
            if k == "step":
                md.step()
                stats.sim_steps += 1
            elif k in ("param", "stepkw"):
                i, j, _, _ = late[seed % len(late)]
                old = md.s[i][j]
                md.s[i][j] = relaxation(seed)
                if k == "stepkw":
                    md.step()
                    md.s[i][j] = old
                    stats.sim_steps += 1
            elif k == "F":
                q = 0
                for i in range(len(md.vel)):
                    for j in range(len(md.vel[i])):
                        md.F[i][j] = values(seed, q, dim, xs)
                        q += 1
            elif k == "F1":
                q = seed % md.nv
                i = int(np.searchsorted(md.ptr, q, side="right")) - 1
                md.F[i][q - md.ptr[i]] = values(seed, q, dim, xs)
            elif k == "state":
                md.set_equilibrium({c: np.broadcast_to(state(seed, i, dim, xs), md.n) * 1. for i, c in enumerate(md.consm)})
            elif k == "collide":
                md.collide()
            look()
    for m, f, _, _ in want:
        v = f[:, fluid]
        if np.isinf(v).any() or np.isfinite(v).any() and np.abs(v[np.isfinite(v)]).max() > 1e3:
            raise Invalid("unstable")
    out = world.run_world(gen.nranks(spec), body(spec, ops), choices, case["sched"], gen.argv(spec))
    stats.world(out)
    stats.nontrivial = True
    if not out.clean:
        raise Violation("fails", out.describe(), out)
    for r, (reg, snaps) in enumerate(out.results):
        sl = tuple(slice(a, b) for a, b in reg)
        fl = fluid[sl]
        for it, (m, f, nt, t) in enumerate(snaps):
            wm, wf, wnt, wt = want[it]
            op = "the construction" if it == 0 else "operation %d %s" % (it - 1, ops[it - 1])
            if nt != wnt or abs(t - wt) > 1e-9 * md.dt * (wnt + 1):
                raise Violation("time", "process %d after %s: step %s, time %s instead of %s, %s" % (r, op, nt, t, wnt, wt), out)
            for name, a, b in (("conserved moment", m, wm), ("distribution", f, wf)):
                b = b[(slice(None),) + sl]
                if a.shape != b.shape:
                    raise Violation("shape", "process %d after %s: shape %s instead of %s" % (r, op, a.shape, b.shape), out)
                known = fl & np.isfinite(b)
                bad = (~np.isclose(a, b, rtol=1e-7, atol=1e-9 * max(1., np.abs(b[known]).max() if known.any() else 1.))) & known
                stats.probe("values compared", int(known.sum()))
                stats.probe("values not specified", int((fl & ~known).sum()))
                if bad.any():
                    i = tuple(int(x[0]) for x in np.where(bad))
                    raise Violation("differs", "process %d after %s: %d of %d values of the %ss of the fluid points are not those of the model, first %s %d at %s: %r instead of %r"
                                    % (r, op, bad.sum(), known.sum(), name, name, i[0], list(i[1:]), float(a[i]), float(b[i])), out)
            stats.probe("states compared")
    for k, _ in ops:
        stats.probe("operations: " + k)
