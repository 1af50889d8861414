"""C03: a parallel run makes progress and leaves no communication behind."""
import os

import numpy as np

from .. import gen, world
from ..result import Invalid, Violation

ID = "C03"
RULE = ("random description, up to 8 processes, construction, steps, outputs at random steps, reads; scheduling policy (uniform, priority based, "
        "starving one process, network last/first), eager/lazy/rendezvous sends; non-trivial: at least two context switches")
REAL = ["pylbm (construction, steps, output)", "h5py/HDF5 on a scratch directory", "numpy", "sympy"]
STUB = ["mpi4py.MPI (simulated network with eager, lazy and rendezvous sends)", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 45, "thorough": 1200}
MAX_STEPS = 60000


def gen_case(rng, tier):
    spec = gen.gen_spec(rng, dims=(1, 1, 2, 2, 2, 3), maxranks=8, minwidth=1)
    sched = gen.gen_sched(rng)
    if rng.random() < .4:
        sched.update(p_rdv=1.0, p_lazy=0.)
    sched["max_steps"] = MAX_STEPS
    ops = []
    for k in range(spec["nsteps"]):
        if rng.random() < .4:
            ops.append([k, "save", rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 2, 3, 3])])
        if rng.random() < .3:
            ops.append([k, "read", rng.randrange(8), 0])
    return {"spec": spec, "sched": sched, "ops": ops}


def save(s, k, nscal, ncomp, dirname):
    h5 = world.pylbm().H5File(s.domain.mpi_topo, "out", dirname, timestep=k)
    h5.set_grid(*s.domain.coords)
    for i in range(nscal):
        h5.add_scalar("s%d" % i, s.m[i % s.container.m.nv])
    if ncomp:
        h5.add_vector("v", [np.array(s.F[j % s.container.F.nv]) for j in range(ncomp)])
    h5.save()


def run(case, choices, stats):
    spec = case["spec"]

    def main(r, dirname="out"):
        s = gen.simulate(spec, steps=0)
        for k in range(spec["nsteps"]):
            for o in case["ops"]:
                if o[0] == k and o[1] == "save":
                    save(s, k, o[2], o[3], dirname)
                elif o[0] == k and o[2] % (r + 2) == 0:
                    s.m[0], s.m_halo[0]
            s.one_time_step()
        return s.nt

    os.mkdir("ser")
    ref = world.run_serial(lambda r: main(r, "ser"))
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    os.mkdir("out")
    n = gen.nranks(spec)
    out = world.run_world(n, main, choices, case["sched"], gen.argv(spec))
    stats.world(out)
    stats.sim_steps += spec["nsteps"]
    if out.kind == "deadlock":
        raise Violation("deadlock", out.describe(), out)
    if out.kind == "steps":
        raise Violation("no-progress", out.describe(), out)
    if out.protocol:
        raise Violation("protocol", "; ".join(out.protocol[:5]), out)
    if not out.clean:
        raise Violation("fails", "the serial run succeeds, the parallel run: " + out.describe(), out)
    if out.leaks:
        raise Violation("leak", "left behind at the end: " + "; ".join(out.leaks[:6]), out)
    if out.results != [spec["nsteps"]] * n:
        raise Violation("steps", "step counts %s" % out.results, out)
    if case["ops"]:
        stats.probe("runs with outputs or reads")
