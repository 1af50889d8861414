"""C01: a parallel run computes exactly what the serial run computes."""
import random

import numpy as np

from .. import gen, kern, world
from ..result import Invalid, Violation, compare

ID = "C01"
RULE = ("random scheme family, box, offsets, labels, boundary methods, time dependent values, obstacles, source terms, storage order, "
        "uneven process grid, scheduling policy and MPI buffering; non-trivial: at least two context switches between processes; "
        "distinct: description and interleaving differ")
REAL = ["pylbm (domain, geometry, scheme, generated numpy kernels, storage, mpi_topology, boundary, simulation)", "numpy", "sympy"]
STUB = ["mpi4py.MPI (simulated network, byte exact datatypes)", "process scheduling", "sys.argv per run"]


# the parallel run differs from the serial one: listed in known-findings.txt
FINDING = {"dim": 2, "fam": "D2Q4d", "par": {"s": [0.631, 1.817, 1.413, 0.826], "c": [0.126, -0.172], "q": 0.05}, "n": [6, 7], "dx": 1.0, "x0": [-0.5, -0.5],
           "label": [1, 1, 0, 0], "bc": {"0": {"method": {"0": "AntiBounceBack"}, "value": {"seed": 40, "time": False}}, "1": {"method": {"0": "NeumannX"}}},
           "init": {"seed": 269, "type": "moments"}, "split": [6, 1], "auto": False, "nsteps": 1}


def gen_case(rng, tier, cython=None):
    if cython is None:
        cython = tier != "quick" and rng.random() < .08
    spec = gen.gen_spec(rng, maxranks=3, small=True) if cython else gen.gen_spec(rng)
    if cython:
        gen.cython(rng, spec)
    return {"spec": spec, "sched": gen.gen_sched(rng)}


def core(tier):
    yield {"spec": FINDING, "sched": {"policy": "uniform", "p_lazy": 0., "p_rdv": 0., "p_early": 0., "skew": 0., "reorder": False}, "finding": "neumann-corner"}
    # edges and corners of the subdomains: 3D schemes with diagonal velocities, split in several directions
    rng = random.Random(11)
    for split in ([1, 2, 2], [2, 1, 2], [2, 2, 1], [2, 2, 2]):
        for fam in ("D3Q8", "D3Q12"):
            spec = gen.gen_spec(rng, dims=(3,), fams={3: [fam]}, elements=False, periodic=fam == "D3Q8", small=True)
            spec = dict(spec, n=[max(4, k) for k in spec["n"]], split=split, auto=False, nsteps=2)
            gen.widen(spec)
            yield {"spec": spec, "sched": gen.gen_sched(rng)}
    for k in range(6):
        yield gen_case(random.Random(k + (0 if tier == "quick" else 1000)), tier, cython=True)


def run(case, choices, stats):
    spec = case["spec"]
    if spec.get("generator") == "cython":
        kern.fast_cc()
        stats.probe("cython")

    def main(r):
        snaps = []
        s = gen.simulate(spec, each=lambda s: snaps.append(gen.fields(s)))
        return gen.region(s), snaps, np.array(s.domain.in_or_out), s.domain.valin

    ref = world.run_serial(main)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    _, rsnaps, _, _ = ref.results[0]
    if not all(np.isfinite(f).all() and np.abs(f).max() < 1e6 for m, f in rsnaps):
        raise Invalid("unstable")
    out = world.run_world(gen.nranks(spec), main, choices, case["sched"], gen.argv(spec))
    stats.world(out)
    if not out.clean:
        raise Violation("parallel-fails", "the serial run succeeds, the parallel run: " + out.describe(), out)
    for it in range(len(rsnaps)):
        for what in (0, 1):
            compare("mF"[what], rsnaps[it][what], [(reg, s[it][what]) for reg, s, _, _ in out.results], "step %d" % it)
    stats.sim_steps += spec["nsteps"]
