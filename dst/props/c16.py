"""C16: a split that cannot be computed is refused, not computed wrongly."""
import numpy as np

from .. import gen, world
from ..result import Invalid, Violation, compare

ID = "C16"
RULE = ("stencils of reach 1 to 3, grid sizes at and below the limit where every process has as many points as the stencil reaches, fewer points "
        "than processes, process grids whose product is not the number of processes, automatic grids; non-trivial: at least two context switches")
REAL = ["pylbm", "numpy", "sympy"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 40, "thorough": 900}
FAMS = {1: ["D1Q3", "D1Q5", "D1Q3r2", "D1Q3r3", "D1mix"], 2: ["D2Q4", "D2Q4d", "D2Q9r2", "D2Q5a", "D2Q5b"], 3: ["D3Q6"]}


def gen_case(rng, tier):
    mode = rng.choice(["thin", "thin", "thin", "thin", "thin", "fewer", "product"])
    spec = gen.gen_spec(rng, dims=(1, 2, 3, 3) if mode == "product" else (1, 1, 1, 2, 2, 3), fams=FAMS, elements=rng.random() < .3, maxranks=6, source=False, values=rng.random() < .3)
    dim, rch = spec["dim"], gen.reach(spec["fam"])
    spec["nsteps"] = rng.randint(1, 4)
    s = spec["split"]
    n = gen.nranks(spec)
    spec["ranks"] = n
    if mode == "product":
        # a grid which does not match the number of processes
        spec["auto"] = False
        spec["ranks"] = max(1, min(8, rng.choice([n - 1, n + 1, n + 2, 2 * n, 2 * n, n // 2])))
        if spec["ranks"] == n or n == 1:
            spec["ranks"] = n + 1
    else:
        axes = [a for a in range(dim) if s[a] > 1]
        a = rng.choice(axes) if axes else 0
        top = rch[a] * s[a]
        if mode == "fewer":
            spec["n"][a] = rng.randint(1, max(1, s[a] - 1))
        else:
            spec["n"][a] = max(1, top + rng.choice([-1, -1, -2, 0, 0, 1, s[a] - 1, -rch[a]]))
        if "elements" in spec and rng.random() < .5:
            del spec["elements"]
            labels = set(spec["label"])
            spec["bc"] = {k: v for k, v in spec["bc"].items() if int(k) in labels}
    gen.widen(spec)
    return {"spec": spec, "sched": gen.gen_sched(rng), "mode": mode}


def run(case, choices, stats):
    spec = case["spec"]
    dim = spec["dim"]
    rch = gen.reach(spec["fam"])
    n, s = spec["n"], spec["split"]
    R = spec["ranks"]

    def main(r):
        snaps = []
        sim = gen.simulate(spec, each=lambda s: snaps.append(gen.fields(s)))
        return gen.region(sim), snaps

    split = list(s)
    if all(x == 1 for x in (split + [1, 1])[:3]):
        from ..fakempi import Compute_dims
        split = list(Compute_dims(R, dim))
    mismatch = int(np.prod(split)) != R
    small = any(n[a] // split[a] < rch[a] for a in range(dim))
    out = world.run_world(R, main, choices, case["sched"], gen.argv(spec))
    stats.world(out)
    if all(isinstance(e, BaseException) for e in out.excs):
        if not mismatch and not small:
            ref = world.run_serial(main)
            if ref.clean:
                raise Violation("refused", "%s points on the grid %s with reach %s can be computed, but: %s" % (n, split, rch, out.describe()), out)
            raise Invalid(ref.describe())
        stats.probe("refused")
        return
    if out.kind != "ok" or any(out.excs):
        raise Violation("half", "%s points on the grid %s (%d processes) with reach %s: not all the processes fail: %s" % (n, split, R, rch, out.describe()), out)
    if mismatch:
        raise Violation("accepted", "the grid %s is accepted on %d processes" % (split, R), out)
    ref = world.run_serial(main)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    rsnaps = ref.results[0][1]
    if not all(np.isfinite(f).all() and np.abs(f).max() < 1e6 for m, f in rsnaps):
        raise Invalid("unstable")
    for it in range(len(rsnaps)):
        for what in (0, 1):
            try:
                compare("mF"[what], rsnaps[it][what], [(reg, s[it][what]) for reg, s in out.results], "step %d" % it)
            except Violation as e:
                raise Violation("wrong", "%s points on the grid %s with reach %s are accepted but computed wrongly: %s" % (n, split, rch, e), out)
    stats.probe("computed" + (" (too small)" if small else ""))
    stats.sim_steps += spec["nsteps"]
