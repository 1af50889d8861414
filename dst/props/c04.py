"""C04: conserved quantities are conserved globally."""
import numpy as np

from .. import gen, world
from ..result import Invalid, Violation

ID = "C04"
RULE = ("random description without source terms: fully periodic box (every conserved moment), or box closed by periodic sides and "
        "bounce-back walls and obstacles at rest, clear of the periodic sides (first conserved moment of every scheme over the fluid points); 1 to 8 processes; "
        "non-trivial: at least two context switches")
REAL = ["pylbm", "numpy", "sympy"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 45, "thorough": 1200}


def gen_case(rng, tier):
    if rng.random() < .45:
        spec = gen.gen_spec(rng, periodic=True, elements=False, values=False, source=False, maxranks=8)
    else:
        spec = gen.gen_spec(rng, values=False, source=False, bcs=["BounceBack"], maxranks=8, fluid=False,
                            periodic=None if rng.random() < .6 else False)
        gen.away_from_periodic_sides(spec)
    spec["nsteps"] = rng.randint(2, 8)
    return {"spec": spec, "sched": gen.gen_sched(rng)}


def conserved(d, closed, order):
    """The symbols of the quantities that must be conserved; order: the density of each scheme before its momentum."""
    out = []
    for s in d["schemes"]:
        cm = s["conserved_moments"]
        cm = sorted(cm, key=order.index) if isinstance(cm, (list, tuple)) else [cm]
        out += cm[:1] if closed else cm
    return out


def run(case, choices, stats):
    spec = case["spec"]
    closed = any(l >= 0 for l in spec["label"]) or bool(spec.get("elements"))

    def main(r):
        d = gen.dico(spec)
        syms = conserved(d, closed, gen.consm_of(spec))
        sums = []

        def each(s):
            v = [int(x) for x in s.domain.stencil.vmax]
            sl = tuple(slice(x, -x) if x else slice(None) for x in v)
            mask = s.domain.in_or_out[sl] == s.domain.valin
            f = gen.fields(s)[1]
            sums.append([float(s.m[c][mask].sum()) for c in syms] + [float(np.abs(f).max()), float(np.abs(f[:, mask]).sum())])
        gen.simulate(spec, each=each, d=d)
        return np.array(sums)

    n = gen.nranks(spec)
    out = world.run_world(n, main, choices, case["sched"], gen.argv(spec))
    stats.world(out)
    stats.sim_steps += spec["nsteps"]
    if not out.clean:
        raise Invalid(out.describe(), out)
    tot = sum(out.results)
    if not np.isfinite(tot).all() or max(r[:, -2].max() for r in out.results) > 1e4:
        raise Invalid("unstable")
    scale = tot[:, -1].max()
    for k in range(tot.shape[1] - 2):
        d = np.abs(tot[:, k] - tot[0, k])
        if (d > 1e-11 * scale + 1e-13).any():
            it = int(np.argmax(d > 1e-11 * scale + 1e-13))
            raise Violation("not-conserved", "conserved moment %d of a %s domain on %d processes: the sum is %r initially and %r after step %d"
                            % (k, "closed" if closed else "periodic", n, tot[0, k], tot[it, k], it), out)
    stats.probe("closed domains" if closed else "periodic domains")
    if spec.get("elements"):
        stats.probe("domains with obstacles")
    if n == 1:
        stats.nontrivial = True
