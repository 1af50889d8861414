"""C19: a time step done phase by phase is the time step."""
import random

import numpy as np

from .. import gen, kern, world
from ..kernel import current
from ..result import Invalid, Violation
from . import c12

ID = "C19"
RULE = ("random description (sources, boundary methods, obstacles, storage orders, numpy and for some runs cython) on 1 to 4 processes; each step of a history is done whole or by its phases "
        "(boundary_condition, transport, f2m, source terms, relaxation, source terms, m2f), mixed with passages to the moments and back and to the equilibrium; moments and distributions are "
        "read between the phases, differently on each process, and must be those of the last phase; every state of the fluid points is compared with the history of whole steps which nobody observes; "
        "non-trivial: a step done by its phases")
REAL = ["pylbm (algorithm, kernels, boundary methods, storage, simulation)", "numpy", "sympy", "for some runs: cython and the C compiler"]
STUB = ["mpi4py.MPI (simulated network, byte exact datatypes)", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 45, "thorough": 600}
PHASES = ["bc", "transport", "f2m", "source", "relaxation", "source", "m2f"]


def gen_case(rng, tier, cython=None):
    if cython is None:
        cython = tier != "quick" and rng.random() < .06
    spec = gen.gen_spec(rng, maxranks=2 if cython else 4, small=cython or rng.random() < .7)
    spec.pop("relvel", None)         # known finding: see FINDING
    if rng.random() < .3:
        spec["split"], spec["auto"] = [1] * spec["dim"], True
    if spec.get("source"):
        spec["source_one"] = rng.random() < .5
    if cython:
        gen.cython(rng, spec)
        spec.pop("algo", None)
    n = gen.nranks(spec)
    nv = gen.nv_of(spec)
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["step", "phases", "phases", "phases", "round", "m2f", "equil"])
        reads = []
        if rng.random() < .6:
            for r in range(n):
                reads += [[r, rng.randrange(7), rng.choice(["m", "m", "msym", "m_halo", "F", "F_halo", "str"]), rng.randrange(nv)] for _ in range(rng.choice([0, 1, 1, 3]))]
        ops.append([k, reads])
    if not any(o[0] == "phases" for o in ops):
        ops.append(["phases", []])
    return {"spec": spec, "ops": ops, "sched": gen.gen_sched(rng)}


FINDING = {"dim": 1, "fam": "D1Q3r2", "par": {"s": [1.4, 1.1, 1., 1.], "c": [.2, .1], "q": .3}, "n": [6], "dx": .125, "x0": [.3], "label": [-1, -1], "relvel": ["const", .2],
           "init": {"seed": 5, "type": "moments"}, "split": [1], "auto": True, "nsteps": 1}


def core(tier):
    yield {"spec": FINDING, "sched": {"policy": "uniform", "p_lazy": 0., "p_rdv": 0., "p_early": 0., "skew": 0., "reorder": False}, "ops": [["phases", []]], "finding": "relvel-phases"}
    for k in range(4):
        yield gen_case(random.Random(k + (50 if tier == "quick" else 2000)), tier, cython=True)


def shrink(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    for i, (k, reads) in enumerate(case["ops"]):
        for j in range(len(reads)):
            yield dict(case, ops=case["ops"][:i] + [[k, reads[:j] + reads[j + 1:]]] + case["ops"][i + 1:])


def body(case, whole, stats=None):
    spec = case["spec"]
    consm = gen.consm_of(spec)

    def main(r):
        s = gen.simulate(spec, steps=0)
        nv = s.container.F.nv
        snaps = []
        bl = c12.moment_matrix(spec)
        state = {"last": "F", "m": None}

        def after(what):
            if what in ("bc", "transport", "m2f"):
                state["last"], state["m"] = "F" if what != "m2f" else state["last"], None
            elif what == "f2m":
                state["last"], state["m"] = "F", None
            else:
                state["last"], state["m"] = "m", None

        def reads(todo, i):
            rank = current()[1]
            for _, _, what, k in [x for x in todo if x[0] == r and x[1] == i]:
                n = rank.nops
                before = s.container.F.array.copy()
                c12.do_read(s, what, k)
                if rank.nops != n:
                    raise Violation("communicates", "reading %s between the phases communicates" % what)
                if not np.array_equal(before, s.container.F.array):
                    raise Violation("changes", "reading %s between the phases changes the distributions" % what)
                if what in ("m", "msym", "m_halo"):
                    m = np.array([s.m[j] for j in range(nv)])
                    if state["last"] == "F":
                        c12.check_moments(spec, s, bl, stats)
                    elif state["m"] is not None and not np.array_equal(m, state["m"]):
                        raise Violation("changes", "the moments read twice after the same phase differ")
                    state["m"] = m
                stats.probe("reads between phases")

        for k, todo in case["ops"]:
            if k == "step" or k == "phases" and whole:
                s.one_time_step()
                after("bc")
            elif k == "phases":
                i = 0
                for ph in PHASES:
                    if ph == "bc":
                        s.boundary_condition()
                    elif ph == "source":
                        if not spec.get("source"):
                            continue
                        s.source_term(.5)
                    else:
                        getattr(s, ph)()
                    after(ph)
                    reads(todo, i)
                    i += 1
                s.t += s.dt
                s.nt += 1
            elif k == "round" and not whole:
                s.f2m()
                after("f2m")
                reads(todo, 0)
                s.m2f()
                after("m2f")
            elif k == "m2f" and not whole:
                s.m2f()
                after("m2f")
                reads(todo, 0)
            elif k == "equil":
                s.f2m()
                after("f2m")
                if not whole:
                    reads(todo, 0)
                s.equilibrium()
                after("equilibrium")
                if not whole:
                    reads(todo, 1)
                s.m2f()
                after("m2f")
                if not whole:
                    reads(todo, 2)
            snaps.append((gen.fields(s)[1], np.array([np.array(s.m[c]) for c in consm]), s.nt, float(s.t)))
            state["m"] = None
        inner = tuple(slice(int(v), -int(v)) if v else slice(None) for v in s.domain.stencil.vmax[:spec["dim"]])
        return np.array(s.domain.in_or_out[inner] == s.domain.valin), snaps
    return main


def run(case, choices, stats):
    spec = case["spec"]
    if spec.get("generator") == "cython":
        kern.fast_cc()
        stats.probe("cython")
    n = gen.nranks(spec)
    ref = world.run_world(n, body(case, True), choices, case["sched"], gen.argv(spec))
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    for fl, snaps in ref.results:
        if not all(np.isfinite(f[:, fl]).all() and (not fl.any() or np.abs(f[:, fl]).max() < 1e4) for f, _, _, _ in snaps):
            raise Invalid("unstable")
    out = world.run_world(n, body(case, False, stats), choices, case["sched"], gen.argv(spec))
    stats.world(out)
    stats.nontrivial = True
    for r, e in enumerate(out.excs):
        if isinstance(e, Violation):
            raise Violation(e.kind, "process %d: %s" % (r, e), out)
    if not out.clean:
        raise Violation("fails", "the history by phases: " + out.describe(), out)
    for r, ((fl, a), (_, b)) in enumerate(zip(ref.results, out.results)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x[2:] != y[2:]:
                raise Violation("time", "process %d after operation %d: step and time %s instead of %s" % (r, i, y[2:], x[2:]), out)
            for name, p, q in (("distributions", x[0], y[0]), ("conserved moments", x[1], y[1])):
                bad = ~np.isclose(q, p, rtol=1e-8, atol=1e-10 * max(1., np.abs(p[:, fl]).max() if fl.any() else 1.)) & fl
                if bad.any():
                    j = tuple(int(v[0]) for v in np.where(bad))
                    raise Violation("differs", "process %d after operation %d (%s): %d values of the %s differ from those of whole steps, first %d at %s: %r instead of %r"
                                    % (r, i, case["ops"][i][0], bad.sum(), name, j[0], list(j[1:]), float(q[j]), float(p[j])), out)
                stats.probe("states compared")
    for k, _ in case["ops"]:
        stats.probe("operations: " + k)
    stats.sim_steps += sum(1 for k, _ in case["ops"] if k in ("step", "phases"))
