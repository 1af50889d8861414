"""C11: a time step that fails in user code can be retried."""
import numpy as np

from .. import gen, world
from ..kernel import current
from ..result import Invalid, Violation

ID = "C11"
RULE = ("random descriptions with constant and time dependent boundary values on several labels and methods, 1 to 5 processes; the n-th call of the "
        "user's function of one label at one step raises (once or several times, with different exceptions), also during the delayed initialisation; "
        "the caller repeats the step; compared with the execution which never fails; non-trivial: a call raised")
REAL = ["pylbm", "numpy", "sympy"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "sys.argv per run", "user functions (raise on demand)"]
BUDGET = {"quick": 40, "thorough": 900}


class UserError(Exception):
    pass


EXCS = {"user": UserError, "zero": ZeroDivisionError, "kbd": KeyboardInterrupt, "value": ValueError, "exit": SystemExit}


def gen_case(rng, tier):
    spec = gen.gen_spec(rng, dims=(1, 1, 2, 2, 2, 3), periodic=False if rng.random() < .8 else None, maxranks=5, source=rng.random() < .2)
    for b in spec["bc"].values():
        if rng.random() < .85:
            b["value"] = {"seed": rng.randrange(100), "time": rng.random() < .85}
    spec["nsteps"] = rng.randint(2, 7)
    lazy = rng.random() < .25
    nf = rng.choice([1, 1, 2, 3])
    return {"spec": spec, "sched": gen.gen_sched(rng), "lazy": lazy, "serial": rng.random() < .5,
            "fails": [{"pick": rng.randrange(1000), "call": rng.choice([0, 0, 0, 1, 2]), "times": rng.choice([1, 1, 2, 3]),
                       "exc": rng.choice(sorted(EXCS)), "ranks": None if rng.random() < .4 else rng.randrange(1, 32)} for _ in range(nf)],
            "init_fail": lazy and rng.random() < .4}


def interior(s):
    vm = [int(v) for v in s.domain.stencil.vmax]
    sl = tuple(slice(v, -v) if v else slice(None) for v in vm)
    mask = s.domain.in_or_out[sl] == s.domain.valin
    m, f = gen.fields(s)
    return m[:, mask], f[:, mask]


def run(case, choices, stats):
    spec = case["spec"]
    if case["serial"]:
        spec = dict(spec, split=[1] * spec["dim"], auto=True)
    n = gen.nranks(spec)
    plan = {}   # (label, step or -1 for the initialisation) -> failure

    def hit(f, r):
        """The failure concerns the process r (all of them, or some only: the others wait for it)."""
        return f["ranks"] is None or f["ranks"] >> (r % 5) & 1

    def main(r, inject):
        p = world.pylbm()
        log = []
        state = {"step": -1, "armed": {}, "init": 0}

        def hook(label, t, nargs):
            key = (label, state["step"])
            log.append(key)
            if not inject:
                return
            f = plan.get(key)
            if f is None or not hit(f, r):
                return
            c = state["armed"].setdefault(key, {"calls": 0, "raised": 0})
            if c["raised"] < f["times"]:
                c["calls"] += 1
                if c["calls"] > f["call"] or c["raised"]:
                    c["raised"] += 1
                    stats.fault("exception in a boundary value")
                    raise EXCS[f["exc"]]("on demand")

        def ihook(i):
            if inject and case["init_fail"] and state["init"] == 0:
                state["init"] = 1
                stats.fault("exception in an initial value")
                raise UserError("initial value")
        d = gen.dico(spec, hook=hook, init_hook=ihook)
        s = p.Simulation(d, sorder=spec.get("sorder"), initialize=not case["lazy"])
        snaps = []
        for it in range(spec["nsteps"]):
            first = case["lazy"] and it == 0
            state["step"] = it if not first else -1
            tries = 0
            before = None if first else interior(s)
            while True:
                t = (s.t, s.nt)
                nlog = len(log)
                try:
                    s.one_time_step()
                    break
                except (UserError, ZeroDivisionError, KeyboardInterrupt, ValueError, SystemExit) as e:
                    if "on demand" not in str(e) and "initial value" not in str(e):
                        raise
                    tries += 1
                    if tries > 12:
                        raise
                    if (s.t, s.nt) != t:
                        raise Violation("time", "time and step were %s before the failing step, they are %s after it" % (t, (s.t, s.nt)))
                    if before is not None:
                        after = interior(s)
                        for w, a, b in zip("mF", before, after):
                            if not np.array_equal(a, b):
                                raise Violation("fields", "%s in the fluid has changed in the failing step %d, by up to %g" % (w, it, np.abs(a - b).max()))
            for k, f in plan.items():
                if inject and hit(f, r) and k[1] == state["step"] and k[0] in [q[0] for q in log if q[1] == k[1]] and state["armed"].get(k, {}).get("raised", 0) != f["times"] and f["call"] == 0:
                    raise Violation("swallowed", "the exception of the user's function of label %d in step %d did not reach the caller" % k)
            if tries:
                stats.probe("steps repeated")
            snaps.append(interior(s) + (s.t, s.nt))
        return {"log": log, "snaps": snaps}

    argv = gen.argv(spec) if not case["serial"] else []
    ref = world.run_world(n, lambda r: main(r, False), choices, case["sched"], argv)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    if not all(np.isfinite(x[1]).all() and (not x[1].size or np.abs(x[1]).max() < 1e6) for o in ref.results for x in o["snaps"]):
        raise Invalid("unstable")
    # the calls made by the processes
    count = [{} for _ in range(n)]
    for r, o in enumerate(ref.results):
        for k in o["log"]:
            count[r][k] = count[r].get(k, 0) + 1
    common = sorted(set.union(*[set(c) for c in count]))
    if not case["lazy"]:
        common = [k for k in common if k[1] >= 0]
    for f in case["fails"]:
        if common:
            k = common[f["pick"] % len(common)]
            g = dict(f)
            g["call"] = min(f["call"], min(c[k] for c in count if k in c) - 1)
            plan[k] = g
    out = world.run_world(n, lambda r: main(r, True), choices, case["sched"], argv)
    stats.world(out)
    stats.nontrivial = bool(stats.faults)
    stats.sim_steps += 2 * spec["nsteps"]
    for r, e in enumerate(out.excs):
        if isinstance(e, Violation):
            raise Violation(e.kind, "process %d: %s" % (r, e), out)
    if not out.clean:
        raise Violation("fails", "repeating the failed steps: " + out.describe(), out)
    for r, (a, b) in enumerate(zip(ref.results, out.results)):
        for it, (x, y) in enumerate(zip(a["snaps"], b["snaps"])):
            for w, u, v in zip("mF", x, y):
                if not np.array_equal(u, v):
                    raise Violation("differs", "process %d: %s in the fluid after step %d is not the one of the execution without failure, by up to %g"
                                    % (r, w, it, np.abs(u - v).max()), out)
            if x[2:] != y[2:]:
                raise Violation("time", "process %d: time %s instead of %s after step %d" % (r, y[2:], x[2:], it), out)
