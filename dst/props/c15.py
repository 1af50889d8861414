"""C15: all processes share one time line and boundary values follow it."""
import copy

import numpy as np

from .. import gen, world
from ..result import Invalid, Violation

ID = "C15"
RULE = ("random descriptions with constant and time dependent boundary values on several labels and methods, also on obstacles, 1 to 8 processes, "
        "up to 12 steps, scheme velocities different from 1; the calls of the user's functions are recorded with time and positions; "
        "non-trivial: at least two context switches")
REAL = ["pylbm", "numpy", "sympy"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "sys.argv per run", "user functions (recorded)"]
BUDGET = {"quick": 40, "thorough": 900}


def gen_case(rng, tier):
    spec = gen.gen_spec(rng, periodic=None if rng.random() < .3 else False, maxranks=8, source=rng.random() < .2)
    for b in spec["bc"].values():
        if rng.random() < .75:
            b["value"] = {"seed": rng.randrange(100), "time": rng.random() < .6}
            if rng.random() < .2:
                b["value"]["args"] = [3, "x"]
    spec["nsteps"] = rng.randint(2, 12 if spec["dim"] == 1 else 6)
    frozen = any(b.get("value", {}).get("time") for b in spec["bc"].values()) and rng.random() < .6
    if frozen and gen.nranks(spec) > 3:
        spec.pop("relvel", None)     # many long generations of code
    if frozen and spec.get("source") in ("time", "spacetime"):
        spec["source"] = "space"     # the simulation with frozen values is at another time
    return {"spec": spec, "sched": gen.gen_sched(rng), "frozen": frozen}


def boundary_points(spec, dom):
    """label -> set of positions (rounded) at which the links of the interior fluid points cross the border."""
    out = {}
    vm = [int(v) for v in dom.stencil.vmax]
    sl = tuple(slice(v, -v) if v else slice(None) for v in vm)
    for k, v in enumerate(dom.stencil.unique_velocities):
        v = np.atleast_1d(v.v)
        flag = dom.flag[k][sl]
        dist = dom.distance[k][sl]
        for lab in np.unique(flag):
            if lab in (-1, -2, dom.valin):
                continue
            ind = np.where(flag == lab)
            pos = np.stack([dom.coords[a][ind[a]] + dist[ind] * v[a] * dom.dx for a in range(len(vm))], axis=1)
            out.setdefault(int(lab), []).append(np.column_stack([np.full(len(pos), k), pos]))
    return {k: np.concatenate(v) for k, v in out.items()}


def run(case, choices, stats):
    spec = case["spec"]

    def main(r):
        log = []
        lines = []
        marks = []

        def each(s):
            marks.append(len(log))
            lines.append((s.nt, float(s.t), float(s.dt)))
        s = gen.simulate(spec, each=each, log=log)
        frozen = None
        if case.get("frozen"):
            # the step which begins now, against a constant value equal to what the user's functions give at this time
            n = len(log)
            b = gen.simulate(at_time(spec, float(s.t)), steps=0)
            for i in range(s.container.F.nv):
                b.F_halo[i] = s.F_halo[i]
            s.one_time_step()
            b.one_time_step()
            frozen = gen.fields(s)[1], gen.fields(b)[1]
            del log[n:]
        st = s.domain.stencil
        # which velocities use which method at which label
        need = {}
        for lab, b in spec["bc"].items():
            if not b.get("value"):
                continue
            for k, m in b["method"].items():
                for num in st.num[int(k)]:
                    need.setdefault(int(lab), {}).setdefault(m, set()).add(int(st.unum2index[num]))
        sym = {}
        for k, v in enumerate(st.unique_velocities):
            sym[k] = int(st.unum2index[v.get_symmetric().num])
        return {"log": log, "marks": marks, "lines": lines, "points": boundary_points(spec, s.domain), "need": need, "sym": sym,
                "dx": float(s.domain.dx), "frozen": frozen}

    ref = world.run_serial(lambda r: gen.simulate(spec, steps=0).nt)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    out = world.run_world(gen.nranks(spec), main, choices, case["sched"], gen.argv(spec))
    stats.world(out)
    stats.sim_steps += spec["nsteps"]
    if not out.clean:
        raise Violation("fails", out.describe(), out)
    dt = spec["dx"] / spec.get("la", 1.)
    for r, o in enumerate(out.results):
        for it, (nt, t, d) in enumerate(o["lines"]):
            if nt != it or abs(d - dt) > 1e-12 * dt or abs(t - it * dt) > 1e-9 * dt * (it + 1):
                raise Violation("time", "process %d reports step %r, time %r, time step %r after %d steps of %r" % (r, nt, t, d, it, dt), out)
        if o["lines"] != out.results[0]["lines"]:
            raise Violation("time", "process %d reports %s, process 0 %s" % (r, o["lines"][-1], out.results[0]["lines"][-1]), out)
        calls(spec, r, o, dt, out, stats)
        if o["frozen"] is not None:
            a, b = o["frozen"]
            if not np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True):
                raise Violation("value-used", "process %d: step %d gives other distributions than with constant values equal to the ones of the time at which it begins, by up to %g"
                                % (r, spec["nsteps"], np.nanmax(np.abs(a - b))), out)
            stats.probe("steps compared with frozen values")


def at_time(spec, t):
    s = copy.deepcopy(spec)
    for b in s["bc"].values():
        if b.get("value") and b["value"].get("time"):
            b["value"] = dict(b["value"], time=False, frozen=t)
    return s


def calls(spec, r, o, dt, out, stats):
    marks = [0] + o["marks"]
    for it in range(len(marks) - 1):
        part = o["log"][marks[it]:marks[it + 1]]
        for lab, b in spec["bc"].items():
            lab = int(lab)
            if not b.get("value"):
                continue
            timed = b["value"].get("time")
            mine = [c for c in part if c[0] == lab]
            pts = o["points"].get(lab)
            # links of the methods that use this label
            want = []
            if pts is not None:
                for m, ks in o["need"][lab].items():
                    sel = pts[np.isin(pts[:, 0], [o["sym"][k] for k in ks])]
                    if len(sel):
                        want.append(sel[:, 1:])
            if it > 0 and not timed:
                if mine:
                    raise Violation("constant", "the constant value of label %d is evaluated again by process %d in step %d" % (lab, r, it - 1), out)
                continue
            if not want:
                continue
            if not mine:
                raise Violation("not-evaluated", "process %d owns boundary points with label %d but does not evaluate its value %s"
                                % (r, lab, "initially" if it == 0 else "in step %d" % (it - 1)), out)
            if timed and it > 0:
                for c in mine:
                    if abs(c[1] - (it - 1) * dt) > 1e-9 * dt * (it + 1):
                        raise Violation("value-time", "process %d evaluates the value of label %d at time %r in step %d, which begins at %r"
                                        % (r, lab, c[1], it - 1, (it - 1) * dt), out)
            got = []
            for c in mine:
                xs = np.broadcast_arrays(*c[2])
                got.append(np.stack([x.ravel() for x in xs], axis=1))
            got = np.unique(np.round(np.concatenate(got) / o["dx"], 6), axis=0)
            exp = np.unique(np.round(np.concatenate(want) / o["dx"], 6), axis=0)
            miss = missing(exp, got)
            extra = missing(got, exp)
            if miss is not None or extra is not None:
                raise Violation("value-place", "process %d evaluates the value of label %d at other places than where the boundary is crossed: %s"
                                % (r, lab, "not at %s" % (miss * o["dx"]) if miss is not None else "at %s" % (extra * o["dx"])), out)
            stats.probe("evaluations checked", len(mine))


def missing(a, b):
    """A row of a without a close row in b."""
    for x in a:
        if not len(b) or np.abs(b - x).max(axis=1).min() > 1e-4:
            return x
    return None
