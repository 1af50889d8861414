"""C14: results are reproducible bit for bit."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys
import time

import numpy as np

from .. import gen, world
from ..kernel import Choices
from ..result import Invalid, Violation

ID = "C14"
RULE = ("each description on its process grid is executed several times: other process schedule and message timing, other clock, other position of the files, "
        "after another simulation, and in other interpreters with another hash seed; the bits of all the moments and distributions of all the processes, halo "
        "included, after each step are compared; non-trivial: at least one execution with another interleaving and one with another hash seed")
REAL = ["pylbm", "numpy", "sympy", "the interpreter's hash randomisation"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "sys.argv per run", "the clock"]
BUDGET = {"quick": 50, "thorough": 900}
MIN_TIME = {}


def gen_case(rng, tier):
    spec = gen.gen_spec(rng, maxranks=4, small=rng.random() < .5)
    if rng.random() < .4:
        gen.omit(rng, spec)
    if rng.random() < .2:
        spec["split"] = [1] * spec["dim"]
        spec["auto"] = True
    other = gen.gen_spec(rng, dims=(1, 2), maxranks=2, small=True)
    var = rng.sample(["schedule", "clock", "place", "history"], 2)
    return {"spec": spec, "other": other, "variants": var, "sched": gen.gen_sched(rng), "sched2": gen.gen_sched(rng),
            "hashseeds": [rng.randrange(1, 2 ** 32 - 1) for _ in range(rng.choice([1, 1, 2]))], "seed": rng.randrange(10 ** 6)}


def digests(results):
    """[process][step][component]"""
    return [[[hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:16] for a in snap] for snap in o] for o in results]


def body(spec, history=None):
    def main(r):
        if history is not None:
            gen.simulate(history)
        snaps = []

        def each(s):
            nv = s.container.m.nv
            # the outer points no boundary condition and no process defines are left out: only what a process may read
            snaps.append([np.array(s.m[i]) for i in range(nv)] + [np.array(s.F[i]) for i in range(nv)])
        gen.simulate(spec, each=each)
        return snaps
    return main


def execute(case, choices, variant):
    spec = case["spec"]
    n = gen.nranks(spec)
    cfg = dict(case["sched"] if variant in (None, "place", "history") else case["sched2"])
    start, hist = 0, None
    cwd = os.getcwd()
    old = os.environ.get("TMPDIR"), __import__("tempfile").tempdir
    saved = {}
    try:
        if variant == "clock":
            t = [0.0]

            def tick(*a):
                t[0] += 1e5
                return t[0] if int(t[0] / 1e5) % 3 else 1e9 - t[0]
            cfg["wtime"] = tick
            for k in ("time", "perf_counter", "monotonic"):
                saved[k] = getattr(time, k)
                setattr(time, k, tick)
            np.random.seed(5)
            random.seed(6)
        if variant == "place":
            d = os.path.join(cwd, "another place %d" % case["seed"])
            os.makedirs(d)
            os.chdir(d)
            __import__("tempfile").tempdir = d
        if variant == "history":
            hist = copy.deepcopy(case["other"])
            hist["split"] = spec["split"][:1] + [1] * 2
            hist["auto"] = True
        out = world.run_world(n, body(spec, hist), choices, cfg, gen.argv(spec), start=start)
    finally:
        for k, v in saved.items():
            setattr(time, k, v)
        os.chdir(cwd)
        __import__("tempfile").tempdir = old[1]
    return out


def run(case, choices, stats):
    ref = execute(case, choices, None)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    if not all(np.isfinite(a).all() and np.abs(a).max() < 1e6 for o in ref.results for snap in o for a in snap):
        raise Invalid("unstable")
    stats.world(ref)
    want = digests(ref.results)

    def compare(got, what, out=None):
        for r, (a, b) in enumerate(zip(want, got)):
            for it, (x, y) in enumerate(zip(a, b)):
                for k, (u, v) in enumerate(zip(x, y)):
                    if u != v:
                        nv = len(x) // 2
                        raise Violation("differs", "with %s: %s[%d] of process %d after step %d has other bits" % (what, "m" if k < nv else "F", k % nv, r, it), out)
            if len(a) != len(b):
                raise Violation("differs", "with %s: another number of steps" % what, out)

    for v in case["variants"]:
        out = execute(case, choices, v)
        stats.world(out)
        if not out.clean:
            if v == "history":
                continue    # the other description may not fit this process grid
            raise Violation("fails", "with another %s: %s" % (v, out.describe()), out)
        stats.fault("another " + v)
        compare(digests(out.results), "another " + v, out)
    for h in case["hashseeds"]:
        env = dict(os.environ, PYTHONHASHSEED=str(h), MALLOC_PERTURB_=str(1 + h * 7 % 254), PYTHONPATH=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        d = os.path.join(os.getcwd(), "h%d" % h)
        os.makedirs(d)
        with open(os.path.join(d, "case.json"), "w") as f:
            json.dump(case, f)
        p = subprocess.run([sys.executable, "-B", "-m", "dst.props.c14"], cwd=d, env=dict(env, TMPDIR=d), capture_output=True, text=True, timeout=120)
        if p.returncode != 0:
            raise RuntimeError("the other interpreter: " + p.stderr[-1500:])
        res = json.loads(p.stdout.splitlines()[-1])
        stats.fault("another hash seed")
        if "fails" in res:
            raise Violation("fails", "with the hash seed %d: %s" % (h, res["fails"]))
        compare(res["digests"], "the hash seed %d" % h)
    stats.nontrivial = bool(stats.faults)
    stats.sim_steps += case["spec"]["nsteps"]


def other_interpreter():
    world.prepare()
    with open("case.json") as f:
        case = json.load(f)
    world._garbage[0] = int(os.environ["MALLOC_PERTURB_"]) << 32      # fresh memory holds something else
    out = execute(case, Choices(seed="h%d" % case["seed"]), "schedule")
    res = {"digests": digests(out.results)} if out.clean else {"fails": out.describe()}
    sys.stdout.write("\n" + json.dumps(res) + "\n")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    other_interpreter()
