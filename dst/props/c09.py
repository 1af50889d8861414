"""C09: kernels kept in a directory are reused exactly or refused."""
import copy
import os

from .. import gen, kern
from ..result import Invalid, Violation
from . import c07

ID = "C09"
RULE = ("random pairs of descriptions of the same simulation with other parameters; 0 to 2 generating lives of 1 to 3 processes in a directory, the last one killed at any disk "
        "operation of the build (with part of a write done) in 3 of 4 runs; then one or two lives reuse the kernels without generating them, some of them before or after building "
        "other simulations; numpy, and for some runs cython with the real compiler; non-trivial: killed in a build, or reuse of complete kernels")
REAL = c07.REAL
STUB = c07.STUB
BUDGET = {"quick": 45, "thorough": 900}
shrink = c07.shrink_lives


def gen_case(rng, tier, cython=None):
    nranks = rng.choice([1, 1, 1, 2, 2, 3])
    if cython is None:
        cython = nranks == 1 and rng.random() < (.04 if tier == "quick" else .08)
    elif cython:
        nranks = 1
    a = kern.small_spec(rng, nranks)
    b = copy.deepcopy(a)
    if nranks < 3:
        for name in ("s", "c"):
            b["par"][name] = [kern.same_size(rng, v) for v in b["par"][name]]
    else:
        b = copy.deepcopy(a)
    if rng.random() < .5:
        a["par"]["s"] = [round(v, 1) for v in a["par"]["s"]]   # code of another size
    d = rng.choice(["kern", "kern/deep", "lib"])
    lives = []
    for k in range(rng.choice([0, 1, 1, 1, 2])):
        lives.append({"script": [["build", "a", rng.randrange(2) if k else 0, d, rng.choice([None, True]), 1, []]]})
    kill = rng.random() < .8
    sc = [["build", "b", 1, d, None, 0, [kern.gen_fault(rng, ["kill"], nranks)] if kill else []]]
    if rng.random() < .2:
        sc.insert(0, ["build", "a", 0, d, None, 0, []])
    lives.append({"script": sc})
    for k in range(rng.choice([1, 1, 2])):
        sc = [["build", "r", rng.randrange(2), d, False, rng.choice([1, 2]), []]]
        if rng.random() < .45:
            # the same life also builds simulations of its own elsewhere
            sc.insert(rng.choice([0, 0, 1]), ["build", "x", rng.randrange(2), rng.choice([None, "other"]), None, 1, []])
            sc.append(["step", "r", 1])
            sc.append(["step", "x", 1])
        lives.append({"script": sc})
    for l in lives:
        l["bytecode"] = rng.random() < .5
        l["jump"] = rng.choice([0., 0., 0., -1., -3600., 10.])
        if rng.random() < .2:
            l["script"].insert(0, ["path", rng.choice(["lib", "kern", d])])
    if cython:
        for s in (a, b):
            s["generator"] = "cython"
    return {"specs": [a, b], "lives": lives, "sched": gen.gen_sched(rng), "project": kern.project(rng) if cython else None, "clock": {"grain": rng.choice([1e-9, 1., 2.]), "tick": rng.choice([.01, 0., .3])}}


def core(tier):
    import random
    for k in range(2 if tier == "quick" else 6):
        c = gen_case(random.Random(200 + k), tier, cython=True)
        c["lives"] = [{"script": [["build", "a", 0, "kern", None, 1, []]], "bytecode": True, "jump": 0.},
                      {"script": [["build", "b", 1, "kern", None, 0, [{"kind": "kill", "u": [.99, .85, .5, .95, .9, .7][k], "e": 5, "frac": [.6, .5, .7, .3, .9, .8][k], "rank": 0}]]],
                       "bytecode": True, "jump": 0.},
                      {"script": [["build", "r", 1, "kern", False, 1, []]], "bytecode": True, "jump": 0.}]
        yield c


def run(case, choices, stats):
    specs = case["specs"]
    n = gen.nranks(specs[0])
    ref = kern.references([dict(s, generator="numpy") for s in specs], kern.needs_steps(case["lives"], len(specs)), stats)
    kern.enter(case.get("project"))
    clock = dict(case["clock"], now=1.0e9)
    complete = None       # the description of the last complete generation
    started = set()       # descriptions whose generation may have got as far as that directory since
    for li, l in enumerate(case["lives"]):
        lf = kern.run_script(case, l, choices, stats, n, li, clock)
        clock = kern.next_clock(lf, clock, l)
        trace = kern.trace_of(lf)
        builds = [o for o in l["script"] if o[0] == "build"]
        if any(o[4] is False for o in builds):
            reuse(case, l, lf, ref, li, complete, started, trace, stats, n)
            continue
        if lf.kind == "killed":
            stats.probe("generations killed")
            stats.nontrivial = True
            done = [x for x in lf.notes if x[0] == "built"]
            for k, o in enumerate(l["script"]):
                if o[0] == "build" and any(x[0] == "begin" and x[2] == k for x in lf.notes):
                    if sum(x[2] == k for x in done) == n:
                        complete, started = o[2], set()
                    else:
                        started.add(o[2])
            continue
        if lf.kind == "died":
            raise Violation("crash", "the process crashed: " + lf.describe(), trace)
        if not lf.clean:
            raise Violation("fails", "life %d: %s %s" % (li, lf.describe(), lf.notes), trace)
        c07.check_records(case, l, lf, ref, li, trace, stats)
        complete, started = builds[-1][2], set()


def reuse(case, l, lf, ref, li, complete, started, trace, stats, n):
    raised = [x for x in lf.notes if x[0] == "raised"]
    if lf.kind == "deadlock":
        raise Violation("stuck", "life %d: %s %s" % (li, lf.describe(), lf.notes), trace)
    interrupted = complete is None or bool(started)
    if lf.kind == "killed" or lf.kind not in ("ok", "died") or any(lf.excs):
        raise Violation("fails", "life %d: %s" % (li, lf.describe()), trace)
    if raised or lf.kind == "died":
        if not interrupted:
            raise Violation("refused", "life %d: complete kernels of description %d are not reused: %s %s" % (li, complete, lf.describe(), lf.notes), trace)
        stats.probe("reuse refused" if raised else "reuse crashed")
        return
    stats.nontrivial = True
    allowed = ({complete} if complete is not None else set()) | started
    fits = set(allowed)
    for r, recs in enumerate(lf.results):
        for q in recs:
            if q["exc"]:
                raise Violation("fails", "life %d: %s" % (li, q["exc"]), trace)
            if q["fields"] is None:
                continue
            o = l["script"][q["op"]]
            if o[1] == "x":
                i = next(b[2] for b in l["script"] if b[0] == "build" and b[1] == "x")
                if not kern.same(q["fields"], ref[i][r][q["nt"]]):
                    raise Violation("kernels", "life %d, process %d: the simulation of description %d built beside the reuse does not compute its fields" % (li, r, i), trace)
                continue
            fits &= {i for i in ref if kern.same(q["fields"], ref[i][r][q["nt"]])}
    if not fits:
        raise Violation("kernels", "life %d: reused kernels compute neither what the complete generation (%s) nor what the interrupted ones (%s) compute"
                        % (li, complete, sorted(started)), trace)
    stats.probe("reuse of interrupted generations" if started else "reuse of complete generations")
