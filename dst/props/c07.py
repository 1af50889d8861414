"""C07: a simulation always runs the kernels generated from its own description."""
import os

from .. import gen, kern, life, world
from ..kernel import HarnessError
from ..result import Invalid, Violation

ID = "C07"
RULE = ("random histories of 1 to 3 lives of a job of 1 to 3 processes; each life builds 1 to 4 simulations of up to 3 descriptions (many with generated code of the "
        "same size) over shared, private or no kernel directories, keeps some of them running, may be killed at a disk operation of a build; file clock fine, coarse, "
        "standing still or jumping back; byte code written or not; kernel directories on the import path; numpy, and for some runs cython with the real compiler; "
        "non-trivial: at least two builds")
REAL = ["pylbm (generation, numpy and cython back ends, loading, simulation)", "the import system of Python", "setuptools, Cython, gcc and the dynamic loader (cython runs)",
        "the file system of a scratch directory"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "file time stamps (simulated clock)", "names of temporary directories (seeded)",
        "process crash (the job ends at one disk operation, written files stay)"]
BUDGET = {"quick": 45, "thorough": 900}


def gen_case(rng, tier):
    nranks = rng.choice([1, 1, 1, 1, 2, 2, 3])
    cython = nranks == 1 and rng.random() < (.04 if tier == "quick" else .08)
    base = kern.small_spec(rng, nranks)
    specs = [base]
    for _ in range({1: rng.choice([1, 2, 2]), 2: 1, 3: 0}[nranks] if not cython else 1):
        specs.append(kern.vary(rng, base))
    if nranks == 3:
        specs = specs[:1]
    dirs = ["kern", "kern", "kern", None, "kern/deep", "lib"]
    lives = []
    kept = {}      # directory -> description whose kernels are kept there
    for li in range(rng.choice([1, 2, 2, 3] if not cython else [1, 2])):
        script = []
        if rng.random() < .35:
            script.append(["path", rng.choice(["lib", "kern", "."])])
        names = []
        for b in range(rng.choice([1, 2, 2, 3, 4] if not cython else [1, 2])):
            name = rng.choice(["a", "b", "c"])
            d = rng.choice(dirs)
            f = []
            if rng.random() < .12 and not cython:
                f = [kern.gen_fault(rng, ["kill"], nranks)]
            if kept.get(d) is not None and rng.random() < .25:
                # the kernels of this very description are kept there
                script.append(["build", name, kept[d], d, False, rng.choice([0, 1, 1, 2]), []])
            else:
                script.append(["build", name, rng.randrange(len(specs)), d, rng.choice([None, True]), rng.choice([0, 1, 1, 2]), f])
                kept[d] = script[-1][2] if d and not f else None
            names.append(name)
            if rng.random() < .4:
                script.append(["step", rng.choice(names), 1])
            if rng.random() < .15:
                script.append(["drop", rng.choice(names)])
        for name in sorted(set(names)):
            script.append(["step", name, 1])
        lives.append({"script": script, "bytecode": rng.random() < .6, "jump": rng.choice([0., 0., 0., -1., -3600., 10.])})
    if cython:
        for s in specs:
            s["generator"] = "cython"
    for o in bad_reuse(lives):
        o[4] = None
    return {"specs": specs, "lives": lives, "sched": gen.gen_sched(rng), "project": kern.project(rng) if cython else None,
            "clock": {"grain": rng.choice([1e-9, 1., 1., 2.]), "tick": rng.choice([.01, .01, 0., .3])}}


def bad_reuse(lives):
    """The reuses of a directory that does not certainly keep the kernels of the same description."""
    kept, out = {}, []
    for l in lives:
        broken = any(o[0] == "build" and o[6] for o in l["script"])
        for o in l["script"]:
            if o[0] != "build" or not o[3]:
                continue
            if o[4] is False:
                if kept.get(o[3]) != o[2]:
                    out.append(o)
            else:
                kept[o[3]] = None if broken else o[2]
    return out


def shrink(case):
    return shrink_lives(case)


def shrink_lives(case):
    L = case["lives"]
    if case.get("project"):
        yield dict(case, project=None)
    for i in range(len(L)):
        if len(L) > 1:
            yield dict(case, lives=L[:i] + L[i + 1:])
    for i, l in enumerate(L):
        for j in range(len(l["script"])):
            if len(l["script"]) > 1:
                yield dict(case, lives=L[:i] + [dict(l, script=l["script"][:j] + l["script"][j + 1:])] + L[i + 1:])
        for j, o in enumerate(l["script"]):
            if o[0] == "build" and o[6]:
                yield dict(case, lives=L[:i] + [dict(l, script=l["script"][:j] + [o[:6] + [[]]] + l["script"][j + 1:])] + L[i + 1:])
        if l.get("bytecode"):
            yield dict(case, lives=L[:i] + [dict(l, bytecode=False)] + L[i + 1:])


def core(tier):
    import random
    rng = random.Random(7)
    for k in range(2):
        # cython: two descriptions in one directory, in one process and in two, with a coarse clock
        s = kern.small_spec(rng, 1)
        t = kern.vary(random.Random(1), s)
        while t["fam"] != s["fam"] or t["par"] == s["par"]:
            t = kern.vary(rng, s)
        s["generator"] = t["generator"] = "cython"
        b = [["build", "a", 0, "kern", None, 1, []]], [["build", "b", 1, "kern", None, 1, []], ["step", "b", 1]]
        lives = [b[0] + b[1] + [["step", "a", 1]]] if k == 0 else [b[0], b[1]]
        yield {"specs": [s, t], "lives": [{"script": x, "bytecode": True, "jump": -3600. * k} for x in lives], "sched": gen.gen_sched(rng),
               "clock": {"grain": 1., "tick": 0.}, "project": ["pyproject", "inplace"][k]}


def run(case, choices, stats):
    specs = case["specs"]
    if bad_reuse(case["lives"]):
        raise Invalid("reuse of other kernels")
    n = gen.nranks(specs[0])
    ref = kern.references([dict(s, generator="numpy") for s in specs], kern.needs_steps(case["lives"], len(specs)), stats)
    kern.enter(case.get("project"))
    clock = dict(case["clock"], now=1.0e9)
    builds = 0
    for li, l in enumerate(case["lives"]):
        lf = kern.run_script(case, l, choices, stats, n, li, clock)
        clock = kern.next_clock(lf, clock, l)
        trace = kern.trace_of(lf)
        builds += sum(o[0] == "build" for o in l["script"])
        stats.nontrivial |= builds > 1
        if lf.kind == "killed":
            stats.probe("lives killed")
            continue
        if lf.kind == "died":
            raise Violation("crash", "the process crashed: " + lf.describe(), trace)
        if lf.kind != "ok" or any(lf.excs):
            check_records(case, l, lf, ref, li, trace, stats)
            raise Violation("fails", "life %d: %s %s" % (li, lf.describe(), lf.notes), trace)
        check_records(case, l, lf, ref, li, trace, stats)


def check_records(case, l, lf, ref, li, trace, stats):
    for r, recs in enumerate(lf.results):
        cur = {}
        for q in recs or ():
            o = l["script"][q["op"]]
            if o[0] == "build":
                cur[o[1]] = o[2]
            if q["exc"]:
                raise Violation("fails", "life %d, process %d, operation %s raises %s" % (li, r, o, q["exc"]), trace)
            if q["fields"] is None:
                continue
            i = cur[o[1]]
            if not kern.same(q["fields"], ref[i][r][q["nt"]]):
                other = [j for j in ref if len(ref[j]) > r and len(ref[j][r]) > q["nt"] and kern.same(q["fields"], ref[j][r][q["nt"]])]
                raise Violation("kernels", "life %d, process %d, operation %d %s: the fields are not those of description %d%s"
                                % (li, r, q["op"], o, i, ", but those of description %d" % other[0] if other else ""), trace)
            stats.probe("simulations checked")
