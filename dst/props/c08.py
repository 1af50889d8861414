"""C08: a failed kernel build is reported and leaves nothing behind."""
import os

from .. import gen, kern
from ..result import Violation
from . import c07

ID = "C08"
RULE = ("random sequences of 2 to 6 builds (and time steps of the simulations built before) in one process, with or without kernel directory and monitoring, numpy and for "
        "some runs cython with the real compiler; in most builds one operation (mkdir, open, write, command, load, rename) fails, is torn, is interrupted, finds the "
        "disk full, or the compiler fails, is killed or cannot be started; some runs with 2 or 3 processes, which must all learn of the failure of one of them; a second life reuses the kernels kept by the last build that "
        "succeeded; non-trivial: at least one fault was injected")
REAL = c07.REAL
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "file operations of pylbm, the import system and the copies of shutil (executed or failed by the simulated disk)",
        "the compiler command (executed, or failed, killed, not started)", "names of temporary directories (seeded)"]
BUDGET = {"quick": 45, "thorough": 900}
shrink = c07.shrink_lives

KINDS = ["error", "error", "error", "torn", "full", "interrupt", "short"]
CKINDS = ["exit", "cc", "cc", "signal", "noexec", "error", "torn", "full", "interrupt"]


def gen_case(rng, tier, cython=None):
    nranks = rng.choice([1, 1, 1, 1, 2, 2, 3])
    if cython is None:
        cython = nranks == 1 and rng.random() < (.04 if tier == "quick" else .08)
    elif cython:
        nranks = 1
    base = kern.small_spec(rng, nranks)
    specs = [base, kern.vary(rng, base)]
    script, names = [], []
    nb = rng.choice([2, 3, 4, 5, 6]) if not cython else 2
    last = None
    for b in range(nb):
        name = "s%d" % (b if rng.random() < .7 else rng.randrange(b + 1))
        d = rng.choice([None, None, "kern", "kern", "new", "kern/deep"])
        f = []
        if (b > 0 or rng.random() < .5) and rng.random() < .75 or cython and b == 0:
            for _ in range(rng.choice([1, 1, 1, 2])):
                f.append(kern.gen_fault(rng, CKINDS if cython else KINDS, nranks))
        script.append(["build", name, rng.randrange(2), d, None, rng.choice([0, 1]), f])
        names.append(name)
        if rng.random() < .7:
            script.append(["step", rng.choice(names), 1])
    script.append(["build", "z", rng.randrange(2), rng.choice([None, "kern"]), None, 1, []])
    for name in sorted(set(names)):
        script.append(["step", name, 1])
    if cython:
        for s in specs:
            s["generator"] = "cython"
    return {"specs": specs, "lives": [{"script": script, "bytecode": rng.random() < .4, "monitoring": rng.random() < .5, "jump": 0.}], "sched": gen.gen_sched(rng),
            "project": kern.project(rng) if cython else None, "clock": {"grain": 1., "tick": .01}}


def core(tier):
    import random
    for k in range(4 if tier == "quick" else 7):
        c = gen_case(random.Random(100 + k), tier, cython=True)
        c["lives"][0]["script"][0][6] = [dict(kern.gen_fault(random.Random(k), CKINDS, 1), kind=["cc", "exit", "signal", "noexec", "error", "torn", "full"][k], u=[0, 0, 0, 0, .3, .95, .6][k])]
        yield c


def reuse_life(case, lf):
    """The kernels kept by the last successful build of each directory, when no later build touched it."""
    last = {}
    for i, o in enumerate(case["lives"][0]["script"]):
        if o[0] == "build" and o[3] is not None:
            q = next((q for q in lf.results[0] if q["op"] == i), None)
            last[o[3]] = o if q is not None and not q["exc"] else None
    script = []
    for k, (d, o) in enumerate(sorted(last.items())):
        if o is not None:
            script.append(["build", "r%d" % k, o[2], d, False, 1, []])
    return script


def run(case, choices, stats):
    specs = case["specs"]
    n = gen.nranks(specs[0])
    l = case["lives"][0]
    ref = kern.references([dict(s, generator="numpy") for s in specs], [max(2, x) for x in kern.needs_steps(case["lives"], len(specs))], stats)
    kern.enter(case.get("project"))
    clock = dict(case["clock"], now=1.0e9)
    lf = kern.run_script(case, l, choices, stats, n, 0, clock)
    trace = kern.trace_of(lf)
    stats.nontrivial |= bool(lf.injected)
    if lf.kind == "died":
        raise Violation("crash", "the process crashed: " + lf.describe(), trace)
    if lf.kind != "ok" or any(lf.excs):
        raise Violation("fails", "%s %s" % (lf.describe(), lf.notes), trace)
    check(case, l, lf, ref, trace, stats, n)
    left = sorted(os.listdir("tmp"))
    if left:
        raise Violation("left", "at the end of the life, the temporary directories %s are left" % left, trace)
    script = reuse_life(case, lf)
    if script:
        l2 = {"script": script, "jump": 0.}
        lf = kern.run_script(dict(case, lives=[l2]), l2, choices, stats, n, 1, kern.next_clock(lf, clock, l2))
        trace = kern.trace_of(lf)
        if not lf.clean:
            raise Violation("reuse", lf.describe(), trace)
        c07.check_records(case, l2, lf, ref, 1, trace, stats)


def outside(p):
    return not p.startswith(("kern/", "new/", "lib/"))


def check(case, l, lf, ref, trace, stats, n):
    # the processes construct a simulation together: a failure of one of them is one of all
    hit = [sum((recs[i]["injected"] or [] for recs in lf.results), []) for i in range(len(l["script"]))]
    for i, o in enumerate(l["script"]):
        who = [r for r, recs in enumerate(lf.results) if recs[i]["exc"]]
        if 0 < len(who) < n:
            raise Violation("alone", "operation %d %s, injected %s: raises on the processes %s only" % (i, o, hit[i] or "nothing", who), trace)
        if who and n > 1:
            stats.probe("builds failing on all the processes")
    for r, recs in enumerate(lf.results):
        cur = {}
        for q in recs:
            o = l["script"][q["op"]]
            what = "process %d, operation %d %s, injected %s" % (r, q["op"], o, hit[q["op"]] or "nothing")
            if q["exc"]:
                if not hit[q["op"]]:
                    raise Violation("fails", "%s: raises %s although nothing failed in it" % (what, q["exc"]), trace)
                if o[0] != "build":
                    raise Violation("fails", "%s: raises %s" % (what, q["exc"]), trace)
                if q["exit"]:
                    raise Violation("exit", "%s: ends the program (%s)" % (what, q["exc"]), trace)
                stats.probe("failed builds")
            elif o[0] == "build":
                cur[o[1]] = o[2]
                stats.probe("successful builds" + (" in spite of a fault" if hit[q["op"]] else ""))
            if q.get("path"):
                raise Violation("path", "%s: the import path %s" % (what, q["path"]), trace)
            if not q.get("cwd", True):
                raise Violation("cwd", "%s: changes the current directory" % what, trace)
            if o[0] == "build" and n == 1:
                left = [x for x in q["left"] if outside(x) and x not in ("new/", "lib/")]
                if left:
                    raise Violation("left", "%s: leaves %s" % (what, left[:6]), trace)
            if q["fields"] is None:
                continue
            i = cur[o[1]]
            if not kern.same(q["fields"], ref[i][r][q["nt"]]):
                raise Violation("kernels", "%s: the fields after %d steps are not those of description %d" % (what, q["nt"], i), trace)
            stats.probe("simulations checked")
