"""C13: simulations living in the same program do not influence each other."""
import copy
import gc
import types

import numpy as np
import sympy as sp

from .. import gen, world
from ..result import Invalid, Violation

ID = "C13"
RULE = ("2 or 3 simulations constructed, stepped, read, written out and destroyed in a random interleaving on 1 to 3 processes, from their own or from shared "
        "(whole or in part, or modified in between) dictionaries, with failed constructions and other uses of the dictionaries in between; each is compared with "
        "itself alone in a fresh pylbm; the dictionaries are compared deeply with what the user gave; non-trivial: two simulations alive at the same time")
REAL = ["pylbm", "numpy", "sympy", "h5py/HDF5"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 45, "thorough": 900}


class Boom(Exception):
    pass


def gen_case(rng, tier):
    base = gen.gen_spec(rng, dims=(1, 1, 2, 2, 3), maxranks=3, small=True)
    one = rng.random() < .5
    if one:
        base["split"] = [1] * base["dim"]
        base["auto"] = True
    n = gen.nranks(base)
    k = 2 if n == 3 or rng.random() < .6 else 3
    specs = [base]
    share = rng.choice(["none", "same", "same", "parts", "sweep"])
    while len(specs) < k:
        if share in ("same", "parts", "sweep"):
            s = copy.deepcopy(base)
            if share != "same" or rng.random() < .4:
                s["sorder"] = None if rng.random() < .5 else rng.sample(range(base["dim"] + 1), base["dim"] + 1)
            if share in ("parts", "sweep"):
                s["init"] = dict(s["init"], seed=rng.randrange(1000))
            if share == "sweep":
                s["par"] = dict(s["par"], s=gen.gen_par(rng)["s"])
        else:
            for _ in range(300):
                s = gen.gen_spec(rng, dims=(base["dim"],) if not one else (1, 1, 2, 2, 3), maxranks=3, small=True)
                if one:
                    s["split"] = [1] * s["dim"]
                    s["auto"] = True
                    break
                if s["split"] == base["split"]:
                    s["auto"] = base["auto"]
                    break
            else:
                s = copy.deepcopy(base)
        specs.append(s)
    # a random interleaving
    ops = []
    todo = [["new"] + ["step"] * rng.randint(1, 5) for _ in range(k)]
    for i, t in enumerate(todo):
        for _ in range(rng.randint(0, 3)):
            t.insert(rng.randint(1, len(t)), gen.wchoice(rng, {"read": 2, "save": 1, "str": 1, "scheme": .3, "domain": .7, "bad": 1}))
        if rng.random() < .6:
            t.append("del")
    while any(todo):
        i = rng.choice([j for j in range(k) if todo[j]])
        for _ in range(rng.randint(1, 3)):
            if todo[i]:
                ops.append([todo[i].pop(0), i])
    return {"specs": specs, "ops": ops, "share": share, "lazy": rng.random() < .3, "sched": gen.gen_sched(rng)}


# ----------------------------------------------------------- what the user gave
def snap(o, depth=0):
    if depth > 12:
        return "deep"
    if isinstance(o, dict):
        return ["dict", type(o).__name__] + [[snap(k, depth + 1), snap(v, depth + 1)] for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [snap(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        return ["array", str(o.dtype), list(o.shape), repr(o.tolist())]
    if isinstance(o, (bool, int, float, str, type(None), np.generic)):
        return [type(o).__name__, repr(o)]
    if isinstance(o, (sp.Basic, sp.MatrixBase)):
        return ["sympy", sp.srepr(o)]
    if isinstance(o, (type, types.FunctionType, types.MethodType, types.ModuleType)):
        return ["object", id(o)]
    if hasattr(o, "__dict__"):
        return ["instance", type(o).__name__, snap({k: v for k, v in vars(o).items()}, depth + 1)]
    return ["other", repr(o)]


def diff(a, b, path="dictionary"):
    if a == b:
        return None
    if isinstance(a, list) and isinstance(b, list) and a and b and a[0] == b[0] and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s/%s" % (path, a[0] if not (isinstance(x, list) and x and isinstance(x[0], list)) else x[0][-1]))
            if d:
                return d
    return "%s: %s instead of %s" % (path, str(b)[:200], str(a)[:200])


def flip(spec):
    s = copy.deepcopy(spec)
    return s


def run(case, choices, stats):
    specs = case["specs"]
    n = gen.nranks(specs[0])
    share = case["share"]

    def steps_of(i):
        return sum(1 for o, j in case["ops"] if o == "step" and j == i)

    def build(p, spec, d):
        return p.Simulation(d, sorder=copy.copy(spec.get("sorder")), initialize=not case["lazy"])

    def alone(i):
        def main(r):
            spec = specs[i]
            s = build(world.pylbm(), spec, gen.dico(spec))
            out = []
            for _ in range(steps_of(i)):
                s.one_time_step()
                out.append(gen.fields(s))
            return out
        return main

    def together(r):
        p = world.pylbm()
        dicos = {}
        snaps = {}
        sims = {}
        out = {i: [] for i in range(len(specs))}
        nsave = 0

        def verify(i, when):
            if i not in snaps:
                return
            d = diff(snaps[i], snap(dicos[i]))
            if d:
                raise Violation("dictionary", "the description given for simulation %d is modified %s: %s" % (i, when, d))

        def dico(i):
            if i in dicos:
                return dicos[i]
            if share == "none" or not dicos:
                d = gen.dico(specs[i])
            elif share == "same":
                d = next(iter(dicos.values()))
            elif share == "parts":
                # the user's own objects are shared by several dictionaries
                d = dict(next(iter(dicos.values())))
                d["init"] = gen.dico(specs[i])["init"]
            else:
                # the same dictionary, modified in place between two simulations
                d = next(iter(dicos.values()))
                for j in list(snaps):
                    verify(j, "before the user modifies it")
                fresh = gen.dico(specs[i])
                for a, b in zip(d["schemes"], fresh["schemes"]):
                    for key in a:
                        if isinstance(a[key], list):
                            a[key][:] = b[key]
                        elif isinstance(a[key], dict):
                            a[key].clear()
                            a[key].update(b[key])
                        else:
                            a[key] = b[key]
                if "parameters" in d:
                    d["parameters"].update(fresh["parameters"])
                d["init"].clear()
                d["init"].update(fresh["init"])
                if "boundary_conditions" in d and not case["lazy"]:
                    for lab, b in fresh["boundary_conditions"].items():
                        d["boundary_conditions"][lab].update(b)
                for j in list(snaps):
                    snaps[j] = snap(d)
            dicos[i] = d
            snaps[i] = snap(d)
            return d

        for k, (op, i) in enumerate(case["ops"]):
            when = "by operation %d (%s of simulation %d)" % (k, op, i)
            if op == "new":
                sims[i] = build(p, specs[i], dico(i))
                if case["lazy"] and share == "sweep":
                    sims[i]._initialize() if hasattr(sims[i], "_initialize") else None
                if len(sims) > 1:
                    stats.nontrivial = True
            elif op == "bad":
                bad = dict(gen.dico(specs[i]) if i not in dicos else dicos[i])

                def boom(*a):
                    raise Boom()
                bad["init"] = {key: boom for key in bad["init"]}
                try:
                    build(p, specs[i], bad).one_time_step()
                    raise Violation("swallowed", "an exception of the user's initial value is swallowed " + when)
                except Boom:
                    stats.fault("failed construction of another simulation")
            elif op == "domain":
                p.Domain(dicos.get(i) or gen.dico(specs[i]))
            elif op == "scheme":
                p.Scheme(dicos.get(i) or gen.dico(specs[i]))
            elif i not in sims:
                continue
            elif op == "step":
                sims[i].one_time_step()
                out[i].append(gen.fields(sims[i]))
            elif op == "read":
                gen.fields(sims[i])
            elif op == "str":
                str(sims[i]), str(sims[i].domain)
            elif op == "save":
                s = sims[i]
                h5 = p.H5File(s.domain.mpi_topo, "o", "out", timestep=nsave)
                nsave += 1
                h5.set_grid(*s.domain.coords)
                h5.add_scalar("a", s.m[0])
                h5.save()
            elif op == "del":
                del sims[i]
                gc.collect()
            for j in list(snaps):
                verify(j, when)
        return out

    refs = []
    for i in range(len(specs)):
        ref = world.run_world(n, alone(i), choices, case["sched"], gen.argv(specs[i]), start=n * (i + 1))
        if not ref.clean:
            raise Invalid(ref.describe(), ref)
        if not all(np.isfinite(f).all() and np.abs(f).max() < 1e6 for o in ref.results for m, f in o):
            raise Invalid("unstable")
        refs.append(ref)
    out = world.run_world(n, together, choices, case["sched"], gen.argv(specs[0]))
    stats.world(out)
    stats.probe("sharing: " + share)
    for r, e in enumerate(out.excs):
        if isinstance(e, Violation):
            raise Violation(e.kind, "process %d: %s" % (r, e), out)
    if not out.clean:
        raise Violation("fails", "together: " + out.describe(), out)
    for i in range(len(specs)):
        for r in range(n):
            a, b = refs[i].results[r], out.results[r][i]
            for it, (x, y) in enumerate(zip(a, b)):
                for w, u, v in zip("mF", x, y):
                    if u.shape != v.shape or not np.array_equal(u, v):
                        raise Violation("differs", "process %d: %s of simulation %d after step %d differs from the simulation alone" % (r, w, i, it + 1), out)
            stats.sim_steps += len(b)
