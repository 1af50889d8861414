"""Histories of constructions of simulations over kernel directories (C07, C08, C09).

A history is a list of lives; a life is a script executed by all the processes of the job:
    ["build", name, spec index, directory or None, generate, steps, faults]
    ["step", name, k]          k more steps of a simulation built in this life
    ["drop", name]
    ["path", dir]              the directory becomes the first of the import path
Each operation leaves a record; a fault is {"kind", "u", "e", "frac", "rank"} and happens at
the operation of the disk number int(u * operations of this build without faults).
"""
import copy
import errno
import gc
import os
import shutil
import signal
import sys
import tempfile

import numpy as np

from . import disk, gen, life, world
from .kernel import Choices, HarnessError, current
from .result import Violation

CC = """#!/bin/sh
# the real compiler without the optimisations, which only cost time here
for a do
  shift
  case "$a" in -O3|-O2|-g) ;; *) set -- "$@" "$a" ;; esac
done
exec %s "$@"
"""
FAMS = {1: ["D1Q2", "D1Q3", "D1Q22", "D1Q2", "D1Q5"], 2: ["D2Q4", "D2Q5", "D2Q4d"]}
ERR = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS, errno.EMFILE]


def small_spec(rng, nranks):
    while True:
        spec = gen.gen_spec(rng, dims=(1, 1, 2), fams=FAMS, maxranks=max(nranks, 2), small=True, elements=rng.random() < .4, source=False)
        if nranks == 1:
            spec["split"], spec["auto"] = [1] * spec["dim"], True
        if gen.nranks(spec) == nranks:
            return spec


def vary(rng, spec):
    """Another description: other parameters in code of the same size, other boundary methods, or everything else."""
    k = rng.random()
    s = copy.deepcopy(spec)
    if k < .7:
        q = s["par"]
        for name in ("s", "c"):
            q[name] = [same_size(rng, v) for v in q[name]]
    elif k < .85 and s["bc"]:
        for b in s["bc"].values():
            for m in b["method"]:
                b["method"][m] = rng.choice(["BounceBack", "AntiBounceBack", "BounceBack", "Neumann"])
    else:
        for _ in range(60):     # the job has one command line, and so one grid of processes
            t = small_spec(rng, gen.nranks(spec))
            if gen.argv(t) == gen.argv(spec):
                return t
    return s


def same_size(rng, v):
    while True:
        w = round(abs(v) + rng.choice([-.1, .1, .05, -.05, .013]), 3)
        if w != v and len(repr(w)) == len(repr(abs(v))) and w < 1.99 and (w > .5) == (abs(v) > .5) and w > 0.004:
            return w if v > 0 else -w
        if rng.random() < .02:
            return v


def main_of(specs, script, counts=None):
    """The body of the processes of a life; counts[op][rank] = operations of the disk (None: a run without faults)."""
    def main(r):
        sim, rank = current()
        disk = sim.disk
        tempfile.tempdir = os.path.join(disk.root, "tmp")
        sims, recs = {}, []
        for i, o in enumerate(script):
            rec = {"op": i, "exc": None, "fields": None, "injected": 0, "n": 0}
            recs.append(rec)
            if o[0] == "path":
                sys.path.insert(0, os.path.abspath(o[1]))
                continue
            if o[0] == "drop":
                sims.pop(o[1], None)
                gc.collect()
                continue
            if o[0] == "step" and o[1] not in sims:
                rec["skipped"] = True
                continue
            faults = []
            if o[0] == "build" and counts is not None:
                for f in o[6]:
                    if f["rank"] % sim.n == r:
                        faults.append(fault_of(f, counts[i][r]))
            disk.arm(r, faults)
            before = disk.count.get(r, 0), len(disk.injected), list(sys.path), listing(disk), os.getcwd()
            if o[0] == "build":
                disk.notes.append(("begin", r, i))
            try:
                if o[0] == "build":
                    spec = dict(specs[o[2]])
                    if o[3] is not None:
                        spec["codegen"] = {"directory": o[3]} if o[4] is None else {"directory": o[3], "generate": o[4]}
                    s = sims[o[1]] = gen.simulate(spec, steps=0)
                    rec["built"] = True
                    n = o[5]
                else:
                    s, n = sims[o[1]], o[2]
                disk.arm(r, [])
                rec["n"] = disk.count.get(r, 0) - before[0]
                after = listing(disk)
                rec["left"] = sorted(after - before[3])
                rec["path"] = None if sys.path == before[2] else "%s became %s" % (before[2], sys.path)
                rec["cwd"] = os.getcwd() == before[4]
                for _ in range(n):
                    s.one_time_step()
                rec["fields"] = gen.fields(s)
                rec["nt"] = s.nt
                s = None
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                disk.arm(r, [])
                rec["exc"] = (type(e).__name__, str(e)[:400])
                rec["exit"] = isinstance(e, SystemExit)
                import traceback
                rec["tb"] = traceback.format_exc()[-1500:]
                e.__traceback__ = None
                s = None
                gc.collect()
                after = listing(disk)
                rec["n"] = disk.count.get(r, 0) - before[0]
                rec["left"] = sorted(after - before[3])
                rec["path"] = None if sys.path == before[2] else "%s became %s" % (before[2], sys.path)
                rec["cwd"] = os.getcwd() == before[4]
                rec["injected"] = list(disk.injected)[before[1]:]
                disk.notes.append(("raised", r, i) + rec["exc"])
                continue
            rec["injected"] = list(disk.injected)[before[1]:]
            if o[0] == "build":
                disk.notes.append(("built", r, i))
        return recs
    return main


def listing(disk):
    """The directories (and the files outside the kernel directories) of the scratch directory."""
    out = set()
    for d, ds, fs in os.walk(disk.root):
        rel = os.path.relpath(d, disk.root)
        for x in ds:
            out.add(os.path.normpath(os.path.join(rel, x)) + "/")
        for x in fs:
            out.add(os.path.normpath(os.path.join(rel, x)))
    return out


def fault_of(f, n):
    k = f["kind"]
    op = 0 if k in disk.COMMAND else int(f["u"] * max(n, 1))
    if k in ("error", "torn"):
        return [k, op, f["e"]]
    if k == "kill":
        return [k, op, f["frac"]]
    if k == "exit":
        return [k, op, 1]
    if k == "signal":
        return [k, op, int(signal.SIGKILL), f["frac"]]
    return [k, op]


def references(specs, script_steps, stats):
    """specs[i] -> list over steps of list over ranks of (m, f), each in a copy of pylbm that built nothing before."""
    out = {}
    start = 3
    here = os.getcwd()
    os.mkdir("ref")
    os.chdir("ref")
    old = tempfile.tempdir
    tempfile.tempdir = os.getcwd()
    try:
        for i, spec in enumerate(specs):
            n = gen.nranks(spec)
            total = script_steps[i]
            if start + n > world.MAXRANKS + 1:
                raise HarnessError("too many references")

            def main(r):
                got = []
                gen.simulate(spec, steps=total, each=lambda s: got.append(gen.fields(s)))
                return got
            o = world.run_world(n, main, Choices(replay=[]), {"policy": "uniform", "p_lazy": 0, "p_rdv": 0}, gen.argv(spec), start=start)
            start += n
            if not o.clean:
                from .result import Invalid
                raise Invalid("reference: " + o.describe(), o)
            out[i] = o.results
    finally:
        tempfile.tempdir = old
        os.chdir(here)
    return out


def same(a, b):
    return a[0].shape == b[0].shape and np.allclose(a[0], b[0], rtol=1e-9, atol=1e-12, equal_nan=True) and np.allclose(a[1], b[1], rtol=1e-9, atol=1e-12, equal_nan=True)


def needs_steps(lives, nspecs):
    """A number of steps that no simulation of the history exceeds."""
    return [max(sum(o[5] for o in l["script"] if o[0] == "build") + sum(o[2] for o in l["script"] if o[0] == "step") for l in lives)] * nspecs


def fast_cc():
    """The compiler of cython builds: the real one without optimisations."""
    bindir = os.path.abspath("bin")
    os.mkdir(bindir)
    cc = os.path.join(bindir, "cc")
    real = shutil.which("gcc") or shutil.which("cc") or "cc"
    with open(cc, "w") as f:
        f.write(CC % real)
    os.chmod(cc, 0o755)
    os.environ["CC"] = cc


# what setuptools reads when it runs in the directory of the user's own project
PROJECTS = {
    "inplace": {"setup.cfg": "[build_ext]\ninplace=1\n"},
    "temp": {"setup.cfg": "[build_ext]\nforce=0\nbuild_lib=elsewhere\n[build]\nbuild_base=elsewhere\n"},
    "undef": {"setup.cfg": "[build_ext]\nlibraries=nosuchlibrary_dst\n"},
    "pyproject": {"pyproject.toml": '[project]\nname = "mine"\nversion = "1"\nlicense = "MIT"\nclassifiers = ["License :: OSI Approved :: MIT License"]\n'},
    "module": {"setup.py": "raise SystemExit(3)\n", "pyproject.toml": '[project]\nname = "mine"\nversion = "1"\n[tool.setuptools]\npackages = ["nothere"]\n'},
}


def project(rng):
    return rng.choice([None] + sorted(PROJECTS))


def enter(project=None):
    """The disk of the history: the current directory of all its lives."""
    fast_cc()
    for k in ("PYTHONDONTWRITEBYTECODE", "PYTHONPYCACHEPREFIX"):
        os.environ.pop(k, None)
    os.mkdir("disk")
    os.chdir("disk")
    os.mkdir("tmp")
    os.mkdir("kern")
    for name, text in PROJECTS.get(project, {}).items():
        with open(name, "w") as f:
            f.write(text)


def run_script(case, l, choices, stats, n, seed, clock):
    """One life, after a run of the same script without faults (on a copy of the disk) that counts its operations."""
    specs, script = case["specs"], l["script"]
    argv = gen.argv(specs[0]) + (["--monitoring"] if l.get("monitoring") else [])
    counts = None
    if any(o[0] == "build" and o[6] for o in script):
        here = os.getcwd()
        shutil.copytree(here, here + ".dry", symlinks=True)
        os.chdir(here + ".dry")
        try:
            lf = life.run_life(n, main_of(specs, script), Choices(seed=0), dict(case["sched"], policy="uniform"), argv, seed="dry%s" % seed,
                               clock=dict(clock), bytecode=l.get("bytecode", False))
        finally:
            os.chdir(here)
            shutil.rmtree(here + ".dry")
        if lf.kind == "ok" and not any(lf.excs):
            counts = {i: [next((q["n"] for q in rec if q["op"] == i), 0) for rec in lf.results] for i in range(len(script))}
        else:
            counts = {i: [40] * n for i in range(len(script))}
    lf = life.run_life(n, main_of(specs, script, counts), choices, case["sched"], argv, seed=seed, clock=clock, bytecode=l.get("bytecode", False))
    life.add(stats, lf)
    life.raise_violations(lf)
    stats.probe("lives")
    for k in {o[1] for o in lf.ops}:
        stats.probe("operations: " + k, sum(o[1] == k for o in lf.ops))
    return lf


def trace_of(lf):
    t = life.Trace(lf)
    t.tail = list(t.tail)[-15:] + ["disk op %d: process %d %s %s" % ((i + 1,) + tuple(o)) for i, o in enumerate(lf.ops)][-60:] + ["notes: %s" % (lf.notes,)]
    t.tbs = list(t.tbs) + [q["tb"] for rec in lf.results if rec for q in rec if q.get("tb")]
    return t


def next_clock(lf, clock, l):
    """The clock of the following life: it goes on, stands still or jumps back."""
    c = dict(clock)
    c["now"] = lf.clock.get("now", c["now"]) + l.get("jump", 0.)
    return c


def gen_fault(rng, kinds, nranks):
    return {"kind": rng.choice(kinds), "u": rng.random(), "e": rng.choice(ERR), "frac": rng.choice([0., .5, .99, rng.random()]), "rank": rng.randrange(nranks)}
