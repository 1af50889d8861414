"""C10: monitoring accounts every call and every second exactly once."""
import contextlib
import copy
import io
import os
import sys
import time
import types

import numpy as np

from .. import gen, world
from ..kernel import current
from ..result import Invalid, Violation

ID = "C10"
RULE = ("random call trees of monitored functions (recursion, siblings, methods, functions wrapped at each call, exceptions caught at any level) and "
        "simulations whose user functions take time, raise or step another simulation, on 1 to 3 processes with a simulated clock per process; the printed "
        "report is compared with an independent account; non-trivial: nested calls or an exception")
REAL = ["pylbm", "numpy", "sympy"]
STUB = ["mpi4py.MPI (simulated, including Wtime)", "time.time, perf_counter, monotonic, process_time", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 40, "thorough": 900}
CLOCKS = ("time", "perf_counter", "monotonic", "process_time")
NF = 5


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


EXC = {"user": Boom, "zero": ZeroDivisionError, "kbd": KeyboardInterrupt, "exit": SystemExit, "base": Stop}


def gen_tree(rng, depth, p_exc):
    return {"f": rng.randrange(NF), "pre": rng.randrange(0, 600), "post": rng.randrange(0, 600), "gap": rng.randrange(0, 100),
            "raises": rng.choice(sorted(EXC)) if rng.random() < p_exc else None, "catch": rng.random() < .5,
            "print": rng.random() < .03,
            "kids": [gen_tree(rng, depth - 1, p_exc) for _ in range(gen.wchoice(rng, {0: 2, 1: 3, 2: 2, 3: 1, 4: .5}) if depth else 0)]}


def gen_case(rng, tier):
    kind = gen.wchoice(rng, {"tree": 1, "sim": 2})
    if kind == "tree":
        p = rng.choice([0, .05, .15, .3])
        n = rng.choice([1, 1, 2, 3])
        return {"kind": kind, "n": n, "sched": gen.gen_sched(rng), "wrap": rng.choice(["once", "each"]), "origin": rng.choice([0, 1e3, 1.7e9]),
                "calls": [[gen_tree(rng, rng.randint(0, 5), p) for _ in range(rng.randint(1, 6))] for _ in range(n)]}
    spec = gen.gen_spec(rng, dims=(1, 1, 2, 2), maxranks=3, source=rng.random() < .2, small=True)
    if rng.random() < .5:
        spec["split"] = [1] * spec["dim"]
        spec["auto"] = True
    for b in spec["bc"].values():
        if rng.random() < .8:
            b["value"] = {"seed": rng.randrange(100), "time": rng.random() < .8}
    spec["nsteps"] = rng.randint(1, 6)
    spec["algo"] = {**spec.get("algo", {}), "split": rng.random() < .4}
    inner = None
    if rng.random() < .5:
        inner = gen.gen_spec(rng, dims=(1, 1, 2), maxranks=2, source=False, small=True)
        inner["split"] = [1] * inner["dim"]
    return {"kind": kind, "spec": spec, "inner": inner, "couple": rng.choice([.2, .5, 1]), "sched": gen.gen_sched(rng), "seed": rng.randrange(10 ** 6),
            "raises": rng.choice([0, 0, .1, .3]), "work": rng.choice([0, 1, 1, 5]), "origin": rng.choice([0, 1e3]),
            "mixed": rng.random() < .4, "compare": rng.random() < .4}


# ------------------------------------------------------------------ the clock
def clock(sim, rank):
    return sim.cfg["origin"] + sim.now + rank.store.get("time", 0.0)


def spend(ticks):
    """The calling process works."""
    r = current()[1]
    r.store["time"] = r.store.get("time", 0.0) + ticks / 1024


def here():
    return clock(*current())


@contextlib.contextmanager
def clocks():
    old = {k: getattr(time, k) for k in CLOCKS}

    def make(k):
        def f():
            sim, rank = current()
            return old[k]() if sim is None else clock(sim, rank)
        return f
    for k in CLOCKS:
        setattr(time, k, make(k))
    try:
        yield
    finally:
        for k in CLOCKS:
            setattr(time, k, old[k])


# ----------------------------------------------------------------- the report
def report():
    """The printed report: {(module, function): [ncall, total, self]}."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
        sys.modules["pylbm.monitoring"].Monitor.print()
    rows = {}
    for line in buf.getvalue().splitlines():
        w = line.split()
        if len(w) < 7 or w[0] == "%":
            continue
        try:
            k = (w[1], " ".join(w[2:-4]))
            v = [int(w[-4]), float(w[-3]), float(w[-2])]
        except ValueError:
            raise Violation("report", "cannot read the row %r of the report" % line)
        if k in rows:
            raise Violation("report", "two rows for %s in the report" % (k,))
        rows[k] = v
    return rows


def compare(got, want, what):
    for k, w in sorted(want.items()):
        if w[0] == 0:
            continue
        g = got.get(k)
        if g is None:
            raise Violation("missing", "%s: %s.%s was called %d times and is not in the report" % (what, k[0], k[1], w[0]))
        if g[0] != w[0]:
            raise Violation("ncall", "%s: %d calls of %s.%s recorded instead of %d" % (what, g[0], k[0], k[1], w[0]))
        for i, name in ((1, "total"), (2, "self")):
            if not abs(g[i] - w[i]) <= 1e-6 + 1e-9 * abs(w[i]):
                raise Violation(name, "%s: %s time %.9f of %s.%s recorded instead of %.9f (%d calls)" % (what, name, g[i], k[0], k[1], w[i], w[0]))
    for k, g in sorted(got.items()):
        if k not in want or not want[k][0]:
            if g[0] or g[1] or g[2]:
                raise Violation("unknown", "%s: the report has %d calls of %s.%s, there was none" % (what, g[0], k[0], k[1]))


# ------------------------------------------------------------ synthetic trees
class Account:
    """What happened, independently of pylbm."""

    def __init__(self):
        self.stack = []
        self.rows = {}

    def enter(self, k):
        self.stack.append([k, here(), 0.0])

    def leave(self):
        k, t0, inside = self.stack.pop()
        dt = here() - t0
        r = self.rows.setdefault(k, [0, 0.0, 0.0])
        r[0] += 1
        r[1] += dt
        r[2] += dt - inside
        if self.stack:
            self.stack[-1][2] += dt


def run_tree(case, choices, stats):
    mod = types.ModuleType("dstmonitored")
    sys.modules["dstmonitored"] = mod

    def main(r):
        monitor = sys.modules["pylbm.monitoring"].monitor
        acc = Account()
        made = {}

        def get(i):
            f = made[i]
            return monitor(f) if case["wrap"] == "each" else wrapped[i]

        def work(node, depth):
            spend(node["pre"])
            stats.nontrivial = stats.nontrivial or bool(node["kids"])
            for kid in node["kids"]:
                try:
                    call(kid, depth + 1)
                except tuple(EXC.values()):
                    if not node["catch"]:
                        raise
                spend(node["gap"])
            if node["print"] and r == 0 and acc.rows:
                compare(report(), {k: list(v) for k, v in acc.rows.items()}, "report printed within a call")
                stats.probe("reports printed within a call")
            spend(node["post"])
            if node["raises"]:
                stats.fault("exception in a monitored function")
                e = EXC[node["raises"]](depth)
                node["exc"] = e
                raise e

        def make(i):
            def f(self_or_node, *args, **kw):
                node = args[0] if i == NF - 1 else self_or_node
                acc.enter(key[i])
                try:
                    work(node, kw["depth"])
                finally:
                    acc.leave()
                return (id(node), kw["depth"])
            f.__name__ = "fun%d" % i
            f.__qualname__ = "K.method" if i == NF - 1 else "fun%d" % i
            f.__module__ = "dstmonitored"
            f.__doc__ = "doc %d" % i
            return f
        key = {i: ("dstmonitored", "K.method" if i == NF - 1 else "fun%d" % i) for i in range(NF)}
        for i in range(NF):
            made[i] = make(i)
        wrapped = {i: monitor(made[i]) for i in range(NF)}

        class K:
            method = wrapped[NF - 1]

        def call(node, depth):
            i = node["f"]
            f = get(i)
            if f.__name__ != made[i].__name__ or f.__doc__ != made[i].__doc__:
                raise Violation("wrapper", "a monitored function loses its name")
            try:
                if i == NF - 1:
                    out = K().method(node, depth=depth) if case["wrap"] == "once" else f(None, node, depth=depth)
                else:
                    out = f(node, depth=depth)
            except Violation:
                raise
            except BaseException as e:
                if node.get("exc") is not None and e is not node["exc"]:
                    raise Violation("wrapper", "a monitored function raised %r, %r reaches the caller" % (node["exc"], e))
                raise
            if out != (id(node), depth):
                raise Violation("wrapper", "a monitored function returned %r, the caller gets %r" % ((id(node), depth), out))

        for node in case["calls"][r]:
            try:
                call(copy.deepcopy(node), 0)
            except Violation:
                raise
            except tuple(EXC.values()):
                pass
            spend(node["gap"])
            current()[0].step("between calls")
        if r == 0:
            compare(report(), acc.rows, "process 0")
            stats.probe("reports compared")
            whole = sum(v[2] for v in report().values())
            outer = sum(v[2] for v in acc.rows.values())
            if abs(whole - outer) > 1e-6:
                raise Violation("partition", "the self times sum up to %.9f, the outermost calls last %.9f" % (whole, outer))

    cfg = dict(case["sched"], wtime=clock, origin=case["origin"])
    try:
        with clocks():
            out = world.run_world(case["n"], main, choices, cfg)
    finally:
        del sys.modules["dstmonitored"]
    finish(out, stats)


# ---------------------------------------------------------------- simulations
class Observer:
    """Calls of the functions of pylbm and of its generated modules in process 0, by the interpreter's own events."""
    TOOL = 3

    def __init__(self):
        self.stack = []
        self.done = []     # (key, start, end, depth) in the order of the starts
        self.main = None

    def wanted(self, code):
        f = code.co_filename
        return (f.startswith(self.repo) or f.startswith(self.scratch)) and not code.co_flags & 0x20   # generators are never monitored

    def start(self, code, off):
        if not self.wanted(code):
            return sys.monitoring.DISABLE
        if current()[1] is self.main:
            f = sys._getframe(1)
            self.done.append([(f.f_globals.get("__name__"), code.co_qualname), here(), None, len(self.stack)])
            self.stack.append((code, self.done[-1]))

    def stop(self, code, off, arg):
        if not self.wanted(code):
            return sys.monitoring.DISABLE
        self.end(code)

    def unwind(self, code, off, arg):
        if self.wanted(code):
            self.end(code)

    def end(self, code):
        if current()[1] is self.main and self.stack and self.stack[-1][0] is code:
            self.stack.pop()[1][2] = here()

    def on(self, sim):
        """Before the processes start: a function is not observed correctly when this is switched on while it runs."""
        m = sys.monitoring
        self.repo = os.path.join(world.REPO, "pylbm") + os.sep
        self.scratch = os.getcwd() + os.sep
        self.main = sim.ranks[0]
        m.use_tool_id(self.TOOL, "dst")
        e = m.events
        m.register_callback(self.TOOL, e.PY_START, self.start)
        m.register_callback(self.TOOL, e.PY_RETURN, self.stop)
        m.register_callback(self.TOOL, e.PY_UNWIND, self.unwind)
        m.set_events(self.TOOL, e.PY_START | e.PY_RETURN | e.PY_UNWIND)

    def off(self):
        m = sys.monitoring
        if m.get_tool(self.TOOL):
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)

    def rows(self, keys):
        rows = {}
        stack = []
        for k, t0, t1, depth in self.done:
            while stack and stack[-1][1] >= depth:
                stack.pop()
            if k not in keys or t1 is None:
                continue
            r = rows.setdefault(k, [0, 0.0, 0.0])
            r[0] += 1
            r[1] += t1 - t0
            r[2] += t1 - t0
            if stack:
                rows[stack[-1][0]][2] -= t1 - t0
            stack.append((k, depth))
        return rows


def run_sim(case, choices, stats):
    spec = case["spec"]
    n = gen.nranks(spec)

    def main(r, observe):
        import random
        rng = random.Random(case["seed"])
        state = {"in": False, "exc": 0, "ready": False}
        inner = None

        def hook(label, t, nargs):
            u, v, w = rng.random(), rng.random(), rng.random()
            if not observe:
                return
            spend(int(w * 100 * case["work"]))
            if inner is not None and not state["in"] and u < case["couple"]:
                state["in"] = True
                try:
                    inner.one_time_step()
                    stats.probe("simulations stepped within a step")
                finally:
                    state["in"] = False
            if v < case["raises"] and state["exc"] < 8 and state["ready"]:
                state["exc"] += 1
                stats.fault("exception in a user function")
                spend(7)
                raise Boom("on demand")

        def ihook(i):
            if observe:
                spend(3 * case["work"] * (i + 1))
        if case["inner"] is not None and observe and r == 0 and n == 1:
            inner = gen.simulate(case["inner"], steps=0, hook=hook, init_hook=ihook)
        state["ready"] = True
        s = world.pylbm().Simulation(gen.dico(spec, hook=hook, init_hook=ihook), sorder=copy.copy(spec.get("sorder")), initialize=False)
        for it in range(spec["nsteps"]):
            while True:
                try:
                    s.one_time_step()
                    break
                except Boom:
                    pass
            spend(5 * case["work"])
            if case["mixed"] and observe:
                s.m[0]
                if rng.random() < .3:
                    s.f2m()
                    s._update_m = False
                if r == 0 and it == 0:
                    check(obs, stats, "report printed after a step")
        if r == 0 and observe:
            check(obs, stats, "final report")
        return np.array([s.F[i] for i in range(s.container.F.nv)])

    cfg = dict(case["sched"], wtime=clock, origin=case["origin"])
    obs = Observer()
    try:
        with clocks():
            out = world.run_world(n, lambda r: main(r, True), choices, cfg, gen.argv(spec), setup=obs.on)
    finally:
        obs.off()
    finish(out, stats)
    stats.nontrivial = bool(stats.probes.get("reports compared"))
    stats.sim_steps += spec["nsteps"]
    if case["compare"]:
        ref = world.run_world(n, lambda r: main(r, False), choices, dict(case["sched"], wtime=lambda sim, rank: 0.0), gen.argv(spec), start=n)
        if not ref.clean:
            raise Invalid(ref.describe(), ref)
        for r, (a, b) in enumerate(zip(ref.results, out.results)):
            if not np.array_equal(a, b) and np.isfinite(a).all():
                raise Violation("results", "what is monitored changes the distributions of process %d, by up to %g" % (r, np.abs(a - b).max()), out)


def check(obs, stats, what):
    got = report()
    for k in (("pylbm.simulation", "Simulation.one_time_step"), ("pylbm.simulation", "Simulation.boundary_condition")):
        if k not in got:
            raise Violation("missing", "%s: %s.%s is not in the report" % ((what,) + k))
    compare(got, obs.rows(set(got)), what)
    stats.probe("reports compared")


def finish(out, stats):
    stats.world(out)
    for r, e in enumerate(out.excs):
        if isinstance(e, Violation):
            raise Violation(e.kind, str(e), out)
    if not out.clean:
        raise Violation("fails", out.describe(), out)


def run(case, choices, stats):
    (run_tree if case["kind"] == "tree" else run_sim)(case, choices, stats)
