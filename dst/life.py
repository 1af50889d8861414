"""One life of the simulated job in its own operating system process: started, killed or ended; only the disk remains."""
import ast
import faulthandler
import os
import pickle
import signal
import sys

from . import world
from .disk import Disk
from .kernel import HarnessError
from .result import Violation


class Durable(list):
    """A list whose items are known to the parent even when the process crashes."""

    def __init__(self, fd):
        self.fd = fd

    def append(self, x):
        list.append(self, x)
        os.write(self.fd, (repr(x) + "\n").encode())

    @staticmethod
    def read(fd):
        n = os.lseek(fd, 0, os.SEEK_END)
        return [ast.literal_eval(x) for x in os.pread(fd, n, 0).decode().split("\n") if x]


class Life:
    def __init__(self, d):
        self.__dict__.update(d)

    @property
    def killed(self):
        return self.kind == "killed"

    @property
    def clean(self):
        return self.kind == "ok" and not any(self.excs)

    def describe(self):
        parts = [self.kind] + ([self.detail] if self.detail else [])
        for r, e in enumerate(self.excs):
            if e:
                parts.append("process %d raised %s: %s" % (r, e[0], e[1][:300]))
        return "; ".join(parts)


def run_life(nranks, main, choices, cfg=None, argv=(), plan=(), seed=0, clock=None, start=0, bytecode=False, before=None, timeout=None):
    """main(rank) in a forked process under the disk simulator.  Results must be picklable.

    main may store things that must survive a kill with `disk.note(...)`.
    """
    r, w = os.pipe()
    tbf, nf, jf = os.memfd_create("traceback"), os.memfd_create("notes"), os.memfd_create("injected")
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            faulthandler.enable(tbf, all_threads=False)
            _child(w, nranks, main, choices, cfg, argv, plan, seed, clock, start, bytecode, before, nf, jf)
        except BaseException:
            import traceback
            data = pickle.dumps({"harness": traceback.format_exc()})
            _send(w, data)
            code = 7
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b"".join(buf)
    crash = os.pread(tbf, 4000, 0).decode(errors="replace")
    notes, injected = Durable.read(nf), Durable.read(jf)
    for f in (tbf, nf, jf):
        os.close(f)
    if not data:
        # died by itself (a signal): e.g. a truncated extension module
        return Life({"kind": "died", "detail": "wait status %d %s" % (status, " | ".join(crash.split("\n")[:12])), "results": [None] * nranks, "excs": [None] * nranks, "ops": [], "injected": injected,
                     "notes": notes, "clock": dict(clock or {}), "status": status, "tbs": [None] * nranks, "tail": [], "digest": "", "outcome": None})
    d = pickle.loads(data)
    if "harness" in d:
        raise HarnessError(d["harness"])
    choices.log[:] = d.pop("choices_log")
    choices.kinds = d.pop("choices_kinds")
    choices.rng.setstate(d.pop("rng"))
    return Life(d)


def _send(w, data):
    while data:
        n = os.write(w, data)
        data = data[n:]


def _child(w, nranks, main, choices, cfg, argv, plan, seed, clock, start, bytecode, before, nf, jf):
    disk = Disk(os.getcwd(), plan, seed, clock)
    disk.notes = Durable(nf)
    disk.injected = Durable(jf)
    sys.dont_write_bytecode = not bytecode
    holder = {}

    def setup(sim):
        sim.disk = disk
        holder["sim"] = sim

    def package(out):
        sim = holder["sim"]
        return {"kind": out.kind, "detail": out.detail, "results": out.results if out.kind == "ok" else [None] * nranks,
                "excs": [None if e is None else (type(e).__name__, str(e), getattr(e, "kind", None) if isinstance(e, Violation) else None) for e in out.excs],
                "tbs": out.tbs, "tail": list(out.tail), "digest": out.digest, "ops": disk.log, "injected": list(disk.injected), "notes": list(disk.notes),
                "clock": disk.clock, "choices_log": choices.log, "choices_kinds": choices.kinds, "rng": choices.rng.getstate(), "status": 0,
                "outcome": {"net": out.net, "steps": out.steps, "switches": out.switches, "now": out.now}}

    disk.install()
    if before is not None:
        before(disk)
    try:
        out = world.run_world(nranks, main, choices, cfg, argv, start=start, setup=setup)
    finally:
        disk.uninstall()
    d = package(out)
    try:
        data = pickle.dumps(d)
    except Exception:
        import traceback
        data = pickle.dumps({"harness": traceback.format_exc()})
    _send(w, data)
    if out.kind == "killed":
        os.kill(os.getpid(), signal.SIGKILL)


class _Out:
    pass


def add(stats, life):
    """Account a life in the statistics of the run."""
    o = _Out()
    d = life.outcome or {"net": {}, "steps": 0, "switches": 0, "now": 0}
    o.net, o.steps, o.switches, o.now, o.digest = d["net"], d["steps"], d["switches"], d["now"], life.digest
    stats.world(o)
    for i in life.injected:
        stats.fault(i)


def raise_violations(life):
    for r, e in enumerate(life.excs):
        if e and e[2]:
            raise Violation(e[2], "process %d: %s" % (r, e[1]), Trace(life))


class Trace:
    """What the runner prints of a life."""

    def __init__(self, life):
        self.tail = life.tail
        self.tbs = life.tbs
        self._d = life.describe()

    def describe(self):
        return self._d
