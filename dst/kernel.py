"""Seeded cooperative scheduler.

A simulated process ("rank") is a thread which is parked and released one at a
time.  Every choice (who runs next, which network event fires, which fault
happens) goes through one `Choices` object; the log of its answers replays the
execution exactly.
"""
import hashlib
import os
import random
import sys
import threading
import _thread


class HarnessError(Exception):
    """The simulator itself cannot go on: neither a pass nor a violation."""


class Choices:
    """All nondeterminism of a run.  Value 0 is always the dullest choice."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed)
        self.replay = list(replay) if replay is not None else None
        self.log = []
        self.kinds = {}

    def pick(self, n, kind, chooser=None):
        if n <= 1:
            return 0
        i = len(self.log)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if not 0 <= v < n:
                v = 0
        else:
            v = chooser(self.rng) if chooser is not None else self.rng.randrange(n)
        self.log.append(v)
        if v:
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
        return v

    def flip(self, p, kind):
        """True with probability p."""
        if p <= 0:
            return False
        return bool(self.pick(2, kind, lambda r: 1 if r.random() < p else 0))


class Killed(BaseException):
    """Never seen by the code under test: killed ranks are parked for ever."""


class Rank:
    def __init__(self, index):
        self.index = index
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "ready"  # ready, blocked, done, exc, killed
        self.pred = None
        self.what = "start"
        self.result = None
        self.exc = None
        self.tb = None
        self.env = None
        self.nops = 0
        self.pid = 0
        self.store = {}


class Outcome:
    """What happened to a simulated world."""

    def __init__(self):
        self.kind = None  # ok, deadlock, steps, killed
        self.detail = ""
        self.results = []
        self.excs = []
        self.tbs = []
        self.states = []
        self.steps = 0
        self.switches = 0
        self.digest = ""
        self.leaks = []
        self.net = {}
        self.now = 0.0
        self.blocked = []
        self.tail = []
        self.protocol = []

    @property
    def clean(self):
        return self.kind == "ok" and not any(self.excs)

    def first_exc(self):
        for r, e in enumerate(self.excs):
            if e is not None:
                return r, e
        return None

    def describe(self):
        parts = [self.kind]
        if self.detail:
            parts.append(self.detail)
        for r, e in enumerate(self.excs):
            if e is not None:
                parts.append("rank %d raised %s: %s" % (r, type(e).__name__, str(e)[:300]))
        return "; ".join(parts)


DEFAULT_CFG = {
    "policy": "uniform",   # uniform, sticky, pct, starve, netlast, netfirst, roundrobin
    "starve": 0,
    "p_lazy": 0.3,         # buffered, but the buffer is read later
    "p_rdv": 0.3,          # rendezvous: needs the matching receive
    "p_early": 0.5,        # a process may leave a collective early
    "pct_changes": 3,
    "max_steps": 200000,
    "clock": "steps",      # steps, coarse, frozen
    "skew": 0.0,
}

_CUR = threading.local()
PID0 = 20000
_pid_counter = [PID0]


class Sim:
    def __init__(self, nranks, choices, cfg=None, envs=None, name="world", net=None):
        self.cfg = dict(DEFAULT_CFG)
        self.cfg.update(cfg or {})
        self.n = nranks
        self.name = name
        self.choices = choices
        self.ranks = [Rank(i) for i in range(nranks)]
        for r in self.ranks:
            _pid_counter[0] += 1
            r.pid = _pid_counter[0]
        if envs is not None:
            for r, e in zip(self.ranks, envs):
                r.env = e
        self.cur = None
        self.steps = 0
        self.switches = 0
        self.now = 1000.0
        self.tick = 1e-3
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.outcome = Outcome()
        self.over = False
        self.hash = hashlib.sha1()
        self.trace = []
        self.protocol = []   # protocol errors found by the MPI simulator
        self.disk = None
        if net is None:
            from . import fakempi
            net = fakempi.Network(self)
        self.net = net
        self.prio = None
        self.change_at = set()
        self.on_step = None
        pol = self.cfg["policy"]
        if pol == "pct":
            rng = choices.rng
            self.prio = [rng.random() for _ in range(nranks + 1)]
            self.change_at = {rng.randrange(1, 60 * nranks) for _ in range(self.cfg["pct_changes"])}

    # ---------------------------------------------------------------- running
    def run(self, mains):
        threading.stack_size(64 * 1024 * 1024)
        threads = []
        for r, main in zip(self.ranks, mains):
            t = threading.Thread(target=self._body, args=(r, main), daemon=True)
            r.thread = t
            threads.append(t)
        outer = getattr(_CUR, "sim", None), getattr(_CUR, "rank", None)
        for t in threads:
            t.start()
        self._dispatch(None)
        self.main_lock.acquire()
        self._switch_env(None)
        _CUR.sim, _CUR.rank = outer
        return self._finish()

    def _body(self, r, main):
        r.lock.acquire()
        _CUR.sim, _CUR.rank = self, r
        try:
            r.result = main(r.index)
            r.state = "done"
        except BaseException as e:  # noqa
            import traceback
            r.exc = e
            r.tb = traceback.format_exc()
            r.state = "exc"
            if isinstance(e, HarnessError):
                self.outcome.kind = "harness"
                self.outcome.detail = str(e)
        r.what = "finished"
        self.note("end:%s" % r.state, r)
        self._dispatch(r)

    def _finish(self):
        o = self.outcome
        if o.kind is None:
            o.kind = "ok"
        o.results = [r.result for r in self.ranks]
        o.excs = [r.exc for r in self.ranks]
        o.tbs = [r.tb for r in self.ranks]
        o.states = [r.state for r in self.ranks]
        o.steps = self.steps
        o.switches = self.switches
        o.digest = self.hash.hexdigest()
        o.net = dict(self.net.stats)
        o.now = self.now - 1000.0
        o.tail = self.trace[-60:]
        o.protocol = list(self.protocol)
        if o.kind == "ok" and not any(o.excs):
            o.leaks = self.net.leaks()
        self.over = True
        if o.kind == "harness":
            raise HarnessError(o.detail)
        for e in o.excs:
            if isinstance(e, HarnessError):
                raise e
        return o

    def stop(self, kind, detail=""):
        """End the world here (deadlock, step bound, kill)."""
        if self.outcome.kind is None:
            self.outcome.kind = kind
            self.outcome.detail = detail
            self.outcome.blocked = [(r.index, r.state, r.what) for r in self.ranks]
        self.over = True

    def kill_all(self, detail=""):
        """SIGKILL of the whole job: called from a rank, never returns there."""
        r = _CUR.rank
        for q in self.ranks:
            if q.state not in ("done", "exc"):
                q.state = "killed"
        self.stop("killed", detail)
        self.main_lock.release()
        self._park_forever(r)

    @staticmethod
    def _park_forever(r):
        while True:
            r.lock.acquire()

    # -------------------------------------------------------------- scheduling
    def note(self, what, r=None):
        r = r or _CUR.rank
        s = "%d %s" % (r.index, what)
        self.hash.update(s.encode())
        self.trace.append(s)
        if len(self.trace) > 4000:
            del self.trace[:2000]

    def step(self, what):
        """A yield point of the current rank."""
        r = _CUR.rank
        if self.over:
            self._park_forever(r)
        r.what = what
        r.nops += 1
        self._dispatch(r)
        self.note(what, r)

    def block(self, pred, what):
        r = _CUR.rank
        if self.over:
            self._park_forever(r)
        if pred():
            return
        r.state, r.pred, r.what = "blocked", pred, what
        self._dispatch(r)
        r.pred = None

    def _candidates(self, cur):
        runnable = []
        if cur is not None and (cur.state == "ready" or (cur.state == "blocked" and cur.pred())):
            runnable.append(cur)
        for r in self.ranks:
            if r is cur:
                continue
            if r.state == "ready" or (r.state == "blocked" and r.pred()):
                runnable.append(r)
        return runnable

    def _choose(self, runnable, events, cur):
        nr, ne = len(runnable), len(events)
        n = nr + ne
        pol = self.cfg["policy"]

        def chooser(rng):
            if pol == "sticky":
                if nr and runnable[0] is cur and rng.random() < 0.8:
                    return 0
                return rng.randrange(n)
            if pol == "netlast":
                return rng.randrange(nr) if nr else rng.randrange(n)
            if pol == "netfirst":
                return nr + rng.randrange(ne) if ne else rng.randrange(n)
            if pol == "starve":
                ok = [i for i, r in enumerate(runnable) if r.index != self.cfg["starve"] % self.n]
                ok += list(range(nr, n))
                return rng.choice(ok) if ok else 0
            if pol == "pct":
                best = None
                if self.steps in self.change_at:
                    k = rng.randrange(self.n + 1)
                    self.prio[k] = min(self.prio) - rng.random()
                for i, r in enumerate(runnable):
                    if best is None or self.prio[r.index] > best[0]:
                        best = (self.prio[r.index], i)
                if ne and (best is None or self.prio[self.n] > best[0]):
                    return nr + rng.randrange(ne)
                return best[1]
            return rng.randrange(n)

        return self.choices.pick(n, "sched", chooser)

    def _dispatch(self, cur):
        """Give the processor to somebody; returns when `cur` is chosen again."""
        while True:
            self.steps += 1
            self.now += self.tick
            if self.steps > self.cfg["max_steps"]:
                self.stop("steps", "no end within %d steps" % self.cfg["max_steps"])
            runnable = events = None
            if not self.over:
                runnable = self._candidates(cur)
                events = self.net.events()
                if not runnable and not events:
                    left = [r for r in self.ranks if r.state not in ("done", "exc", "killed")]
                    if left:
                        self.stop("deadlock", "; ".join("rank %d waits in %s" % (r.index, r.what) for r in left))
                    else:
                        self.over = True
            if self.over:
                self.main_lock.release()
                if cur is None or cur.state in ("done", "exc"):
                    return
                self._park_forever(cur)
            i = self._choose(runnable, events, cur)
            if i >= len(runnable):
                ev = events[i - len(runnable)]
                s = "net " + ev.fire()
                self.hash.update(s.encode())
                self.trace.append(s)
                continue
            nxt = runnable[i]
            nxt.state = "ready"
            if nxt is cur:
                return
            self.switches += 1
            self.cur = nxt
            self._switch_env(nxt)
            nxt.lock.release()
            if cur is None or cur.state in ("done", "exc"):
                return
            cur.lock.acquire()
            return

    # --------------------------------------------------- per-process interpreter state
    _active_env = None

    def _switch_env(self, nxt):
        env = nxt.env if nxt is not None else None
        if Sim._active_env is env:
            return
        if Sim._active_env is not None:
            Sim._active_env.leave()
        Sim._active_env = env
        if env is not None:
            env.enter()


def current():
    """(sim, rank) of the calling thread, or (None, None)."""
    return getattr(_CUR, "sim", None), getattr(_CUR, "rank", None)
