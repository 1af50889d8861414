"""Seeded search: many simulated runs, minimisation, replay files, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import queue
import random
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_SOFT = 60      # seconds of CPU time of one run
CPU_HARD = 240     # ... when it is tried again, alone
NWORKERS = int(os.environ.get("DST_WORKERS", "8"))


def load(pid):
    return importlib.import_module("dst.props." + pid.lower())


def case_rng(pid, seed, i):
    return random.Random("%s/%d/%d" % (pid, seed, i))


# ------------------------------------------------------------------ in the child
def execute(prop, case, choices):
    """One run; returns a JSON-able result."""
    from .kernel import HarnessError
    from .result import Invalid, Stats, Violation
    st = Stats()
    res = {"status": "ok"}
    try:
        prop.run(case, choices, st)
    except Invalid as e:
        res = {"status": "invalid", "msg": str(e)[:1500]}
    except Violation as e:
        res = {"status": "violation", "kind": e.kind, "msg": str(e)[:3000]}
        if e.outcome is not None:
            res["trace"] = list(e.outcome.tail[-40:])
            res["outcome"] = e.outcome.describe()[:2000]
            res["tb"] = [t[-2500:] for t in e.outcome.tbs if t][:2]
    except HarnessError as e:
        import traceback
        res = {"status": "harness", "msg": "HarnessError " + str(e)[:800] + "\n" + traceback.format_exc()[-2500:]}
    except BaseException:
        import traceback
        res = {"status": "harness", "msg": traceback.format_exc()[-3500:]}
    res["stats"] = st.as_dict()
    res["log"] = choices.log
    res["kinds"] = choices.kinds
    return res


def child(prop, job, wfd, cpu, scratch):
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    os.makedirs(scratch)
    os.chdir(scratch)
    tempfile.tempdir = scratch
    os.environ["TMPDIR"] = scratch
    import numpy as np
    from .kernel import Choices
    from .world import reset_process
    reset_process()
    key = job.get("key", 0)
    random.seed(key)
    np.random.seed(int(hashlib.sha1(str(key).encode()).hexdigest()[:7], 16))
    case = job.get("case")
    if case is None:
        rng = case_rng(prop.ID, job["seed"], job["i"])
        case = prop.gen_case(rng, job["tier"])
    ch = Choices(seed="%s" % key, replay=job.get("log"))
    t = time.time()
    res = execute(prop, case, ch)
    res["case"] = case
    res["wall"] = time.time() - t
    data = json.dumps(res, default=_jd).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]


def _jd(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    return str(o)


def worker(pid, base):
    os.environ["DST_SCRATCH"] = base
    prop = load(pid)
    from . import world
    world.prepare()
    if hasattr(prop, "prepare"):
        prop.prepare()
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        scratch = os.path.join(base, "w%d_%d" % (os.getpid(), n))
        cpu = job.get("cpu", CPU_SOFT)
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                child(prop, job, w, cpu, scratch)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 7
            finally:
                os._exit(code)
        os.close(w)
        buf = []
        deadline = time.time() + cpu * 3 + 30
        hung = False
        while True:
            left = deadline - time.time()
            if left <= 0:
                hung = True
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                hung = True
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
        os.close(r)
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(p, 0)
        shutil.rmtree(scratch, ignore_errors=True)
        data = b"".join(buf)
        try:
            res = json.loads(data)
        except ValueError:
            res = {"status": "timeout" if hung or (os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU)
                   else "harness",
                   "msg": "no result from the run, wait status %d%s" % (status, " (hung)" if hung else ""),
                   "case": job.get("case"), "stats": {}, "log": [], "wall": 0}
        res["job"] = {k: v for k, v in job.items() if k not in ("case", "log")}
        out.write(json.dumps(res) + "\n")
        out.flush()


# ------------------------------------------------------------------ in the master
class Worker:
    def __init__(self, pool, idx, pid, base, hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hashseed)
        env["PYTHONPATH"] = HERE
        env.setdefault("OMP_NUM_THREADS", "1")
        env.setdefault("OPENBLAS_NUM_THREADS", "1")
        env["MPLBACKEND"] = "Agg"
        env["MALLOC_PERTURB_"] = str(1 + hashseed % 254)   # what new memory contains is decided here
        env["DST_WORKER"] = str(idx)
        env.pop("PYTHONDONTWRITEBYTECODE", None)
        env.pop("TMPDIR", None)
        self.hashseed = hashseed
        self.idx = idx
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "dst.runner", "--worker", pid, "--base", base],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE, text=True)
        self.pool = pool
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                self.pool.q.put((self, json.loads(line)))
            except ValueError:
                sys.stderr.write("worker said: " + line)
        self.pool.q.put((self, None))

    def send(self, job):
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            pass


class Pool:
    def __init__(self, pid, n, base, seed, hashseeds=None):
        self.q = queue.Queue()
        self.workers = []
        for k in range(n):
            hs = hashseeds[k] if hashseeds else (seed * 131 + k * 7919) % 4294967
            self.workers.append(Worker(self, k, pid, base, hs))
        self.idle = []
        self.alive = n
        self.busy = 0

    def map(self, jobs, deadline=None, on_result=None):
        """Run jobs from an iterator until it ends or the deadline passes; on_result may return True to stop."""
        it = iter(jobs)
        stop = False
        out = []
        while True:
            while self.idle and not stop and (deadline is None or time.time() < deadline):
                try:
                    job = next(it)
                except StopIteration:
                    stop = True
                    break
                self.idle.pop().send(job)
                self.busy += 1
            if self.busy == 0 and (stop or (deadline is not None and time.time() >= deadline)) \
                    and len(self.idle) + 0 >= min(1, self.alive):
                return out
            if self.alive == 0:
                raise RuntimeError("all workers died")
            timeout = None
            if deadline is not None:
                timeout = max(0.05, deadline - time.time())
            try:
                w, res = self.q.get(timeout=timeout)
            except queue.Empty:
                continue
            if res is None:
                self.alive -= 1
                continue
            if not res.get("ready"):
                self.busy -= 1
                res["hashseed"] = w.hashseed
                res["worker"] = w.idx
                out.append(res)
                if on_result is not None and on_result(res):
                    stop = True
            self.idle.append(w)

    def repeat(self, runs, limit):
        """Execute some runs again, each on the worker (hash seed) that did it; -> list of (before, after)."""
        todo = {}
        for r in runs:
            todo.setdefault(r["worker"], []).append(r)
        pairs = []
        end = time.time() + limit
        idle = {w.idx: w for w in self.idle}
        while True:
            sent = {}
            for k, L in todo.items():
                if L and k in idle and time.time() < end:
                    sent[k] = L.pop()
                    idle[k].send(sent[k]["job"])
            if not sent:
                return pairs
            for _ in range(len(sent)):
                w, res = self.q.get()
                if res is None:
                    self.alive -= 1
                    self.idle = [x for x in self.idle if x is not w]
                    idle.pop(w.idx)
                else:
                    pairs.append((sent[w.idx], res))

    def close(self):
        for w in self.workers:
            try:
                w.p.stdin.close()
            except OSError:
                pass
            w.p.kill()
        for w in self.workers:
            w.p.wait()


class Known:
    """known-findings.txt: 'finding: property=<id> kind=<kind> match=<regex> | <text>'"""

    def __init__(self, pid):
        self.items = []
        self.hit = set()
        path = os.path.join(HERE, "known-findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) kind=(\S+) match=(\S+) \| (.*)", line)
                if m and m.group(1) == pid:
                    self.items.append((m.group(2), re.compile(m.group(3)), m.group(4)))

    def match(self, res):
        for i, (kind, rx, text) in enumerate(self.items):
            if res.get("kind") == kind and rx.search(json.dumps(res["case"]) + " " + res["msg"]):
                self.hit.add(i)
                return True
        return False


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def signature(r):
    st = r.get("stats") or {}
    return hashlib.sha1(json.dumps([r["status"], r.get("msg"), r.get("log"), st.get("digests"), st.get("steps"), st.get("faults")],
                                   sort_keys=True).encode()).hexdigest()


def merge(dst, src):
    for k, v in (src or {}).items():
        dst[k] = dst.get(k, 0) + v


def minimise(prop, pool, res, deadline, log):
    """Shrink the case, then the schedule, keeping the same kind of violation."""
    best = res
    kind = res["kind"]
    from .shrink import candidates
    tried = set()

    def ok(r):
        return r["status"] == "violation" and r["kind"] == kind

    progress = True
    rounds = 0
    while progress and time.time() < deadline:
        progress = False
        rounds += 1
        cands = []
        for c in candidates(prop, best["case"]):
            k = case_key(c)
            if k not in tried:
                tried.add(k)
                cands.append(c)
        pos = 0
        while pos < len(cands) and time.time() < deadline:
            chunk = cands[pos:pos + 2 * len(pool.workers)]
            pos += len(chunk)
            jobs = []
            for j, c in enumerate(chunk):
                jobs.append({"case": c, "log": best["log"], "key": "m%d" % j, "ord": j})
                jobs.append({"case": c, "key": best["job"].get("key", 0), "ord": j})
            good = [r for r in pool.map(jobs, deadline) if ok(r)]
            if good:
                good.sort(key=lambda r: (r["job"]["ord"], len(r["log"])))
                best = good[0]
                progress = True
                break
    log("case minimised in %d rounds" % rounds)
    # schedule
    seq = list(best["log"])
    r = pool.map([{"case": best["case"], "log": [], "key": "z"}], deadline)
    if r and ok(r[0]):
        best = r[0]
        seq = []
    size = max(1, len(seq) // 2)
    while seq and size >= 1 and time.time() < deadline:
        nz = [i for i, v in enumerate(seq) if v]
        if not nz:
            break
        size = min(size, max(1, len(nz)))
        chunks = [nz[i:i + size] for i in range(0, len(nz), size)]
        jobs = []
        for j, ch in enumerate(chunks[:64]):
            s = list(seq)
            for i in ch:
                s[i] = 0
            while s and s[-1] == 0:
                s.pop()
            jobs.append({"case": best["case"], "log": s, "key": "s%d" % j, "ord": j})
        good = [(r, jobs[r["job"]["ord"]]["log"]) for r in pool.map(jobs, deadline) if ok(r)]
        if good:
            good.sort(key=lambda x: sum(1 for v in x[1] if v))
            best, seq = good[0]
            best["log"] = seq
        elif size == 1:
            break
        else:
            size = max(1, size // 2)
    best["log"] = seq
    return best


def write_replay(pid, res, args, original=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (pid, case_key([res["case"], res["log"]]))
    path = os.path.join(d, name)
    doc = {"property": pid, "kind": res["kind"], "message": res["msg"], "verif_seed": args.seed, "tier": args.tier,
           "key": res["job"].get("key", 0), "hashseed": res.get("hashseed", 0), "case": res["case"],
           "schedule_and_faults": res["log"], "kinds": res.get("kinds", {}), "outcome": res.get("outcome"),
           "trace_tail": res.get("trace"), "traceback": res.get("tb"),
           "how": "./check %s --replay %s" % (pid, path)}
    if original is not None:
        doc["original"] = {"case": original["case"], "schedule_and_faults": original["log"], "key": original["job"].get("key", 0)}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def replay_main(args, base):
    doc = json.load(open(args.replay))
    pool = Pool(doc["property"], 1, base, 0, hashseeds=[doc["hashseed"]])
    try:
        r = pool.map([{"case": doc["case"], "log": doc["schedule_and_faults"], "key": doc["key"], "cpu": CPU_HARD}])[0]
    finally:
        pool.close()
    print("replay: %s %s" % (r["status"], r.get("msg", "")))
    if r["status"] == "violation":
        for t in r.get("trace") or []:
            print("   " + t)
        print("same message: %s" % (r["msg"] == doc["message"]))
        print("VIOLATION property=%s replay=%s" % (doc["property"], args.replay))
        return 1
    return 0 if r["status"] in ("ok", "invalid") else 3


def search_main(args, base):
    t0 = time.time()
    pid = args.property
    prop = load(pid)
    budget = args.time or (prop.BUDGET if hasattr(prop, "BUDGET") else {}).get(args.tier) or {"quick": 45, "thorough": 1500}[args.tier]
    nw = args.workers or NWORKERS
    pool = Pool(pid, nw, base, args.seed)
    known = Known(pid)
    agg = {"net": {}, "faults": {}, "probes": {}, "kinds": {}}
    count = {"ok": 0, "invalid": 0, "violation": 0, "harness": 0, "timeout": 0, "known": 0}
    tot = {"steps": 0, "switches": 0, "sim_steps": 0, "sim_time": 0.0}
    recs, again = [], {"runs": 0, "same": 0}
    digests, nontrivial, cases, samples, bad, slow, harness, invalid = set(), set(), set(), [], [], [], [], []

    def log(s):
        if args.verbose:
            print("[%6.1f] %s" % (time.time() - t0, s), flush=True)

    def jobs():
        if hasattr(prop, "core"):
            for n, c in enumerate(prop.core(args.tier)):
                for k in range(getattr(prop, "CORE_SEEDS", 1)):
                    yield {"case": c, "key": "core/%d/%d/%d" % (args.seed, n, k)}
        i = args.start
        while args.runs is None or i < args.start + args.runs:
            yield {"seed": args.seed, "i": i, "tier": args.tier, "key": "%d/%d" % (args.seed, i)}
            i += 1

    def on_result(r):
        s = r["status"]
        st = r.get("stats") or {}
        if s == "violation" and known.match(r):
            count["known"] += 1
            return False
        count[s] += 1
        if s == "invalid":
            invalid.append(r)
        if s in ("ok", "violation"):
            for k in ("net", "faults", "probes"):
                merge(agg[k], st.get(k))
            merge(agg["kinds"], r.get("kinds"))
            for k in tot:
                tot[k] += st.get(k, 0)
            ck = case_key(r["case"])
            cases.add(ck)
            if s == "ok" and r.get("wall", 99) < 10 and (len(recs) < 16 or len(r["log"]) and count["ok"] % 16 == 0 and len(recs) < 48):
                j = dict(r["job"])
                if "seed" not in j:
                    j["case"] = r["case"]
                recs.append({"worker": r["worker"], "job": j, "sig": signature(r)})
            d = hashlib.sha1(("".join(st.get("digests", [])) + ck).encode()).hexdigest()
            for x in st.get("digests", []):
                digests.add(x)
            if st.get("nontrivial") or st.get("switches", 0) > 1:
                nontrivial.add(d)
            if len(samples) < 3 and s == "ok" and (st.get("nontrivial") or st.get("switches", 0) > 1):
                samples.append({"case": r["case"], "choices": len(r["log"]), "non_default_choices": r.get("kinds"),
                                "scheduler_steps": st.get("steps"), "faults": st.get("faults"),
                                "digest": (st.get("digests") or [""])[0]})
        if args.verbose and (s != "ok" or args.verbose > 1):
            log("%s %s %s %.2f %s" % (r["job"], s, r.get("msg", "")[:900], r.get("wall", 0), json.dumps(r["case"]) if args.verbose > 1 or s == "violation" else ""))
        if s == "violation":
            bad.append(r)
            return not args.keep_going
        if s == "timeout":
            slow.append(r)
        if s == "harness":
            harness.append(r)
            return len(harness) > 20 and not args.keep_going
        return False

    code = 0
    line = None
    try:
        pool.map(jobs(), t0 + budget, on_result)
        t_search = time.time() - t0
        # determinism: some runs again, with the same seed, in another process
        if not bad and pool.alive:
            for a, b in pool.repeat(recs, 6 if args.tier == "quick" else 30):
                again["runs"] += 1
                if a["sig"] == signature(b):
                    again["same"] += 1
                else:
                    log("not repeated exactly: %s" % a["job"])
        # runs that used too much CPU: again, alone, with a larger limit
        for r in slow[:2]:
            if bad:
                break
            job = dict(r["job"], cpu=CPU_HARD)
            if r.get("case") is not None:
                job["case"] = r["case"]
            x = pool.map([job])[0]
            log("retry of a slow run: %s" % x["status"])
            if x["status"] == "violation":
                if not known.match(x):
                    bad.append(x)
                    count["violation"] += 1
            elif x["status"] != "ok" and x["status"] != "invalid":
                harness.append(x)
        if again["runs"] != again["same"]:
            print("determinism: %(same)d of %(runs)d repeated runs are the same" % again)
        if bad:
            bad.sort(key=lambda r: (len(json.dumps(r["case"])), len(r["log"])))
            first = bad[0]
            log("violation: " + first["msg"])
            fin = first
            if not args.no_minimise:
                try:
                    fin = minimise(prop, pool, first, time.time() + (args.min_time or 60), log)
                except RuntimeError:
                    fin = first
            path = write_replay(pid, fin, args, first)
            rc, same = verify_replay(path, args)
            if rc != 1 and fin is not first:
                log("the minimised replay does not reproduce, keeping the original")
                path = write_replay(pid, first, args)
                rc, same = verify_replay(path, args)
                fin = first
            print("violation of %s (%s)" % (pid, fin["msg"]))
            print("case: %s" % json.dumps(fin["case"]))
            print("schedule and faults: %d decisions, %d not default; replay in a fresh process: %s"
                  % (len(fin["log"]), sum(1 for v in fin["log"] if v), "reproduced" if rc == 1 else "NOT reproduced"))
            if rc == 1 or getattr(prop, "REPLAY_OPTIONAL", False):
                code = 1
                line = "VIOLATION property=%s replay=%s" % (pid, path)
            else:
                print("harness error: the failure does not replay")
                code = 3
        elif harness or count["ok"] == 0 or count["invalid"] > max(10, count["ok"]):
            code = 3
            for r in harness[:3]:
                print("harness error: %s %s" % (r["job"], r.get("msg")))
            if count["ok"] == 0 or count["invalid"] > max(10, count["ok"]):
                print("too few valid runs: %s; %s" % (count, invalid[0]["msg"] if invalid else ""))
        for i in sorted(known.hit):
            print("KNOWN-FINDING: property=%s %s" % (pid, known.items[i][2]))
    finally:
        pool.close()
    wall = time.time() - t0
    ev = {"property": pid, "tier": args.tier, "seed": args.seed, "level": getattr(prop, "LEVEL", "exploration"),
          "coverage": {
              "evaluations": count["ok"] + count["violation"], "distinct_nontrivial": len(nontrivial),
              "rule": prop.RULE, "samples": samples or [bad[0]["case"]] if (samples or bad) else [],
              "invalid_descriptions_skipped": count["invalid"], "distinct_cases": len(cases),
              "distinct_interleavings": len(digests),
              "interleaving_measure": "sha1 over the sequence of (process, operation) and network events of a simulated world",
              "runs_per_hour": round((count["ok"] + count["violation"]) / max(t_search, 1e-3) * 3600),
              "seeds": {"verif_seed": args.seed, "first": args.start, "runs": sum(count.values())},
              "repeated_for_determinism": again,
              "workers": nw, "hash_seeds": [w.hashseed for w in pool.workers],
              "scheduler_steps": tot["steps"], "context_switches": tot["switches"],
              "simulated_lbm_steps": tot["sim_steps"], "simulated_seconds": round(tot["sim_time"], 3),
              "faults_injected": agg["faults"], "probes": agg["probes"], "network": agg["net"],
              "non_default_decisions": agg["kinds"], "real_components": prop.REAL, "stubbed_components": prop.STUB,
              "outcomes": count},
          "assumptions": getattr(prop, "ASSUMPTIONS", []) + ["sampling, not exhaustive: a clean batch is evidence, not proof"],
          "wall_s": round(wall, 2), "violations": count["violation"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_jd)
    print("%s %s seed %d: %d runs (%s), %d distinct non-trivial, %d interleavings, %d scheduler steps, faults %s, %.1f s"
          % (pid, args.tier, args.seed, ev["coverage"]["evaluations"], count, len(nontrivial), len(digests), tot["steps"],
             agg["faults"], wall))
    if line:
        print(line)
    return code


def verify_replay(path, args):
    p = subprocess.run([sys.executable, "-m", "dst.runner", args.property, "--replay", path], cwd=HERE,
                       env=dict(os.environ, PYTHONPATH=HERE), capture_output=True, text=True)
    return p.returncode, "same message: True" in p.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--min-time", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("-v", dest="verbose", action="count", default=0)
    ap.add_argument("--worker")
    ap.add_argument("--base")
    args = ap.parse_args()
    if args.worker:
        worker(args.worker, args.base)
        return 0
    base = tempfile.mkdtemp(prefix="dst_", dir="/tmp")
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        if args.replay:
            return replay_main(args, base)
        return search_main(args, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
