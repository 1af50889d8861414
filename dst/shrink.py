"""Smaller cases for minimisation."""
import copy

from .gen import narrow_neumann


def spec_candidates(spec):
    for s in _candidates(spec):
        if not narrow_neumann(s) or narrow_neumann(spec):
            yield s


def _candidates(spec):
    def v(**kw):
        s = copy.deepcopy(spec)
        for k, x in kw.items():
            if x is None:
                s.pop(k, None)
            else:
                s[k] = x
        return s

    n = spec.get("nsteps", 1)
    for k in (1, n // 2, n - 1):
        if 0 < k < n:
            yield v(nsteps=k)
    for i in range(len(spec.get("elements", ()))):
        e = list(spec["elements"])
        del e[i]
        yield v(elements=e or None)
    for k in ("source", "sorder", "la", "relvel", "symrelax", "late", "feq"):
        if spec.get(k) is not None:
            yield v(**{k: None})
    if "split" in spec:
        for a in range(len(spec["split"])):
            for x in (1, spec["split"][a] - 1):
                if 0 < x < spec["split"][a]:
                    s = list(spec["split"])
                    s[a] = x
                    yield v(split=s, auto=False)
    for a in range(spec["dim"]):
        if spec["label"][2 * a] != -1:
            l = list(spec["label"])
            l[2 * a] = l[2 * a + 1] = -1
            yield v(label=l)
    for l in spec.get("bc", {}):
        if "value" in spec["bc"][l]:
            b = copy.deepcopy(spec["bc"])
            del b[l]["value"]
            yield v(bc=b)
        for m, x in spec["bc"][l]["method"].items():
            if x != "BounceBack":
                b = copy.deepcopy(spec["bc"])
                b[l]["method"][m] = "BounceBack"
                yield v(bc=b)
    for a in range(spec["dim"]):
        for x in (spec["n"][a] // 2, spec["n"][a] - 1):
            if 1 < x < spec["n"][a]:
                m = list(spec["n"])
                m[a] = x
                yield v(n=m)
    if any(spec["x0"]):
        yield v(x0=[0.] * spec["dim"])


DULL = {"policy": "uniform", "p_lazy": 0, "p_rdv": 0, "p_early": 0, "skew": 0, "reorder": False}


def candidates(prop, case):
    if hasattr(prop, "shrink"):
        yield from prop.shrink(case)
    for k, s in case.items():
        if isinstance(s, dict) and "fam" in s and "dim" in s:
            for x in spec_candidates(s):
                yield dict(case, **{k: x})
        if k == "specs" and isinstance(s, list):
            for i, q in enumerate(s):
                for x in spec_candidates(q):
                    yield dict(case, specs=s[:i] + [x] + s[i + 1:])
        if k in ("ops", "faults") and isinstance(s, list):
            for size in (len(s) // 2, 1):
                if size < 1:
                    continue
                for i in range(0, len(s), size):
                    yield dict(case, **{k: s[:i] + s[i + size:]})
        if k == "sched" and isinstance(s, dict):
            for kk, d in DULL.items():
                if s.get(kk, d) != d:
                    yield dict(case, sched=dict(s, **{kk: d}))
