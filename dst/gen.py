"""Random simulation descriptions (JSON specs) and their realisation as pylbm dictionaries."""
import copy
import math

import numpy as np
import sympy as sp

from . import world

# --------------------------------------------------------------------- schemes
X, Y, Z, LA = sp.symbols("X, Y, Z, LA")


def _sc(vel, cons, pol, s, eq, **kw):
    d = {"velocities": list(vel), "conserved_moments": cons, "polynomials": list(pol),
         "relaxation_parameters": list(s), "equilibrium": list(eq)}
    d.update(kw)
    return d


def _syms(names):
    return [sp.Symbol(n) for n in names.split()]


def fam_D1Q2(p):
    u, = _syms("u")
    return [_sc([1, 2], u, [1, X], [0., p["s"][0]], [u, p["c"][0] * u + p["q"] * u ** 2])], [u]


def fam_D1Q3(p):
    u, v = _syms("u v")
    return [_sc([0, 1, 2], [u, v], [1, X, X ** 2 / 2], [0., 0., p["s"][0]], [u, v, p["q"] * v ** 2 + .3 * u])], [u, v]


def fam_D1Q22(p):
    u, v = _syms("u v")
    return [_sc([1, 2], u, [1, X], [0., p["s"][0]], [u, v * p["c"][0]]),
            _sc([1, 2], v, [1, X], [0., p["s"][1]], [v, p["c"][1] * u + p["q"] * u ** 2])], [u, v]


def fam_D1Q32(p):
    u, v = _syms("u v")
    return [_sc([0, 1, 2], u, [1, X, X ** 2], [0., p["s"][0], p["s"][1]], [u, v * p["c"][0], .5 * u]),
            _sc([1, 2], v, [1, X], [0., p["s"][1]], [v, p["c"][1] * u])], [u, v]


def fam_D1Q5(p):   # reach 2
    u, = _syms("u")
    return [_sc([0, 1, 2, 3, 4], u, [1, X, X ** 2, X ** 3, X ** 4], [0.] + [p["s"][i % 4] for i in range(4)],
                [u, p["c"][0] * u, .5 * u, p["c"][0] * u, .8 * u])], [u]


def fam_D1Q3r2(p):  # only long velocities
    u, = _syms("u")
    return [_sc([0, 3, 4], u, [1, X, X ** 2], [0., p["s"][0], p["s"][1]], [u, p["c"][0] * u, 1.2 * u])], [u]


def fam_D1Q3r3(p):
    u, = _syms("u")
    return [_sc([0, 5, 6], u, [1, X, X ** 2], [0., p["s"][0], p["s"][1]], [u, p["c"][0] * u, 2.2 * u])], [u]


def fam_D1mix(p):  # different reaches in one simulation
    u, v = _syms("u v")
    return [_sc([1, 2], u, [1, X], [0., p["s"][0]], [u, p["c"][0] * v]),
            _sc([0, 3, 4], v, [1, X, X ** 2], [0., p["s"][1], p["s"][2]], [v, p["c"][1] * u, 1.1 * v])], [u, v]


def fam_D2Q4(p):
    u, = _syms("u")
    return [_sc([1, 2, 3, 4], u, [1, X, Y, X ** 2 - Y ** 2], [0., p["s"][0], p["s"][0], p["s"][1]],
                [u, p["c"][0] * u, p["c"][1] * u + p["q"] * u ** 2, 0.])], [u]


def fam_D2Q4d(p):  # diagonal velocities only
    u, = _syms("u")
    return [_sc([5, 6, 7, 8], u, [1, X, Y, X * Y], [0., p["s"][0], p["s"][1], p["s"][2]],
                [u, p["c"][0] * u, p["c"][1] * u, .1 * u])], [u]


def fam_D2Q5(p):
    u, = _syms("u")
    return [_sc(range(5), u, [1, X, Y, X ** 2 + Y ** 2, X ** 2 - Y ** 2], [0.] + p["s"][:4],
                [u, p["c"][0] * u, p["c"][1] * u, .6 * u, 0.])], [u]


def fam_D2Q43(p):
    h, qx, qy = _syms("h qx qy")
    pol = [1, X, Y, X ** 2 - Y ** 2]
    return [_sc([1, 2, 3, 4], h, pol, [0.] + [p["s"][0]] * 2 + [p["s"][1]], [h, qx, qy, 0.]),
            _sc([1, 2, 3, 4], qx, pol, [0.] + [p["s"][1]] * 2 + [p["s"][2]], [qx, .2 * h + p["q"] * qx ** 2, .1 * qx, 0.]),
            _sc([1, 2, 3, 4], qy, pol, [0.] + [p["s"][2]] * 2 + [p["s"][0]], [qy, .1 * qy, .2 * h, 0.])], [h, qx, qy]


def _d2q9(rho, qx, qy, p):
    q2 = qx ** 2 + qy ** 2
    r2 = X ** 2 + Y ** 2
    return _sc(range(9), [rho, qx, qy],
               [1, X, Y, 3 * r2 - 4, sp.Rational(1, 2) * (9 * r2 ** 2 - 21 * r2 + 8), 3 * X * r2 - 5 * X,
                3 * Y * r2 - 5 * Y, X ** 2 - Y ** 2, X * Y],
               [0., 0., 0., p["s"][0], p["s"][1], p["s"][2], p["s"][2], p["s"][3], p["s"][3]],
               [rho, qx, qy, -2 * rho + 3 * q2, rho - 3 * q2, -qx, -qy, qx ** 2 - qy ** 2, qx * qy])


def fam_D2Q9(p):
    rho, qx, qy = _syms("rho qx qy")
    return [_d2q9(rho, qx, qy, p)], [rho, qx, qy]


def fam_D2Q9_5(p):
    rho, qx, qy, T = _syms("rho qx qy T")
    return [_d2q9(rho, qx, qy, p),
            _sc(range(5), T, [1, X, Y, X ** 2 + Y ** 2, X ** 2 - Y ** 2], [0.] + p["s"][:4],
                [T, T * qx, T * qy, .6 * T, 0.])], [rho, qx, qy, T]


def fam_D2Q9r2(p):  # 0, axis and long axis velocities: reach 2 in both directions
    u, = _syms("u")
    return [_sc([0, 1, 2, 3, 4, 9, 10, 11, 12], u,
                [1, X, Y, X ** 2, Y ** 2, X ** 3, Y ** 3, X ** 4, Y ** 4],
                [0.] + [p["s"][i % 4] for i in range(8)],
                [u, p["c"][0] * u, p["c"][1] * u, .5 * u, .4 * u, .3 * u, .2 * u, .9 * u, .8 * u])], [u]


def fam_D2Q5a(p):  # reach 2 in x, 1 in y
    u, = _syms("u")
    return [_sc([0, 2, 4, 9, 11], u, [1, X, Y, X ** 2, Y ** 2], [0.] + p["s"][:4],
                [u, p["c"][0] * u, p["c"][1] * u, 1.3 * u, .4 * u])], [u]


def fam_D2Q5b(p):  # reach 1 in x, 2 in y
    u, = _syms("u")
    return [_sc([0, 1, 3, 10, 12], u, [1, X, Y, X ** 2, Y ** 2], [0.] + p["s"][:4],
                [u, p["c"][0] * u, p["c"][1] * u, .4 * u, 1.3 * u])], [u]


def fam_D3Q6(p):
    u, = _syms("u")
    return [_sc(range(1, 7), u, [1, X, Y, Z, X ** 2 - Y ** 2, X ** 2 - Z ** 2], [0.] + [p["s"][i % 4] for i in range(5)],
                [u, p["c"][0] * u, p["c"][1] * u, .1 * u, 0., 0.])], [u]


def fam_D3Q7(p):
    u, = _syms("u")
    return [_sc(range(7), u, [1, X, Y, Z, X ** 2, Y ** 2, Z ** 2], [0.] + [p["s"][i % 4] for i in range(6)],
                [u, p["c"][0] * u, p["c"][1] * u, -.1 * u, .3 * u, .2 * u, .25 * u])], [u]


def fam_D3Q8(p):   # corners only
    u, = _syms("u")
    return [_sc(range(19, 27), u, [1, X, Y, Z, X * Y, Y * Z, Z * X, X * Y * Z], [0.] + [p["s"][i % 4] for i in range(7)],
                [u, p["c"][0] * u, p["c"][1] * u, .1 * u, .05 * u, 0., -.1 * u, 0.])], [u]


def fam_D3Q12(p):   # edges only
    u, = _syms("u")
    x2, y2, z2 = X ** 2, Y ** 2, Z ** 2
    return [_sc(range(7, 19), u, [1, X, Y, Z, x2, y2, X * Y, Y * Z, Z * X, X * (y2 - z2), Y * (z2 - x2), Z * (x2 - y2)],
                [0.] + [p["s"][i % 4] for i in range(11)], [u, p["c"][0] * u, p["c"][1] * u, .1 * u, .6 * u, .7 * u, 0., .1 * u, 0., 0., 0., 0.])], [u]


def fam_D3Q15(p):
    m, qx, qy, qz = _syms("m qx qy qz")
    r2 = X ** 2 + Y ** 2 + Z ** 2
    s = p["s"]
    return [_sc(list(range(7)) + list(range(19, 27)), [m, qx, qy, qz],
                [1, X, Y, Z, r2, r2 ** 2, X * r2, Y * r2, Z * r2, X ** 2 - Y ** 2, Y ** 2 - Z ** 2, X * Y, Y * Z, Z * X, X * Y * Z],
                [0.] * 4 + [s[0], s[1]] + [s[2]] * 3 + [s[3]] * 5 + [s[1]],
                [m, qx, qy, qz, m, m, -qx / 3 + qx, .6 * qy, .6 * qz, .1 * qx, .1 * qy, .05 * m, 0., .02 * qz, 0.])], [m, qx, qy, qz]


FAMILIES = {
    1: {"D1Q2": fam_D1Q2, "D1Q3": fam_D1Q3, "D1Q22": fam_D1Q22, "D1Q32": fam_D1Q32, "D1Q5": fam_D1Q5,
        "D1Q3r2": fam_D1Q3r2, "D1Q3r3": fam_D1Q3r3, "D1mix": fam_D1mix},
    2: {"D2Q4": fam_D2Q4, "D2Q4d": fam_D2Q4d, "D2Q5": fam_D2Q5, "D2Q43": fam_D2Q43, "D2Q9": fam_D2Q9,
        "D2Q9_5": fam_D2Q9_5, "D2Q9r2": fam_D2Q9r2, "D2Q5a": fam_D2Q5a, "D2Q5b": fam_D2Q5b},
    3: {"D3Q6": fam_D3Q6, "D3Q7": fam_D3Q7, "D3Q8": fam_D3Q8, "D3Q12": fam_D3Q12, "D3Q15": fam_D3Q15},
}
REACH = {"D1Q5": [2], "D1Q3r2": [2], "D1Q3r3": [3], "D1mix": [2], "D2Q9r2": [2, 2], "D2Q5a": [2, 1], "D2Q5b": [1, 2]}
NSCHEMES = {"D1Q22": 2, "D1Q32": 2, "D1mix": 2, "D2Q43": 3, "D2Q9_5": 2}
WEIGHT = {1: {"D1Q2": 2, "D1Q3": 3, "D1Q22": 3, "D1Q32": 2, "D1Q5": 2, "D1Q3r2": 2, "D1Q3r3": 1, "D1mix": 2},
          2: {"D2Q4": 4, "D2Q4d": 3, "D2Q5": 3, "D2Q43": 2, "D2Q9": 3, "D2Q9_5": 1, "D2Q9r2": 1, "D2Q5a": 2, "D2Q5b": 2},
          3: {"D3Q6": 3, "D3Q7": 3, "D3Q8": 3, "D3Q12": 1, "D3Q15": 1}}
DIAGONAL = {"D2Q4d", "D2Q9", "D2Q9_5", "D3Q8", "D3Q12", "D3Q15"}


FEQ = {"D1Q2", "D1Q5", "D1Q3r2", "D1Q3r3", "D2Q4", "D2Q4d", "D2Q5", "D2Q5a", "D2Q5b", "D2Q9r2", "D3Q6", "D3Q7", "D3Q8", "D3Q12"}


def reach(fam):
    dim = int(fam[1])
    return REACH.get(fam, [1] * dim)


# ------------------------------------------------------------------ functions
def wave(seed, dim, amp=0.2, base=1.0):
    """A smooth, unsymmetric function of the coordinates, from a small integer."""
    r = np.random.RandomState(seed)
    k = r.randint(1, 4, size=dim)
    ph = r.uniform(0, 6, size=dim)
    g = r.uniform(-1, 1, size=dim)

    def f(*xs):
        v = base
        for i in range(dim):
            v = v + amp * (np.sin(2.7 * k[i] * xs[i] + ph[i]) + .3 * g[i] * xs[i])
        return v
    return f


def feq_function(vel, c, a):
    """Equilibrium distributions whose sum is c (symmetric velocity sets)."""
    n = len(vel)
    a = sp.Rational(int(round(1000 * a)), 1000)   # a float would not give back exactly c
    return sp.Matrix([c * (1 + a * int(v[0]) + (a * int(v[1]) / 2 if len(v) > 1 else 0)) / n for v in vel])


def _base(i):
    return 1.0 if i == 0 else 0.05 * i


class CallLog(list):
    """Calls of user functions: (label, t, coordinate arrays)."""


def bc_value(spec, label, val, consm, log=None, hook=None):
    """val: {'seed':k, 'time':bool, 'inplace':bool}; returns (function, or (function, args))."""
    dim = spec["dim"]
    seed = val["seed"]
    ws = [wave(seed + 17 * i, dim, 0.02, _base(i)) for i in range(len(consm))]

    def fill(m, t, xs):
        for i, c in enumerate(consm):
            m[c] = ws[i](*xs) + (0.03 * math.sin(5. * t + i + seed) if val.get("time") or frozen is not None else 0.)

    frozen = val.get("frozen")   # a constant value: the one a time dependent value has at this time
    if val.get("time"):
        def value(f, m, t, *xs):
            if log is not None:
                log.append((label, float(t), [np.array(x, dtype=float) for x in xs[:dim]]))
            if hook is not None:
                hook(label, t, len(xs) - dim)
            fill(m, t, xs[:dim])
    else:
        def value(f, m, *xs):
            if log is not None:
                log.append((label, None, [np.array(x, dtype=float) for x in xs[:dim]]))
            if hook is not None:
                hook(label, None, len(xs) - dim)
            fill(m, 0. if frozen is None else frozen, xs[:dim])
    if val.get("args"):
        return (value, tuple(val["args"]))
    return value


class Shared:
    """One function object for all the labels, told apart by its last argument."""

    def __init__(self, spec, consm, log, hook):
        self.f = {}
        vals = {int(l): b["value"] for l, b in spec["bc"].items() if b.get("value")}
        fs = {l: bc_value(spec, l, dict(v, args=None), consm, log, hook) for l, v in vals.items()}

        def timed(f, m, t, *xs):
            fs[xs[-1]](f, m, t, *xs[:-1])

        def const(f, m, *xs):
            fs[xs[-1]](f, m, *xs[:-1])
        self.timed, self.const = timed, const

    def value(self, label, val):
        return (self.timed if val.get("time") else self.const, tuple(val.get("args") or ()) + (label,))


def make_elem(p, e):
    k = e["kind"]
    a = e["args"]
    fl = e.get("isfluid", False)
    lab = e["label"]
    cls = {"circle": "Circle", "ellipse": "Ellipse", "triangle": "Triangle", "parallelogram": "Parallelogram",
           "sphere": "Sphere", "parallelepiped": "Parallelepiped", "cylinder": "CylinderCircle", "ellipsoid": "Ellipsoid"}[k]
    c = getattr(p, cls, None)
    if c is None:
        c = getattr(p, {"CylinderCircle": "Cylinder_Circle"}.get(cls, cls))
    return c(*copy.deepcopy(a), label=copy.deepcopy(lab), isfluid=fl)


def family(spec):
    """The schemes of a description and their conserved moments."""
    import random
    schemes, consm = FAMILIES[spec["dim"]][spec["fam"]](spec["par"])
    if spec.get("perm") is not None:
        # the moments in another order
        for i, sch in enumerate(schemes):
            order = list(range(len(sch["velocities"])))
            random.Random("%s/%s" % (spec["perm"], i)).shuffle(order)
            for k in ("polynomials", "relaxation_parameters", "equilibrium"):
                sch[k] = [sch[k][j] for j in order]
            if isinstance(sch["conserved_moments"], list):
                random.Random("%s/%s/c" % (spec["perm"], i)).shuffle(sch["conserved_moments"])
    return schemes, consm


def dico(spec, log=None, hook=None, init_hook=None):
    """The pylbm dictionary of a spec; called inside a simulated process."""
    p = world.pylbm()
    dim = spec["dim"]
    schemes, consm = family(spec)
    n, dx, x0 = spec["n"], spec["dx"], spec["x0"]
    box = {"label": copy.deepcopy(spec["label"])}
    for a, name in enumerate("xyz"[:dim]):
        box[name] = [x0[a], x0[a] + n[a] * dx]
    la = spec.get("la", 1.0)
    if la != 1.0:
        # keep the same scheme in lattice units: velocities are multiplied by la in pylbm
        for s in schemes:
            s["polynomials"] = [sp.sympify(q).subs([(X, X / LA), (Y, Y / LA), (Z, Z / LA)]) for q in s["polynomials"]]
    d = {"box": box, "space_step": dx, "scheme_velocity": LA if la != 1.0 else 1.0, "schemes": schemes,
         "generator": spec.get("generator", "numpy")}
    par = {}
    if la != 1.0:
        par[LA] = la
    if spec.get("source"):
        for c in consm:
            sch = next(q for q in schemes if c == q["conserved_moments"] or isinstance(q["conserved_moments"], list) and c in q["conserved_moments"])
            k = spec["source"]
            expr = {"lin": -.7 * c, "const": sp.Float(.3), "quad": .2 * c * (1 - c), "time": .3 * sp.Symbol("t") - .1 * c,
                    "space": sum(w * x for w, x in zip((.4, -.3, .2), (X, Y, Z)[:dim])) * c + .1 * (X, Y, Z)[dim - 1],
                    "spacetime": -.2 * sp.Abs((X, Y, Z)[dim - 1] - sp.Symbol("t")) ** 2 * c}[k]
            sch.setdefault("source_terms", {})[c] = expr
            if spec.get("source_one", True):
                break
    rv = spec.get("relvel")
    if rv and rv[0] == "const":
        d["relative_velocity"] = [sp.Symbol("UX%d" % a) for a in range(dim)]
        for a in range(dim):
            par[sp.Symbol("UX%d" % a)] = rv[1 + a]
    elif rv:   # moment dependent
        if len(consm) > dim:
            d["relative_velocity"] = [consm[1 + a] / consm[0] for a in range(dim)]
        else:
            d["relative_velocity"] = [rv[1 + a] * consm[0] for a in range(dim)]
    if spec.get("symrelax"):
        for i, sch in enumerate(schemes):
            for j, x in enumerate(sch["relaxation_parameters"]):
                if x != 0.:
                    sy = sp.Symbol("SR%d%s" % (i, "abcdefghijklmnopqrstuvwxyz"[j]))
                    sch["relaxation_parameters"][j] = sy
                    if not spec.get("late"):      # given at run time, see late_parameters
                        par[sy] = x
    if spec.get("feq"):
        for sch in schemes:
            c = sch["conserved_moments"]
            if not isinstance(c, list):
                sch.pop("equilibrium")
                sch["feq"] = (feq_function, (c, spec["feq"]))
    if spec.get("matrix"):
        # the matrix of the moments instead of the polynomials
        vs = p.Stencil({"dim": dim, "schemes": [{"velocities": list(schemes[0]["velocities"])}]}).get_all_velocities()
        ps = [sp.sympify(q) for q in schemes[0].pop("polynomials")]
        schemes[0]["M"] = sp.Matrix(len(ps), len(ps), lambda i, j: ps[i].subs([(x, int(vs[j][a]) * d["scheme_velocity"]) for a, x in enumerate((X, Y, Z)[:dim])]))
    if par:
        d["parameters"] = par
    if spec.get("elements"):
        d["elements"] = [make_elem(p, e) for e in spec["elements"]]
    if spec.get("bc"):
        d["boundary_conditions"] = {}
        shared = Shared(spec, consm, log, hook) if spec.get("sharebc") else None
        for lab, b in spec["bc"].items():
            e = {"method": {int(k): getattr(p.bc, v) for k, v in b["method"].items()}}
            if b.get("value"):
                if shared:
                    e["value"] = shared.value(int(lab), b["value"])
                else:
                    e["value"] = bc_value(spec, int(lab), b["value"], consm, log, hook)
                if b["value"].get("time"):
                    e["time_bc"] = True
            d["boundary_conditions"][int(lab)] = e
    ini = spec["init"]
    d["init"] = {}
    if ini["type"] == "moments":
        for i, c in enumerate(consm):
            if i in ini.get("omit", ()):
                continue    # not given: zero
            if ini.get("const"):
                d["init"][c] = _base(i) + .01 * (ini["seed"] % 7)
            else:
                d["init"][c] = _hooked(wave(ini["seed"] + i, dim, .1 * (1 if i == 0 else .3), _base(i)), init_hook, i)
                if ini.get("args"):
                    d["init"][c] = (_with_arg(d["init"][c], dim), (.01 * (i + 1),))
    else:
        d["inittype"] = "distributions"
        k = 0
        for i, s in enumerate(schemes):
            for j in range(len(s["velocities"])):
                d["init"][k] = _hooked(wave(ini["seed"] + k, dim, .02, .1 + .01 * k), init_hook, k)
                k += 1
    if spec.get("codegen") is not None:
        d["codegen_option"] = copy.deepcopy(spec["codegen"])
    if spec.get("algo"):
        import sys
        settings = dict(spec["algo"])
        cls = {"pull": "PullAlgorithm", "base": "BaseAlgorithm"}[settings.pop("class", "pull")]
        d["lbm_algorithm"] = {"name": getattr(sys.modules["pylbm.algorithm"], cls), "settings": settings}
    if "show_code" in spec:
        d["show_code"] = spec["show_code"]
    return d


def _hooked(f, hook, i):
    if hook is None:
        return lambda *xs: f(*xs)

    def g(*xs):
        hook(i)
        return f(*xs)
    return g


def _with_arg(f, dim):
    def g(*xs):
        return f(*xs[:dim]) + xs[dim]
    return g


def consm_of(spec):
    return family(spec)[1]


def nv_of(spec):
    return sum(len(s["velocities"]) for s in family(spec)[0])


# ------------------------------------------------------------------ random specs
def wchoice(rng, table):
    items = sorted(table.items())
    x = rng.random() * sum(w for _, w in items)
    for k, w in items:
        x -= w
        if x < 0:
            return k
    return items[-1][0]


def rnd(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def gen_elem(rng, dim, lo, hi, dx, label, allow_fluid=True):
    """An obstacle of about a few cells, not aligned with the grid."""
    L = [h - l for l, h in zip(lo, hi)]
    c = [round(l + rng.uniform(.1, .9) * w + .0137 * dx, 5) for l, w in zip(lo, L)]
    m = min(L)
    r = round(max(1.3 * dx, rng.uniform(.15, .35) * m) + .0071 * dx, 5)
    if dim == 2:
        kind = wchoice(rng, {"circle": 4, "ellipse": 2, "triangle": 1, "parallelogram": 3})
        if kind == "circle":
            a, nl = [c, r], 1
        elif kind == "ellipse":
            t = rng.uniform(0, 3)
            q = rng.choice([1., .75, .875])
            v1 = [round(r * math.cos(t) / q, 5), round(r * math.sin(t) / q, 5)]
            a = [c, v1, [-v1[1] * q, v1[0] * q]]
            nl = 1
        elif kind == "triangle":
            w = max(2.2 * r, 3.1 * dx)
            a = [[round(c[0] - .5 * w, 5), round(c[1] - .4 * w, 5)], [round(w, 5), round(.07 * w, 5)], [round(.31 * w, 5), round(w, 5)]]
            nl = 3
        else:
            w, h = max(1.7 * r, 2.1 * dx), max(1.4 * r, 2.1 * dx)
            sk = rng.choice([0., .13])
            a = [[round(c[0] - .5 * w, 5), round(c[1] - .5 * h, 5)], [round(w, 5), round(sk * w, 5)], [round(-sk * h, 5), round(h, 5)]]
            nl = 4
    else:
        kind = wchoice(rng, {"sphere": 3, "parallelepiped": 2, "cylinder": 1, "ellipsoid": 1})
        if kind == "sphere":
            a, nl = [c, r], 1
        elif kind == "ellipsoid":
            a, nl = [c, [r, 0, 0], [0, round(max(.8 * r, 1.3 * dx), 5), 0], [0, 0, round(max(.9 * r, 1.3 * dx), 5)]], 1
        elif kind == "parallelepiped":
            w = round(max(1.6 * r, 2.1 * dx), 5)
            a, nl = [[round(x - .5 * w, 5) for x in c], [w, 0, 0], [0, w, 0], [0, 0, w]], 6
        else:
            w = round(max(1.6 * r, 2.1 * dx), 5)
            a, nl = [c, [r, 0, 0], [0, r, 0], [0, 0, w]], 3
    fl = allow_fluid and rng.random() < .25
    return {"kind": kind, "args": a, "label": label, "isfluid": fl}


def extent(e):
    """Bounding box (lo, hi) of an element."""
    a, k = e["args"], e["kind"]
    c = np.array(a[0], float)
    if k in ("circle", "sphere"):
        return c - a[1], c + a[1]
    v = np.array(a[1:], float)
    if k in ("triangle", "parallelogram", "parallelepiped"):
        return c + np.minimum(v, 0).sum(axis=0), c + np.maximum(v, 0).sum(axis=0)
    return c - np.abs(v).sum(axis=0), c + np.abs(v).sum(axis=0)


def away_from_periodic_sides(spec):
    """Drop the obstacles which come close to a periodic side."""
    out = []
    rch = reach(spec["fam"])
    for e in spec.get("elements", ()):
        lo, hi = extent(e)
        ok = True
        for a in range(spec["dim"]):
            m = (rch[a] + .6) * spec["dx"]
            if spec["label"][2 * a] == -1:
                ok = ok and lo[a] > spec["x0"][a] + m and hi[a] < spec["x0"][a] + spec["n"][a] * spec["dx"] - m
        if ok:
            out.append(e)
    if out:
        spec["elements"] = out
    else:
        spec.pop("elements", None)


PLAIN_BC = ["BounceBack", "AntiBounceBack", "BouzidiBounceBack", "BouzidiAntiBounceBack", "Neumann"]


def gen_par(rng):
    return {"s": [rnd(rng, .6, 1.9) for _ in range(4)], "c": [rnd(rng, -.3, .3), rnd(rng, -.3, .3)],
            "q": rng.choice([0., 0., .05, -.1])}


def gen_split(rng, n, rch, maxranks, minranks=2, minwidth=None):
    """A process grid whose subdomains are wide enough; returns (nranks, split or None)."""
    dim = len(n)
    w = [max(r, 1) if minwidth is None else max(minwidth, r) for r in rch]
    best = []
    for a in range(1, maxranks + 1):
        for b in (range(1, maxranks + 1) if dim > 1 else [1]):
            for c in (range(1, maxranks + 1) if dim > 2 else [1]):
                s = [a, b, c][:dim]
                t = int(np.prod(s))
                if minranks <= t <= maxranks and all(n[i] // s[i] >= w[i] for i in range(dim)):
                    best.append(s)
    if not best:
        return None
    s = rng.choice(best)
    return s


def argv_of(split):
    out = []
    for k, v in zip(("-npx", "-npy", "-npz"), split):
        out += [k, str(v)]
    return out


def gen_spec(rng, dims=(1, 2, 2, 2, 3), periodic=None, elements=True, maxranks=6, bcs=None, values=True, source=True,
             small=False, fams=None, minwidth=None, fluid=True, bouzidi=True, cost=1.0, big=False, twosides=False):
    """A random description.  Widths, offsets and labels are drawn so that nothing is
    symmetric or aligned by accident."""
    dim = rng.choice(dims)
    fam = rng.choice(fams[dim]) if fams and dim in fams else wchoice(rng, WEIGHT[dim])
    rch = reach(fam)
    dx = rng.choice([.125, .1, .25, .2, 1.])
    top = {1: 24, 2: 11, 3: 6}[dim]
    if big:
        top = {1: 60, 2: 24, 3: 12}[dim]
    lo = {1: 4, 2: 4, 3: 3}[dim]
    n = [rng.randint(max(lo, 2 * r), top if not small else max(2 * r, lo) + 3) for r in rch]
    if rng.random() < .15:
        n = [max(n)] * dim
    x0 = [rng.choice([0., 0., -.5, .3, 1.]) for _ in range(dim)]
    spec = {"dim": dim, "fam": fam, "par": gen_par(rng), "n": n, "dx": dx, "x0": x0}
    if rng.random() < .2:
        spec["la"] = rng.choice([2., .5, 3.])
    # labels
    lab = []
    nxt = 0
    for a in range(dim):
        per = rng.random() < .35 if periodic is None else periodic
        if per:
            lab += [-1, -1]
        else:
            for _ in range(2):
                lab.append(rng.choice([nxt, 0, 1, 2]) if rng.random() < .7 else 0)
                nxt += 1
    spec["label"] = lab
    hi = [x + k * dx for x, k in zip(x0, n)]
    if elements and dim > 1 and rng.random() < .6:
        ne = rng.choice([1, 1, 2])
        spec["elements"] = [gen_elem(rng, dim, x0, hi, dx, rng.choice([0, 4, 5]), allow_fluid=fluid) for _ in range(ne)]
        if all(e["isfluid"] for e in spec["elements"]) and rng.random() < .7:
            spec["elements"][0]["isfluid"] = False
    labels = set(l for l in lab if l >= 0)
    for e in spec.get("elements", ()):
        labels.add(e["label"])
    ns = NSCHEMES.get(fam, 1)
    sided = {l for e in spec.get("elements", ()) for l in [e["label"]]}
    spec["bc"] = {}
    choice = bcs or PLAIN_BC
    if not bouzidi:
        choice = [b for b in choice if not b.startswith("Bouzidi")]
    for l in sorted(labels):
        m = {str(k): rng.choice(choice) for k in range(ns)}
        axes = {a // 2 for a in range(2 * dim) if lab[a] == l}
        if bcs is None and len(axes) == 1 and l not in sided and rng.random() < .25:
            # Neumann along one axis is for the sides of this axis only
            m[str(rng.randrange(ns))] = "Neumann" + "XYZ"[list(axes)[0]]
        b = {"method": m}
        if values and rng.random() < .5:
            b["value"] = {"seed": rng.randrange(100), "time": rng.random() < .5}
        spec["bc"][str(l)] = b
    if source and rng.random() < .25:
        spec["source"] = rng.choice(["lin", "const", "quad", "time", "space", "spacetime"])
    spec["init"] = {"seed": rng.randrange(1000), "type": "moments" if rng.random() < .8 else "distributions"}
    if spec["init"]["type"] == "moments" and rng.random() < .2:
        spec["init"]["args"] = True
    if rng.random() < .15:
        omit(rng, spec)
    if len(spec["bc"]) > 1 and rng.random() < .3:
        spec["sharebc"] = True
    if ns == 1 and rng.random() < .15 and fam not in ("D3Q12", "D3Q15"):
        spec["relvel"] = [rng.choice(["const", "mom"])] + [rnd(rng, -.2, .2) for _ in range(dim)]
    elif ns == 1 and rng.random() < .1:
        spec["matrix"] = True
    if rng.random() < .15:
        spec["symrelax"] = True
    if fam in FEQ and rng.random() < .15:
        spec["feq"] = rnd(rng, -.3, .3)
    if rng.random() < .3:
        o = list(range(dim + 1))
        rng.shuffle(o)
        spec["sorder"] = o
    if rng.random() < .15:
        spec["algo"] = {"class": "base"}
    if rng.random() < (.5 if spec.get("matrix") else .4 if fam in ("D1Q3", "D2Q9", "D2Q9_5", "D3Q15") else .1):
        spec["perm"] = rng.randrange(1000)
    split = gen_split(rng, n, rch, maxranks, minwidth=minwidth)
    if split is None:
        return gen_spec(rng, dims, periodic, elements, maxranks, bcs, values, source, small, fams, minwidth, fluid, bouzidi, cost, big, twosides)
    spec["split"] = split
    widen(spec)
    spec["auto"] = False
    r = int(np.prod(split))
    from .fakempi import Compute_dims
    if list(split) == list(Compute_dims(r, dim)) and rng.random() < .5:
        spec["auto"] = True
    spec["nsteps"] = rng.randint(1, 6)
    return spec


def omit(rng, spec):
    """Leave some of the initial values out."""
    nc = len(family(spec)[1])
    if spec["init"]["type"] == "moments" and nc > 1:
        spec["init"]["omit"] = sorted(rng.sample(range(1, nc), rng.randint(1, nc - 1)))


def late_parameters(spec):
    """The relaxation parameters that the description leaves to the run: [scheme, index, symbol, value]."""
    schemes, _ = family(spec)
    return [[i, j, sp.Symbol("SR%d%s" % (i, "abcdefghijklmnopqrstuvwxyz"[j])), float(x)]
            for i, sch in enumerate(schemes) for j, x in enumerate(sch["relaxation_parameters"]) if x != 0.]


def cython(rng, spec):
    """The same description with the cython generator, and one of the algorithms it supports."""
    spec["generator"] = "cython"
    a = rng.choice([None, None, {"m_local": False}, {"m_local": True}, {"m_local": False, "split": True}])
    if a is not None:
        spec["algo"] = {**spec.get("algo", {}), **a}
    return spec


def narrow_neumann(spec):
    """Axes along which a directional Neumann condition meets a process narrower than twice the reach:
    the corners then depend on points of the other process (known finding of C01)."""
    out = []
    for b in spec.get("bc", {}).values():
        for m in b["method"].values():
            if m[:-1] == "Neumann":
                a = "XYZ".index(m[-1])
                s = spec["split"][a] if "split" in spec else 1
                if s > 1 and spec["n"][a] // s < 2 * reach(spec["fam"])[a]:
                    out.append(a)
    return out


def widen(spec):
    if narrow_neumann(spec):
        for b in spec["bc"].values():
            for k, m in b["method"].items():
                if m[:-1] == "Neumann":
                    b["method"][k] = "Neumann"


def argv(spec):
    return [] if spec.get("auto") else argv_of(spec["split"])


def nranks(spec):
    return int(np.prod(spec["split"]))


def gen_sched(rng):
    """Scheduler and network behaviour of one run (swarm style)."""
    return {"policy": rng.choice(["uniform", "uniform", "sticky", "pct", "pct", "starve", "netlast", "netfirst"]),
            "starve": rng.randrange(8),
            "p_lazy": rng.choice([0., .3, .8, 1.]),
            "p_rdv": rng.choice([0., .3, 1., 1.]),
            "p_early": rng.choice([0., .5, 1.]),
            "skew": rng.choice([0., 1e-3, -5.]),
            "reorder": rng.random() < .5}


# ------------------------------------------------------------------ observation
def region(sim):
    return [list(map(int, r)) for r in sim.domain.mpi_topo.get_region(*sim.domain.global_size)]


def fields(sim):
    """Copies of the interior moments and distributions (all components)."""
    nv = sim.container.m.nv
    m = np.array([sim.m[i] for i in range(nv)])
    f = np.array([sim.F[i] for i in range(nv)])
    return m, f


def simulate(spec, steps=None, each=None, log=None, hook=None, init_hook=None, d=None):
    p = world.pylbm()
    d = d if d is not None else dico(spec, log, hook, init_hook)
    s = p.Simulation(d, sorder=copy.copy(spec.get("sorder")))
    if each is not None:
        each(s)
    for _ in range(spec["nsteps"] if steps is None else steps):
        s.one_time_step()
        if each is not None:
            each(s)
    return s
