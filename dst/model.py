"""A small executable reference model of the lattice Boltzmann schemes, written from the symbolic description alone:
global arrays, no generated code, no processes.  The position of the walls (fluid points, crossed sides, distances and
labels) is an input: it is that of the domain on one process."""
import numpy as np
import sympy as sp

from . import gen

VEL = {
    1: {0: (0,), 1: (1,), 2: (-1,), 3: (2,), 4: (-2,), 5: (3,), 6: (-3,)},
    2: {0: (0, 0), 1: (1, 0), 2: (0, 1), 3: (-1, 0), 4: (0, -1), 5: (1, 1), 6: (-1, 1), 7: (-1, -1), 8: (1, -1),
        9: (2, 0), 10: (0, 2), 11: (-2, 0), 12: (0, -2)},
    3: {0: (0, 0, 0), 1: (0, 0, 1), 2: (0, 0, -1), 3: (0, 1, 0), 4: (0, -1, 0), 5: (1, 0, 0), 6: (-1, 0, 0), 7: (0, 1, 1), 8: (0, 1, -1),
        9: (0, -1, 1), 10: (0, -1, -1), 11: (1, 0, 1), 12: (1, 0, -1), 13: (-1, 0, 1), 14: (-1, 0, -1), 15: (1, 1, 0), 16: (1, -1, 0), 17: (-1, 1, 0),
        18: (-1, -1, 0), 19: (1, 1, 1), 20: (1, 1, -1), 21: (1, -1, 1), 22: (1, -1, -1), 23: (-1, 1, 1), 24: (-1, 1, -1), 25: (-1, -1, 1), 26: (-1, -1, -1)},
}


def geometry(dom):
    """What the model takes from the domain on one process."""
    vm = [int(v) for v in dom.stencil.vmax]
    sl = tuple(slice(v, -v) if v else slice(None) for v in vm)
    out = {"fluid": np.array(dom.in_or_out[sl] == dom.valin), "coords": [np.array(c) for c in dom.coords], "flag": {}, "dist": {}}
    for k, v in enumerate(dom.stencil.unique_velocities):
        key = tuple(int(x) for x in np.atleast_1d(v.v)[:dom.dim])
        out["flag"][key] = np.array(dom.flag[k][sl])
        out["dist"][key] = np.array(dom.distance[k][sl])
    return out


class Model:
    def __init__(self, spec, geo):
        self.spec, self.geo = spec, geo
        dim = self.dim = spec["dim"]
        self.schemes, self.consm = gen.family(spec)
        self.la = spec.get("la", 1.)
        self.dx = spec["dx"]
        self.dt = self.dx / self.la
        self.n = tuple(spec["n"])
        self.vel = [[VEL[dim][k] for k in s["velocities"]] for s in self.schemes]
        self.ptr = np.cumsum([0] + [len(v) for v in self.vel])
        self.nv = int(self.ptr[-1])
        self.M = [self.matrix(i) for i in range(len(self.schemes))]
        self.inv = [np.linalg.inv(m) for m in self.M]
        self.s = [np.array([float(x) for x in sch["relaxation_parameters"]]) for sch in self.schemes]
        self.eqf = []
        for i, sch in enumerate(self.schemes):
            if spec.get("feq") and not isinstance(sch["conserved_moments"], list):
                f = gen.feq_function(self.vel[i], sch["conserved_moments"], spec["feq"])
                self.eqf.append(("f", [sp.lambdify(self.consm, e, "numpy") for e in f]))
            else:
                self.eqf.append(("m", [sp.lambdify(self.consm, sp.sympify(e), "numpy") for e in sch["equilibrium"]]))
        # the place of each conserved moment
        self.where = {}
        for i, sch in enumerate(self.schemes):
            c = sch["conserved_moments"]
            for x in c if isinstance(c, list) else [c]:
                j = [k for k, e in enumerate(sch["equilibrium"]) if sp.sympify(e) == x]
                self.where[x] = (i, j[0])
        self.F = [np.zeros((len(v),) + self.n) for v in self.vel]
        self.t = 0.
        self.nt = 0
        self.plan = None

    def matrix(self, i, u=None):
        """Moments of the scheme i: polynomials at the velocities (relative to u), in lattice units."""
        vs = np.array(self.vel[i], float)
        if u is not None:
            vs = vs - np.asarray(u) / self.la
        xs = sp.symbols("X, Y, Z")[:self.dim]
        out = []
        for p in self.schemes[i]["polynomials"]:
            f = sp.lambdify(xs, sp.sympify(p), "numpy")
            out.append([float(f(*v)) for v in vs])
        return np.array(out)

    # ------------------------------------------------------------ pointwise
    def moments(self):
        """conserved moment -> array"""
        return {c: np.tensordot(self.M[i][j], self.F[i], axes=(0, 0)) for c, (i, j) in self.where.items()}

    def feq(self, cons):
        """Equilibrium distributions of all the schemes for conserved moments (symbol -> array)."""
        vals = [cons[c] for c in self.consm]
        shape = np.broadcast(*vals).shape if len(vals) > 1 else np.shape(vals[0])
        out = []
        for i in range(len(self.schemes)):
            kind, fs = self.eqf[i]
            e = np.array([np.broadcast_to(f(*vals), shape) * 1. for f in fs])
            out.append(e if kind == "f" else np.tensordot(self.inv[i], e, axes=(1, 0)))
        return out

    def set_equilibrium(self, cons):
        self.F = [f.copy() for f in self.feq(cons)]

    def coords(self):
        x0, dx = self.spec["x0"], self.spec["dx"]
        return np.meshgrid(*[x0[a] + (np.arange(self.n[a]) + .5) * dx for a in range(self.dim)], indexing="ij")

    def source(self, ms, cons):
        """ms: moments of all the schemes, absolute; adds half a time step of the sources."""
        k = self.spec.get("source")
        if not k:
            return
        for c in self.consm:
            i, j = self.where[c]
            v = ms[i][j]
            if k == "lin":
                r = -.7 * v
            elif k == "const":
                r = .3
            elif k == "quad":
                r = .2 * v * (1 - v)
            elif k == "time":
                r = .3 * self.t - .1 * v
            elif k == "space":
                r = sum(w * x for w, x in zip((.4, -.3, .2), self.coords())) * v + .1 * self.coords()[-1]
            elif k == "spacetime":
                r = -.2 * (self.coords()[-1] - self.t) ** 2 * v
            ms[i][j] = v + .5 * self.dt * r
            if self.spec.get("source_one", True):
                break

    def collide(self):
        """Moments, half a step of the sources, relaxation, half a step of the sources, distributions."""
        rv = self.spec.get("relvel")
        ms = [np.tensordot(self.M[i], self.F[i], axes=(1, 0)) for i in range(len(self.schemes))]
        self.source(ms, None)
        cons = {c: ms[i][j] for c, (i, j) in self.where.items()}
        eq = self.feq(cons)
        for i in range(len(self.schemes)):
            meq = np.tensordot(self.M[i], eq[i], axes=(1, 0))
            s = self.s[i].reshape((-1,) + (1,) * self.dim)
            if not rv:
                ms[i] = ms[i] + s * (meq - ms[i])
                continue
            # the relaxation takes place in the moments relative to the velocity u
            if rv[0] == "const":
                us = [np.full(self.n, rv[1 + a]) for a in range(self.dim)]
            elif len(self.consm) > self.dim:
                us = [cons[self.consm[1 + a]] / cons[self.consm[0]] for a in range(self.dim)]
            else:
                us = [rv[1 + a] * cons[self.consm[0]] for a in range(self.dim)]
            for x in np.ndindex(*self.n):
                if not self.geo["fluid"][x]:
                    continue
                T = self.matrix(i, [u[x] for u in us]) @ self.inv[i]
                a, b = T @ ms[i][(slice(None),) + x], T @ meq[(slice(None),) + x]
                ms[i][(slice(None),) + x] = np.linalg.solve(T, a + self.s[i] * (b - a))
        self.source(ms, None)
        self.F = [np.tensordot(self.inv[i], ms[i], axes=(1, 0)) for i in range(len(self.schemes))]

    # ------------------------------------------------------------ transport
    def make_plan(self):
        """For each component: the source point of each point, and the links that cross a wall."""
        spec, geo = self.spec, self.geo
        fluid = geo["fluid"]
        grid = np.indices(self.n)
        plan = []
        for i, vs in enumerate(self.vel):
            for j, v in enumerate(vs):
                out = tuple(-x for x in v)
                if not any(v):
                    plan.append((i, j, tuple(grid), [], None))
                    continue
                flag, dist = geo["flag"][out], geo["dist"][out]
                wall = np.zeros(self.n, bool)
                links = []
                for lab, b in spec.get("bc", {}).items():
                    pts = np.logical_and(flag == int(lab), fluid)
                    if not pts.any():
                        continue
                    wall |= pts
                    xs = np.where(pts)
                    links.append((int(lab), b["method"][str(i)], xs, dist[xs]))
                src = []
                bad = np.zeros(self.n, bool)
                for a in range(self.dim):
                    g = grid[a] - v[a]
                    if spec["label"][2 * a] == -1:
                        g = g % self.n[a]
                    bad |= (g < 0) | (g >= self.n[a])
                    src.append(np.clip(g, 0, self.n[a] - 1))
                src = tuple(src)
                # a point which reads neither a fluid point nor across a wall (obstacles cut by a periodic side): not specified
                bad |= ~fluid[src]
                plan.append((i, j, src, links, bad & ~wall))
        self.plan = plan

    def at(self, i, j, xs, shift):
        """Values of the component at the points xs + shift; not specified (nan) where they are not fluid."""
        ys = []
        bad = False
        for a in range(self.dim):
            y = xs[a] + shift[a]
            if self.spec["label"][2 * a] == -1:
                y = y % self.n[a]
            bad = bad | (y < 0) | (y >= self.n[a])
            ys.append(np.clip(y, 0, self.n[a] - 1))
        ys = tuple(ys)
        return np.where(bad | ~self.geo["fluid"][ys], np.nan, self.F[i][(j,) + ys])

    def wall_feq(self, lab, xs, d, out):
        val = self.spec["bc"][str(lab)].get("value")
        if not val:
            return None
        pos = [self.geo["coords"][a][xs[a]] + d * out[a] * self.dx for a in range(self.dim)]
        m = {}
        f = gen.bc_value(self.spec, lab, dict(val, args=None), self.consm)
        if val.get("time"):
            f(None, m, self.t, *pos)
        else:
            f(None, m, *pos)
        return self.feq(m)

    def transport(self):
        if self.plan is None:
            self.make_plan()
        new = [f.copy() for f in self.F]
        zero = (0,) * self.dim
        for i, j, src, links, bad in self.plan:
            new[i][j] = self.F[i][(j,) + src]
            if bad is not None:
                new[i][j][bad] = np.nan
            v = self.vel[i][j]
            out = tuple(-x for x in v)
            js = self.vel[i].index(out)
            for lab, method, xs, d in links:
                back = self.at(i, js, xs, zero)
                if method == "BounceBack":
                    r = back
                elif method == "AntiBounceBack":
                    r = -back
                elif method.startswith("Bouzidi"):
                    r = np.empty(len(d))
                    near = d < .5
                    px = tuple(x[near] for x in xs)
                    sg = -1 if "Anti" in method else 1
                    r[near] = sg * 2 * d[near] * back[near] + (1 - 2 * d[near]) * (self.at(i, js, px, v) if near.any() else 0)
                    far = ~near
                    px = tuple(x[far] for x in xs)
                    q = .5 / d[far]
                    r[far] = sg * q * back[far] + (1 - q) * self.at(i, j, px, zero)
                elif method == "Neumann":
                    r = self.at(i, j, xs, zero)
                else:
                    a = "XYZ".index(method[-1])
                    r = self.at(i, j, xs, tuple(out[b] if b != a else 0 for b in range(self.dim)))
                eq = self.wall_feq(lab, xs, d, out)
                if eq is not None and not method.startswith("Neumann"):
                    r = r + eq[i][j] + (eq[i][js] if "Anti" in method else -eq[i][js])
                new[i][j][xs] = r
        self.F = new

    def step(self):
        self.transport()
        self.collide()
        self.nt += 1
        self.t += self.dt

    # ------------------------------------------------------------ beginning
    def initialise(self):
        spec = self.spec
        ini = spec["init"]
        xs = np.meshgrid(*self.geo["coords"], sparse=True, indexing="ij")
        if ini["type"] == "moments":
            m = {}
            for i, c in enumerate(self.consm):
                if i in ini.get("omit", ()):
                    v = 0.
                elif ini.get("const"):
                    v = gen._base(i) + .01 * (ini["seed"] % 7)
                else:
                    v = gen.wave(ini["seed"] + i, self.dim, .1 * (1 if i == 0 else .3), gen._base(i))(*xs)
                    if ini.get("args"):
                        v = v + .01 * (i + 1)
                m[c] = np.broadcast_to(v, self.n) * 1.
            self.set_equilibrium(m)
        else:
            k = 0
            for i in range(len(self.schemes)):
                for j in range(len(self.vel[i])):
                    self.F[i][j] = gen.wave(ini["seed"] + k, self.dim, .02, .1 + .01 * k)(*xs)
                    k += 1

    def all(self):
        return np.concatenate(self.F)
