"""C02: the subdomains tile the global domain and hold what the serial domain holds."""
import numpy as np

from .. import gen, world
from ..result import Invalid, Violation

ID = "C02"
RULE = ("random box, offsets, steps, labels, stencils of reach 1 to 3, obstacles (solid and fluid, also crossing the box), up to 8 processes, "
        "given and automatic process grids; non-trivial: at least two context switches between processes")
REAL = ["pylbm.domain", "pylbm.geometry", "pylbm.elements", "pylbm.stencil", "pylbm.mpi_topology", "pylbm.options", "numpy"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "sys.argv per run"]
BUDGET = {"quick": 40, "thorough": 900}


def gen_case(rng, tier):
    big = rng.random() < .5
    spec = gen.gen_spec(rng, maxranks=8, source=False, values=False, big=big, twosides=True)
    return {"spec": spec, "sched": gen.gen_sched(rng)}


def observe(spec):
    p = world.pylbm()
    dom = p.Domain(gen.dico(spec))
    vm = [int(v) for v in dom.stencil.vmax]
    sl = tuple(slice(v, -v) if v else slice(None) for v in vm)
    reg = [list(map(int, q)) for q in dom.mpi_topo.get_region(*dom.global_size)]
    return {"reg": reg, "coords": [np.array(c) for c in dom.coords], "coords_halo": [np.array(c) for c in dom.coords_halo],
            "io": dom.in_or_out[sl].copy(), "dist": dom.distance[(slice(None),) + sl].copy(),
            "flag": dom.flag[(slice(None),) + sl].copy(), "normal": dom.normal[(slice(None),) + sl].copy(),
            "label": [int(x) for x in dom.box_label], "size": [int(x) for x in dom.global_size],
            "vel": [tuple(int(a) for a in np.atleast_1d(v.v)) for v in dom.stencil.unique_velocities],
            "vmax": vm, "valin": dom.valin, "valout": dom.valout, "dx": float(dom.dx)}


def run(case, choices, stats):
    spec = case["spec"]
    ref = world.run_serial(lambda r: observe(spec))
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    g = ref.results[0]
    out = world.run_world(gen.nranks(spec), lambda r: observe(spec), choices, case["sched"], gen.argv(spec))
    stats.world(out)
    if not out.clean:
        raise Violation("parallel-fails", "the serial domain is built, the parallel one is not: " + out.describe(), out)
    dim = spec["dim"]
    if g["size"] != list(spec["n"]):
        raise Violation("size", "the global domain has %s points, the description asks for %s" % (g["size"], spec["n"]), out)
    for a in range(dim):
        want = spec["x0"][a] + (np.arange(spec["n"][a]) + .5) * spec["dx"]
        if g["coords"][a].shape != want.shape or np.abs(g["coords"][a] - want).max() > 1e-9 * (1 + np.abs(want).max()):
            raise Violation("coords", "the serial coordinates along axis %d are %s" % (a, g["coords"][a].tolist()), out)
    owner = np.zeros(g["size"], int)
    for r, o in enumerate(out.results):
        reg = o["reg"]
        where = "process %d with region %s" % (r, reg)
        sl = tuple(slice(*x) for x in reg)
        owner[sl] += 1
        if o["size"] != g["size"]:
            raise Violation("size", "%s has global size %s instead of %s" % (where, o["size"], g["size"]), out)
        shape = tuple(b - a for a, b in reg)
        for a in range(dim):
            if o["coords"][a].shape != (shape[a],):
                raise Violation("shape", "%s holds %d points along axis %d" % (where, o["coords"][a].size, a), out)
            d = np.abs(o["coords"][a] - g["coords"][a][sl[a]])
            if d.max() > 1e-9 * (1 + np.abs(g["coords"][a]).max()):
                raise Violation("coords", "%s has coordinates %s along axis %d, the serial domain has %s"
                                % (where, o["coords"][a].tolist(), a, g["coords"][a][sl[a]].tolist()), out)
            v = o["vmax"][a]
            full = spec["x0"][a] + (np.arange(reg[a][0] - v, reg[a][1] + v) + .5) * spec["dx"]
            if o["coords_halo"][a].shape != full.shape or np.abs(o["coords_halo"][a] - full).max() > 1e-9 * (1 + np.abs(full).max()):
                raise Violation("coords", "%s has halo coordinates %s along axis %d" % (where, o["coords_halo"][a].tolist(), a), out)
            for side in (0, 1):
                at = reg[a][side] == (0, g["size"][a])[side]
                want = spec["label"][2 * a + side] if at else -2
                if o["label"][2 * a + side] != want:
                    raise Violation("label", "%s has label %d on side %d of axis %d, expected %d"
                                    % (where, o["label"][2 * a + side], side, a, want), out)
        if o["vel"] != g["vel"]:
            raise Violation("velocities", "%s numbers the velocities differently" % where, out)
        if o["io"].shape != shape:
            raise Violation("shape", "%s has a marking of shape %s" % (where, o["io"].shape), out)
        _same("marking", o["io"][None], g["io"][(None,) + sl], where, o["vel"], 0)
        _same("boundary label", o["flag"], g["flag"][(slice(None),) + sl], where, o["vel"], 0)
        _same("distance", o["dist"], g["dist"][(slice(None),) + sl], where, o["vel"], 1e-8)
        near = g["dist"][(slice(None),) + sl] <= 1
        _same("normal", o["normal"] * near[..., None], g["normal"][(slice(None),) + sl] * near[..., None], where, o["vel"], 1e-7)
        if (near & (g["flag"][(slice(None),) + sl] != g["valin"])).any():
            stats.probe("processes with boundary points")
        if (g["io"][sl] == g["valout"]).any():
            stats.probe("processes with solid points")
        if (g["io"][sl] == g["valout"]).all():
            stats.probe("processes entirely solid")
    if (owner != 1).any():
        k = np.argwhere(owner != 1)[0].tolist()
        raise Violation("tiling", "the point %s belongs to %d processes" % (k, owner[tuple(k)]), out)
    stats.probe("worlds of %d processes" % gen.nranks(spec))


def _same(what, a, b, where, vel, tol):
    bad = ~(np.abs(a - b) <= tol)
    if bad.any():
        k = np.argwhere(bad)
        i = tuple(int(x) for x in k[0])
        raise Violation("differs", "%s: the %s of local point %s, velocity %s is %r, the serial domain has %r (%d differences)"
                        % (where, what, list(i[1:]), vel[i[0]], float(a[i]), float(b[i]), len(k)))
