"""C05: saved output equals the global fields and describes itself correctly."""
import os
import re
import xml.etree.ElementTree as ET

import numpy as np

from .. import gen, world
from ..result import Invalid, Violation

ID = "C05"
RULE = ("random box, up to 8 processes, uneven splits and subdomains of one point, 1D to 3D, histories of outputs with scalar and vector "
        "fields given as arrays (double, single, integer, strided, Fortran order, read only) or as functions with arguments and overwritten by the user "
        "right after each call, time steps or none, relative, nested, absolute and default locations; non-trivial: at least two context switches")
REAL = ["pylbm.hdf5", "pylbm.domain", "pylbm.mpi_topology", "pylbm.simulation (some runs)", "h5py/HDF5 and files in a scratch directory"]
STUB = ["mpi4py.MPI (simulated network, eager, lazy and rendezvous sends)", "process scheduling"]
BUDGET = {"quick": 40, "thorough": 900}

KINDS = ["double", "double", "single", "int", "fortran", "strided", "readonly", "func", "funcargs", "bool"]
PATHS = ["out", ".", "", "new/nested/dir", "./rel", "ABS", "ABS/sub", "out/"]


def gen_case(rng, tier):
    sim = rng.random() < .15
    spec = gen.gen_spec(rng, maxranks=8, elements=False, values=False, source=False, minwidth=1, dims=(1, 2, 2, 3, 3), big=rng.random() < .3)
    if rng.random() < .4:
        # thin subdomains
        s = spec["split"]
        r = gen.reach(spec["fam"])
        spec["n"] = [max(2 * r[a] if s[a] == 1 else r[a] * s[a], s[a]) + rng.choice([0, 0, 1, s[a] - 1]) for a in range(spec["dim"])]
    files = []
    used = set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        path = rng.choice(PATHS)
        step = rng.choice([None, 0, 1, 7, 123])
        name = rng.choice(["out", "out", "f.h5", "a_b"])
        key = (os.path.normpath(path), step, name)
        if key in used and rng.random() < .7:
            continue
        used.add(key)
        sets = []
        for k in range(rng.choice([0, 1, 1, 2, 3, 4])):
            vec = rng.random() < .45
            kinds = [rng.choice(KINDS[:7] if vec else KINDS) for _ in range(rng.choice([spec["dim"], spec["dim"], 3, 1]) if vec else 1)]
            sets.append({"name": rng.choice(["rho", "u", "T", "v_", "p p", "Q"]) + str(k), "vec": vec, "kinds": kinds, "seed": rng.randrange(1000),
                         "func": vec and rng.random() < .3})
        files.append({"path": path, "step": step, "name": name, "sets": sets})
    sched = gen.gen_sched(rng)
    return {"spec": spec, "files": files, "sched": sched, "sim": sim}


def field(seed, shape, kind):
    """Global array of a field, in the values that a file of doubles must hold."""
    a = np.arange(int(np.prod(shape)), dtype=float).reshape(shape) + seed
    if kind == "int":
        return a.astype(np.int32 if seed % 2 else np.int64)
    if kind == "bool":
        return (a.astype(int) % 3 == 0)
    a = a * 1.25 + 1. / (seed + 3.)
    if kind == "single":
        return a.astype(np.float32)
    return a


def local(g, sl, kind):
    a = g[sl].copy()
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.full([2 * n + 1 for n in a.shape], -77.)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)][tuple(slice(0, n) for n in a.shape)]
        v[...] = a
        return v
    if kind == "readonly":
        a.flags.writeable = False
    return a


def spoil(a):
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = 0


def where(f, absdir):
    return f["path"].replace("ABS", absdir)


def run(case, choices, stats):
    spec = case["spec"]
    dim = spec["dim"]
    n = tuple(spec["n"])
    cwd = os.getcwd()
    absdir = os.path.join(cwd, "abs")
    os.mkdir("out")
    os.mkdir("w")
    os.chdir("w")

    def main(r):
        p = world.pylbm()
        if case["sim"]:
            s = gen.simulate(spec, steps=1)
            dom = s.domain
        else:
            s = None
            dom = p.Domain(gen.dico(spec))
        reg = dom.mpi_topo.get_region(*dom.global_size)
        sl = tuple(slice(*x) for x in reg)
        for f in case["files"]:
            kw = {}
            if f["step"] is not None:
                kw["timestep"] = f["step"]
            if f["path"]:
                kw["path"] = where(f, absdir)
            h5 = p.H5File(dom.mpi_topo, f["name"], **kw)
            h5.set_grid(*dom.coords)
            for d in f["sets"]:
                arrs = [local(field(d["seed"] + 10000 * i, n, k), sl, k) for i, k in enumerate(d["kinds"])]
                before = [a.copy() for a in arrs]
                if not d["vec"]:
                    k = d["kinds"][0]
                    if k == "func":
                        h5.add_scalar(d["name"], lambda: arrs[0])
                    elif k == "funcargs":
                        h5.add_scalar(d["name"], lambda a, b: a + b, arrs[0] - 3., 3.)
                    else:
                        h5.add_scalar(d["name"], arrs[0])
                elif d["func"]:
                    h5.add_vector(d["name"], lambda x: x, arrs)
                else:
                    h5.add_vector(d["name"], arrs)
                if any((a != b).any() for a, b in zip(arrs, before)):
                    raise Violation("argument", "saving modified the array given by the user")
                for a in arrs:
                    spoil(a)
            if s is not None:
                h5.add_scalar("mom", s.m[0])
            h5.save()
        return (sl, np.array(s.m[0]) if s is not None else None)

    ref = world.run_serial(lambda r: world.pylbm().Domain(gen.dico(spec)).global_size)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    world_n = gen.nranks(spec)
    out = world.run_world(world_n, main, choices, case["sched"], gen.argv(spec))
    stats.world(out)
    for e in out.excs:
        if isinstance(e, Violation):
            raise e
    if not out.clean:
        raise Violation("fails", "output fails: " + out.describe(), out)
    mom = None
    if case["sim"]:
        mom = np.full(n, np.nan)
        for sl, m in out.results:
            mom[sl] = m
    expect_files = set()
    last = {}
    for f in case["files"]:  # a later output of the same name replaces the earlier one
        last[os.path.normpath(where(f, absdir)), f["step"], os.path.splitext(f["name"])[0]] = f
    for f in last.values():
        check_file(case, f, n, mom, absdir, out, expect_files)
        stats.probe("files")
    got = set()
    for base in (".", absdir):
        for d, _, fs in os.walk(base):
            got |= {os.path.realpath(os.path.join(d, x)) for x in fs}
    if got != expect_files:
        raise Violation("files", "files written: %s, expected: %s" % (sorted(got), sorted(expect_files)), out)
    os.chdir(cwd)


def check_file(case, f, n, mom, absdir, out, expect_files):
    import h5py
    spec = case["spec"]
    stem = os.path.splitext(f["name"])[0] + ("_%d" % f["step"] if f["step"] is not None else "")
    base = os.path.join(where(f, absdir), stem) if f["path"] else stem
    h5n, xn = base + ".h5", base + ".xdmf"
    for x in (h5n, xn):
        if not os.path.exists(x):
            raise Violation("missing", "%s does not exist after save" % x, out)
        expect_files.add(os.path.realpath(x))
    expected = {}
    for a in range(len(n)):
        expected["x_%d" % a] = spec["x0"][a] + (np.arange(n[a]) + .5) * spec["dx"]
    for d in f["sets"]:
        comps = [np.asarray(field(d["seed"] + 10000 * i, n, k), dtype=float).T for i, k in enumerate(d["kinds"])]
        if d["vec"]:
            expected[d["name"]] = comps
        else:
            expected[d["name"]] = comps[0]
    if mom is not None:
        expected["mom"] = mom.T
    with h5py.File(h5n, "r") as h:
        names = []
        h.visititems(lambda k, o: names.append(k) if isinstance(o, h5py.Dataset) else None)
        if set(names) != set(expected):
            raise Violation("datasets", "%s holds %s, expected %s" % (h5n, sorted(names), sorted(expected)), out)
        shapes = {k: tuple(h[k].shape) for k in names}
        for k, want in expected.items():
            got = h[k][...]
            if isinstance(want, list):
                if got.ndim != len(n) + 1 or got.shape[-1] < len(want):
                    raise Violation("shape", "%s:/%s has shape %s" % (h5n, k, got.shape), out)
                pairs = [(got[..., i], w, "component %d" % i) for i, w in enumerate(want)]
            else:
                pairs = [(got, want, "")]
            tol = 1e-9 * spec["dx"] + 1e-12 if k.startswith("x_") else 0
            for g, w, what in pairs:
                if g.shape != w.shape:
                    raise Violation("shape", "%s:/%s %s has shape %s, expected %s" % (h5n, k, what, g.shape, w.shape), out)
                bad = ~(np.abs(g - w) <= tol)
                if bad.any():
                    i = tuple(np.argwhere(bad)[0])
                    raise Violation("content", "%s:/%s %s: %d of %d values are wrong, at %s %r instead of %r"
                                    % (h5n, k, what, bad.sum(), bad.size, list(map(int, i)), float(g[i]), float(w[i])), out)
    check_xdmf(h5n, xn, f, mom is not None, shapes, len(n), out)


def check_xdmf(h5n, xn, f, mom, shapes, dim, out):
    try:
        root = ET.parse(xn).getroot()
    except ET.ParseError as e:
        raise Violation("xdmf", "%s is not well formed: %s" % (xn, e), out)
    refs = []
    for item in root.iter("DataItem"):
        m = re.match(r"^\s*(.*?):/(.*?)\s*$", item.text or "", re.S)
        if not m:
            raise Violation("xdmf", "%s: reference %r" % (xn, item.text), out)
        target = os.path.join(os.path.dirname(xn), m.group(1))
        if not os.path.exists(target) or os.path.realpath(target) != os.path.realpath(h5n):
            raise Violation("xdmf", "%s refers to %s, which is not its data file" % (xn, target), out)
        name = m.group(2)
        if name not in shapes:
            raise Violation("xdmf", "%s refers to the dataset %s, which does not exist" % (xn, name), out)
        dims = tuple(int(x) for x in item.get("Dimensions").split())
        if dims != shapes[name]:
            raise Violation("xdmf", "%s gives the shape %s to %s, it is %s" % (xn, dims, name, shapes[name]), out)
        refs.append(name)
    if sorted(refs) != sorted(shapes):
        raise Violation("xdmf", "%s describes %s, the data file holds %s" % (xn, sorted(refs), sorted(shapes)), out)
    want = {d["name"]: "Vector" if d["vec"] else "Scalar" for d in f["sets"]}
    if mom:
        want["mom"] = "Scalar"
    got = {a.get("Name"): a.get("AttributeType") for a in root.iter("Attribute")}
    if got != want:
        raise Violation("xdmf", "%s lists the attributes %s, expected %s" % (xn, got, want), out)
    for a in root.iter("Attribute"):
        for item in a.iter("DataItem"):
            if not item.text.strip().endswith(":/" + a.get("Name")):
                raise Violation("xdmf", "%s: attribute %s refers to %s" % (xn, a.get("Name"), item.text.strip()), out)
    for i, item in enumerate(next(root.iter("Geometry")).iter("DataItem")):
        if not item.text.strip().endswith(":/x_%d" % i):
            raise Violation("xdmf", "%s: coordinate %d refers to %s" % (xn, i, item.text.strip()), out)
