"""C20: an animated figure follows its simulation."""
import gc
import os

import numpy as np

from .. import gen, world
from ..kernel import current
from ..result import Invalid, Violation

ID = "C20"
RULE = ("random small simulations in 1 and 2 dimensions on 1 or 2 processes, each process with 1 or 2 figures of 1 to 4 plots (lines, points, images, contours, points in 3 "
        "dimensions; several in the same axes), animated and shown in a simulated event loop: timers that fire in time or late, redraws done at once, later or never, resizes, saved "
        "figures, garbage collections, update functions that raise, updates, steps and overwritten data between the frames; after every event each plot is compared with a copy "
        "of the data given to its last update, and in the end the simulation with the same one without figures; non-trivial: a plot updated by a frame and drawn afterwards")
REAL = ["pylbm (with its viewer)", "matplotlib (figures, animation, Agg renderer)", "numpy", "sympy"]
STUB = ["mpi4py.MPI (simulated)", "process scheduling", "the event loop and the timers of the graphical interface (matplotlib's own seams: the canvas's timer class, draw_idle and show)"]
BUDGET = {"quick": 45, "thorough": 900}

_loop = [None]      # the event loop of the calling simulated process, see loop()
_installed = []


def prepare():
    """Put the event loop behind matplotlib's own seams."""
    if _installed:
        return
    _installed.append(True)
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.animation    # noqa
    import matplotlib.pyplot as plt
    import mpl_toolkits.mplot3d    # noqa
    from matplotlib.backend_bases import TimerBase
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    class SimTimer(TimerBase):
        due = None

        def _timer_start(self):
            lp = loop()
            self.due = lp.now + self.interval
            if self not in lp.timers:
                lp.timers.append(self)

        def _timer_stop(self):
            self.due = None

        def _timer_set_interval(self):
            if self.due is not None:
                self.due = loop().now + self.interval

    def draw_idle(self, *args, **kwargs):
        lp = loop()
        if self not in lp.idle:
            lp.idle.append(self)

    # simulated processes do not share the locks of the renderer
    import contextlib
    from matplotlib.figure import Figure
    for c, name in ((Figure, "_render_lock"), (matplotlib.backends.backend_agg.RendererAgg, "lock")):
        if hasattr(c, name):
            setattr(c, name, contextlib.nullcontext())
    FigureCanvasAgg._timer_cls = SimTimer
    FigureCanvasAgg.draw_idle = draw_idle
    plt.show = lambda *a, **k: loop().run()
    f = plt.figure()
    f.add_subplot().plot([0, 1])
    f.add_subplot(projection="3d")
    f.canvas.draw()
    plt.close(f)


def loop():
    sim, rank = current()
    return rank.loop


class Boom(Exception):
    pass


class Loop:
    """The event loop of the graphical interface of a process."""

    def __init__(self, handle):
        self.now, self.timers, self.idle, self.handle = 0., [], [], handle

    def run(self):
        self.handle()

    def advance(self, dt, late):
        """Time goes on; timers fire when due, or all at the end (late)."""
        end = self.now + dt
        if late:
            self.now = end
        while True:
            todo = [t for t in self.timers if t.due is not None and t.due <= end]
            if not todo:
                break
            t = min(todo, key=lambda t: t.due)
            self.now = max(self.now, t.due)
            t.due = self.now + t.interval
            yield t
            if late and self.now >= end and all(t.due is None or t.due > end for t in self.timers):
                break
        self.now = end

    def paint(self, canvas=None):
        todo = [canvas] if canvas is not None else list(self.idle)
        for c in todo:
            if c in self.idle:
                self.idle.remove(c)
            c.draw()


# --------------------------------------------------------------------- cases
KINDS1 = ["line", "scatter"]
KINDS2 = ["image", "contour", "line", "scatter"]


def gen_case(rng, tier):
    nr = 2 if rng.random() < .2 else 1
    spec = gen.gen_spec(rng, dims=(1, 2, 2), maxranks=2, small=True, source=False, elements=rng.random() < .3)
    if nr == 1:
        spec["split"], spec["auto"] = [1] * spec["dim"], True
    figs, nw = [], 0
    for k in range(rng.choice([1, 1, 1, 2])):
        three = spec["dim"] == 2 and rng.random() < .25
        rows, cols = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)]) if not three else (1, 1)
        ws = []
        for _ in range(rng.choice([1, 2, 2, 3, 4]) if not three else 1):
            kind = "scatter3" if three else rng.choice(KINDS1 if spec["dim"] == 1 else KINDS2)
            w = {"kind": kind, "at": [rng.randrange(rows), rng.randrange(cols)], "id": nw, "comp": rng.randrange(8), "give": rng.choice(["m", "m", "F", "copy", "buffer", "derived"]),
                 "size": rng.choice([1, 2, 5]), "clim": rng.choice([None, [0., 2.]]), "label": rng.choice(["", "u"]), "sampling": rng.choice([1, 2])}
            if any(v["kind"] == kind and v["at"] == w["at"] for v in ws):
                continue
            ws.append(w)
            nw += 1
        figs.append({"rows": rows, "cols": cols, "dim": 3 if three else rng.choice([0, spec["dim"]]), "widgets": ws, "interval": rng.choice([None, 1, 20, 50, 200]),
                     "nstep": rng.choice([0, 1, 1, 2]), "how": rng.choice(["all", "all", "some", "alternate"]), "title": rng.random() < .5, "legend": rng.random() < .3})
    ops = []
    for _ in range(rng.choice([4, 6, 8, 12])):
        k = gen.wchoice(rng, {"wait": 5, "draw": 2, "idle": 2, "resize": 1, "update": 1.5, "steps": 1, "raise": .7, "gc": .5, "savefig": .4, "scribble": .7, "buffer": 1})
        o = {"op": k, "fig": rng.randrange(len(figs)), "u": rng.random(), "v": rng.random(), "n": rng.randint(1, 3), "late": rng.random() < .25}
        if nr > 1 and k in ("draw", "idle", "resize", "gc", "savefig", "update"):
            o["rank"] = rng.choice([0, 1])
        ops.append(o)
    if rng.random() < .15:
        # long enough for what counts or keeps the frames
        ops.append({"op": "many", "fig": rng.randrange(len(figs)), "u": rng.random(), "v": 0, "n": rng.choice([30, 110, 130]), "late": False})
    ops.insert(rng.choice([0, 0, 0, 1]), {"op": "draw", "fig": 0, "u": 0, "v": 0, "n": 1, "late": False})
    return {"spec": spec, "figs": figs, "ops": ops, "sched": gen.gen_sched(rng)}


# ------------------------------------------------------------- the reference
class Plots:
    """The plots of a process and what they must show."""

    def __init__(self):
        self.shown = {}      # id -> (copy of the data, or None)
        self.of = {}         # id -> (fig index, case entry, axes)


def segments(polys):
    out = []
    for p in polys:
        codes = p.codes
        v = p.vertices
        for i in range(1, len(v)):
            if codes is None or codes[i] != 1:
                out.append((v[i - 1], v[i]))
    return out


def on_polylines(points, segs):
    if not len(points):
        return True
    if not segs:
        return False
    a = np.array([s[0] for s in segs])
    b = np.array([s[1] for s in segs])
    d = b - a
    l2 = np.maximum((d ** 2).sum(1), 1e-300)
    for p in points:
        t = np.clip(((p - a) * d).sum(1) / l2, 0, 1)
        q = a + t[:, None] * d
        if np.sqrt(((q - p) ** 2).sum(1).min()) > 1e-6:
            return False
    return True


def reference_contour(data):
    from matplotlib.figure import Figure
    return Figure().add_subplot().contour(data.T, levels=6, colors="k")


def problem(w, ax, data, x, y):
    """What the plot shows instead of its data, or None."""
    from matplotlib.collections import PathCollection
    from matplotlib.contour import ContourSet
    kind = w["kind"]
    if kind == "line":
        if len(ax.lines) != 1:
            return "%d lines are drawn" % len(ax.lines)
        l = ax.lines[0]
        if not np.array_equal(l.get_xdata(), x) or not np.array_equal(l.get_ydata(), data, equal_nan=True):
            return "shows x=%s y=%s" % (np.asarray(l.get_xdata())[:6], np.asarray(l.get_ydata())[:6])
        return None if l.get_visible() else "is not visible"
    if kind in ("scatter", "scatter3"):
        cs = [c for c in ax.collections if isinstance(c, PathCollection)]
        if len(cs) != 1:
            return "%d clouds of points are drawn" % len(cs)
        if kind == "scatter":
            o = np.ma.getdata(cs[0].get_offsets())
            if o.shape != (x.size, 2) or not np.array_equal(o[:, 0], x) or not np.array_equal(o[:, 1], data, equal_nan=True):
                return "shows %s" % o[:6].tolist()
            return None
        n = w["sampling"]
        my, mx = np.meshgrid(y[::n], x[::n])
        o = [np.ma.getdata(a) for a in cs[0]._offsets3d]
        for a, b in zip(o, (mx.ravel(), my.ravel(), data[::n, ::n].ravel())):
            if not np.array_equal(a, b, equal_nan=True):
                return "shows %s instead of %s" % (np.asarray(a)[:6], b[:6])
        return None
    if kind == "image":
        if len(ax.images) != 1:
            return "%d images are drawn" % len(ax.images)
        a = ax.images[0].get_array()
        if a.shape != data.T.shape or not np.array_equal(np.ma.filled(a, np.nan), data.T, equal_nan=True):
            return "shows %s" % np.asarray(a).ravel()[:6]
        if w["clim"] and list(ax.images[0].get_clim()) != w["clim"]:
            return "has the color limits %s" % (ax.images[0].get_clim(),)
        return None
    cs = [c for c in ax.collections if isinstance(c, ContourSet)]
    if len(cs) != 1:
        return "%d families of contours are drawn" % len(cs)
    ref = reference_contour(data)
    if not np.array_equal(cs[0].levels, ref.levels):
        return "shows the levels %s instead of %s" % (cs[0].levels, ref.levels)
    for i, (p, q) in enumerate(zip(cs[0].get_paths(), ref.get_paths())):
        if not on_polylines(p.vertices, segments([q])) or (len(q.vertices) > 30 and not len(p.vertices)):
            return "shows another contour at the level %s" % ref.levels[i]
    texts = [t for t in ax.texts]
    if any(t not in texts for t in cs[0].labelTexts) or len(texts) != len(cs[0].labelTexts):
        return "has %d labels for %d lines labelled" % (len(texts), len(cs[0].labelTexts))
    return None


# ------------------------------------------------------------------ a process
def main_of(case, stats, acts=None):
    """The body of the processes; acts: what the simulation did in the run with figures, done again without them."""
    spec = case["spec"]

    def main(r):
        sim, rank = current()
        pylbm = world.pylbm()
        s = gen.simulate(spec, steps=0)
        names = list(s.scheme.consm)
        x = np.array(s.domain.x)
        y = np.array(s.domain.y) if s.dim == 2 else None
        small = s.dim == 2 and min(s.domain.shape_in) < 2
        P = Plots()
        buffers, calls, errors = {}, {}, {"n": 0, "raise": None}
        updated, titles = set(), {}

        done = []

        def steps(n):
            done.append(("steps", n))
            for _ in range(n):
                s.one_time_step()
            if not np.abs(s.F_halo[0]).max() < 1e6:
                raise Invalid("unstable")

        def scribble(u):
            done.append(("scribble", u))
            s.m_halo[names[0]] = np.asarray(s.m_halo[names[0]]) * (1 + .1 * u)
            s.m2f()

        def result():
            return {"m": np.array(gen.fields(s)[0]), "f": np.array(gen.fields(s)[1]), "nt": s.nt, "done": done}

        if acts is not None:
            for a, v in acts[r]:
                (steps if a == "steps" else scribble)(v)
            return result()

        def data_of(w):
            two = w["kind"] in ("image", "contour", "scatter3")
            g = w["give"]
            if g == "F":
                a = s.F[w["comp"] % s.container.nv]
            else:
                a = s.m[names[w["comp"] % len(names)]]
            if s.dim == 2 and not two:
                a = a[:, (w["comp"] * 7) % a.shape[1]]
            if g == "copy":
                a = np.array(a)
            elif g == "derived":
                a = 2 * a + 1
            elif g == "buffer":
                b = buffers.setdefault(w["id"], np.empty(a.shape))
                b[...] = a
                a = b
            return a

        def create(fig, fi, f):
            for w in f["widgets"]:
                if w["kind"] == "contour" and small:
                    continue
                at = tuple(w["at"]) if f["cols"] > 1 else w["at"][0]
                pw = fig[at]
                if fig[at] is not pw:
                    raise Violation("axes", "the same position of the figure gives two axes")
                d = data_of(w)
                P.shown[w["id"]] = np.array(d)
                kind = w["kind"]
                if kind == "line":
                    o = pw.CurveLine(x, d, width=w["size"], label=w["label"])
                elif kind == "scatter":
                    o = pw.CurveScatter(x, d, size=w["size"], label=w["label"])
                elif kind == "image":
                    o = pw.SurfaceImage(d, clim=w["clim"] or (None, None))
                elif kind == "contour":
                    o = pw.SurfaceContour(d)
                else:
                    o = pw.SurfaceScatter(x, y, d, w["size"], sampling=w["sampling"])
                if f["title"]:
                    pw.title = "at the beginning"
                if f["legend"] and w["label"]:
                    pw.legend()
                P.of[w["id"]] = [fi, w, pw, o]

        def update(i):
            fi, w, pw, o = P.of[i]
            d = data_of(w)
            keep = np.array(d)
            o.update(d)
            if not np.array_equal(d, keep, equal_nan=True):
                raise Violation("data", "the update of plot %s changes the data it is given" % w)
            P.shown[i] = keep

        def frame_of(fi, f):
            mine = [i for i in sorted(P.of) if P.of[i][0] == fi]
            log = calls.setdefault(fi, [])

            def frame(k):
                log.append((k, rank.loop.now))
                if errors["raise"] == fi and len(log) > 1:
                    errors["raise"] = None
                    errors["n"] += 1
                    raise Boom("the update function fails")
                steps(f["nstep"])
                for j, i in enumerate(mine):
                    if f["how"] == "all" or (f["how"] == "some" and j % 2 == 0) or (f["how"] == "alternate" and (j + len(log)) % 2):
                        update(i)
                        updated.add(i)
                if f["title"]:
                    for i in mine:
                        P.of[i][2].title = titles[fi] = "frame %d" % len(log)
            return frame

        figs, canvases = [], []

        def check(what):
            for i, (fi, w, pw, o) in P.of.items():
                t = problem(w, pw.ax, P.shown[i], x, y)
                if t:
                    raise Violation("shows", "process %d, after %s: plot %s %s, its last data is %s" % (r, what, w, t, P.shown[i].ravel()[:6]))
                if fi in titles and pw.title != titles[fi]:
                    raise Violation("title", "process %d, after %s: the title is %r instead of %r" % (r, what, pw.title, titles[fi]))
                stats.probe("plots checked: " + w["kind"])

        def fire(t, what):
            before = {fi: len(v) for fi, v in calls.items()}
            try:
                t._on_timer()
            except Boom:
                stats.fault("update function raises")
            new = [fi for fi in calls if len(calls[fi]) != before.get(fi, 0)]
            if len(new) > 1 or any(len(calls[fi]) != before.get(fi, 0) + 1 for fi in new):
                raise Violation("frames", "process %d: one timer calls the update functions of the figures %s: %s" % (r, new, calls))

        def handle():
            lp = rank.loop
            started = set(range(len(figs))) if sim.n > 1 else set()

            def paint(fi):
                lp.paint(canvases[fi])
                started.add(fi)
                stats.probe("redraws")
                nt = updated & {i for i in P.of if P.of[i][0] == fi}
                if nt:
                    stats.nontrivial = True
            for oi, o in enumerate(case["ops"]):
                if o.get("rank") not in (None, r):
                    continue
                k, fi = o["op"], o["fig"]
                what = "event %d %s" % (oi, k)
                if k in ("wait", "many"):
                    f = case["figs"][fi]
                    dt = (f["interval"] or 50) * (o["n"] + .5)
                    if any((g["interval"] or 50) * 20 < dt for g in case["figs"]):
                        dt = min((g["interval"] or 50) for g in case["figs"]) * (o["n"] + (10.5 if k == "wait" else .5))
                    before = {gi: len(calls.get(gi, ())) for gi in started}
                    for t in lp.advance(dt, o["late"]):
                        fire(t, what)
                        if k == "wait" or rank.loop.now % 7 < 1:
                            check(what)
                        stats.probe("timers fired" + (" late" if o["late"] else ""))
                        if o["u"] < .3:
                            while lp.idle:
                                paint(canvases.index(lp.idle[0]))
                    # a figure that is drawn once is updated for ever
                    for gi, nb in before.items():
                        want = int(dt / (case["figs"][gi]["interval"] or 50) + 1e-9)
                        if o["late"]:
                            want = min(want, 1)
                        if len(calls.get(gi, ())) - nb < want:
                            raise Violation("stopped", "process %d, %s: figure %d is updated %d times in %s ms, every %s ms was asked" % (
                                r, what, gi, len(calls.get(gi, ())) - nb, dt, case["figs"][gi]["interval"] or 50))
                        stats.probe("figures that keep being updated")
                elif k == "draw":
                    if sim.n == 1 or fi in started or o.get("rank") is None:
                        paint(fi)
                elif k == "idle":
                    while lp.idle:
                        paint(canvases.index(lp.idle[0]))
                elif k == "resize":
                    figs[fi].fig.set_size_inches(2 + 4 * o["u"], 2 + 4 * o["v"])
                    from matplotlib.backend_bases import ResizeEvent
                    ResizeEvent("resize_event", canvases[fi])._process()
                    canvases[fi].draw_idle()
                    stats.probe("resizes")
                elif k == "update":
                    mine = sorted(P.of)
                    if mine:
                        update(mine[int(o["u"] * len(mine))])
                elif k == "steps":
                    steps(o["n"])
                elif k == "raise":
                    if sim.n == 1:
                        errors["raise"] = fi
                elif k == "gc":
                    gc.collect()
                elif k == "savefig":
                    figs[fi].fig.savefig("f%d_%d.png" % (r, oi))
                elif k == "scribble":
                    scribble(o["u"])
                elif k == "buffer":
                    for b in buffers.values():
                        b[...] = o["u"]
                check(what)
            return started

        rank.loop = Loop(handle)
        try:
            for fi, f in enumerate(case["figs"]):
                fig = pylbm.viewer.matplotlib_viewer.Fig(f["rows"], f["cols"], dim=f["dim"], figsize=(3, 2))
                figs.append(fig)
                canvases.append(fig.fig.canvas)
                create(fig, fi, f)
                fn = frame_of(fi, f)
                if f["interval"] is None:
                    fig.animate(fn)
                else:
                    fig.animate(fn, interval=f["interval"])
            if sim.n > 1:
                # the first image is drawn by all the processes, as the frames do steps
                for fi in range(len(figs)):
                    rank.loop.paint(canvases[fi])
            check("the construction")
            figs[0].show()
            for fi, log in calls.items():
                f = case["figs"][fi]
                ks = [k for k, _ in log[1:]]
                if ks != list(range(len(ks))) and ks != list(range(1, len(ks) + 1)):
                    raise Violation("frames", "process %d: figure %d is given the frame numbers %s" % (r, fi, [k for k, _ in log]))
                step = f["interval"] or 50
                late = any(o["late"] for o in case["ops"])
                for (_, a), (_, b) in zip(log[1:], log[2:]):
                    if b - a < step - 1e-9 or (not late and b - a > step + 1e-9):
                        raise Violation("interval", "process %d: figure %d is updated %s ms after the previous time instead of %s" % (r, fi, b - a, step))
            for fi, f in enumerate(case["figs"]):
                stats.probe("frames", len(calls.get(fi, ())))
        finally:
            for fig in figs:
                fig.close()
        return result()
    return main


def run(case, choices, stats):
    spec = case["spec"]
    n = gen.nranks(spec)
    out = world.run_world(n, main_of(case, stats), choices, case["sched"], gen.argv(spec))
    stats.world(out)
    for r, e in enumerate(out.excs):
        if isinstance(e, Violation):
            raise Violation(e.kind, "process %d: %s" % (r, e), out)
        if isinstance(e, Invalid):
            raise e
    if not out.clean:
        raise Violation("fails", out.describe(), out)
    acts = [q["done"] for q in out.results]
    if any(a != acts[0] for a in acts):
        raise Violation("frames", "the processes do not do the same steps: %s" % (acts,), out)
    ref = world.run_world(n, main_of(case, stats, acts), choices, case["sched"], gen.argv(spec), start=n)
    if not ref.clean:
        raise Invalid(ref.describe(), ref)
    for r, (a, b) in enumerate(zip(ref.results, out.results)):
        for w in ("m", "f", "nt"):
            if not np.array_equal(a[w], b[w]):
                raise Violation("simulation", "the figures change %s of process %d" % ({"m": "the moments", "f": "the distributions", "nt": "the number of steps"}[w], r), out)
    stats.sim_steps += out.results[0]["nt"]
