"""C24: plots of the information, the trace and epipolar lines show the camera as it is now, and change nothing."""
import json

import numpy as np

from .. import camlib, history
from ..kernel import Violation
from .history_worlds import HistoryWorld, make_image
from .info_world import C14, add_term, as_array, gen_term
from .search_world import make_fit_parameters

PLOTTED = {"height", "length", "landmark", "landmarkgps", "horizon"}


def pts(x):
    return np.reshape(as_array(x), (-1, np.shape(x)[-1]))


def predicted(cam, term):
    """-> (measured points, what the camera predicts for them)"""
    a = term["args"]
    k = term["kind"]
    if k == "height":
        p = cam.spaceFromImage(pts(a["feet"]), Z=0)
        p[..., 2] += a["height"]
        return np.vstack([pts(a["feet"]), pts(a["head"])]), cam.imageFromSpace(p)
    if k == "length":
        f, b = (cam.spaceFromImage(pts(a[n]), Z=a["Z"]) for n in ("front", "back"))
        d = b - f
        return np.vstack([pts(a["front"]), pts(a["back"])]), cam.imageFromSpace(f + d / np.linalg.norm(d, axis=-1)[:, None] * a["length"])
    if k == "landmark":
        return pts(a["image"]), cam.imageFromSpace(pts(a["space"]))
    if k == "landmarkgps":
        return pts(a["image"]), cam.imageFromSpace(cam.spaceFromGPS(pts(a["geo"])))
    h = pts(a["horizon"])
    return h, cam.getImageHorizon(h[:, 0])


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))


class Drawing:
    """what one plotting call added to the figures"""

    def __init__(self, plt):
        self.plt = plt
        self.before = {id(a): self.kept(a) for a in self.axes()}

    def axes(self):
        return [a for n in self.plt.get_fignums() for a in self.plt.figure(n).axes]

    @staticmethod
    def kept(a):
        return [list(a.lines), list(a.collections), list(a.images)]

    def added(self, a):
        """new (lines, scattered points, images) of these axes"""
        old = self.before.get(id(a), [[], [], []])
        lines, coll, images = ([x for x in now if not any(x is y for y in was)] for now, was in zip(self.kept(a), old))
        return ([np.array(l.get_xydata(), dtype=float) for l in lines],
                [np.array(np.ma.filled(c.get_offsets().astype(float), np.nan)) for c in coll],
                [np.array(i.get_array()) for i in images])

    def count(self, a):
        return sum(len(x) for x in self.added(a))


class C24(HistoryWorld):
    prop = "C24"

    def setup(self):
        camlib.setup()
        import matplotlib
        matplotlib.use("agg")
        import matplotlib.pyplot as plt
        import scipy.stats  # noqa
        plt.figure().add_subplot(111).plot([0, 1], [0, 1])
        plt.close("all")

    # ------------------------------------------------------------------------------------------------ generation
    def gen(self, rng, tier):
        group = rng.random() < 0.35
        spec = history.gen_group_spec(rng) if group else camlib.gen_spec(rng)
        for part in (spec["ori"] if group else [spec["ori"]]):
            part[1].update(elevation_m=round(rng.uniform(3, 30), 2), pos_x_m=round(rng.uniform(-30, 30), 2), pos_y_m=round(rng.uniform(-30, 30), 2), roll_deg=round(rng.uniform(-5, 5), 2))
            if part[0] == "hpr":
                part[1]["tilt_deg"] = round(rng.uniform(30, 75), 2)
            else:
                part[1].update(yaw_deg=round(rng.uniform(-180, 180), 2), pitch_deg=round(rng.uniform(-60, -15), 2))
        st = history.GenState(spec)
        ops, tid, summed = [], 0, False
        allow = ["set"] * 6 + ["default", "setfit", "setfit", "sample", "mean", "settrace", "settrace", "settrace", "rotate", "gps", "partload"]
        n = rng.randint(5, 14 if tier == "quick" else 30)
        for _ in range(n):
            kind = rng.choice(["add"] * 4 + ["update"] * 4 + ["plot"] * 5 + ["plottrace"] * 3 + ["search"] + (["epi"] if group else []))
            if kind == "add":
                t = ["c", rng.randrange(st.n)]
                tid += 1
                term = gen_term(rng, tid, t, st, {})
                for _ in range(20):
                    if term["kind"] in PLOTTED and not isinstance(term["args"].get("var"), dict):
                        break
                    term = gen_term(rng, tid, t, st, {})
                else:
                    continue
                term["plot"] = rng.random() < 0.5
                ops.append(dict(op="add", t=t, term=term))
            elif kind == "update":
                ops.append(history.gen_op(rng, st, allow))
            elif kind == "search":
                t = st.pick_target(rng, 0.4)
                names = [x for x in st.names(t) if x[1] in ("elevation_m", "heading_deg", "pos_x_m", "yaw_deg")]
                params = []
                for attr, nm in rng.sample(names, rng.randint(1, min(3, len(names)))):
                    lo, hi = (3, 30) if nm == "elevation_m" else history.BOUNDS[nm]
                    params.append(dict(name=attr, value=float(lo + (hi - lo) * rng.random()), lower=float(lo), upper=float(hi), step=(hi - lo) / 20))
                ops.append(dict(op="find", t=t, params=params, iterations=rng.choice([15, 40]), seed=rng.randrange(1 << 31), filter=rng.random() < 0.4))
            elif kind == "plot":
                ops.append(dict(op="plot", t=["c", rng.randrange(st.n)], image=rng.choice([None, None, 1, 3]), figure=rng.choice(["new", "same", "same"]), fault=self.gen_fault(rng)))
            elif kind == "plottrace":
                op = dict(op="plottrace", t=st.pick_target(rng, 0.4), figure=rng.choice(["new", "same", "axes"]), kw={}, fault=self.gen_fault(rng))
                for k, v in dict(just_distributions=True, show_mean_median=False, N=rng.choice([1, 2, 3]), skip=rng.choice([2, 3])).items():
                    if rng.random() < 0.2:
                        op["kw"][k] = v
                ops.append(op)
                before = [o for o in ops if o["op"] == "settrace" and o["t"] == op["t"]]
                if before and before[-1]["rows"] and rng.random() < 0.5:
                    # another trace of the same parameters in the same figure
                    f = rng.choice([0.7, 0.97, 1.05, 1.6])
                    again = json.loads(json.dumps(before[-1]))
                    again["rows"] = [[v * f * (1 + rng.uniform(-0.02, 0.02)) for v in rng.choice(again["rows"])] for _ in range(len(again["rows"]) + rng.choice([0, 1, 10]))]
                    ops.append(again)
                    ops.append(dict(op, figure="same", fault=None))
                    continue
            else:
                ops.append(dict(op="epi", c1=[[round(rng.uniform(5, 60), 2), round(rng.uniform(2, 46), 2)]], c2=[[round(rng.uniform(5, 60), 2), round(rng.uniform(2, 46), 2)]],
                                fault=self.gen_fault(rng)))
            if ops and ops[-1]["op"] == "settrace" and ops[-1]["rows"]:
                more = ops[-1]["rows"]
                for _ in range(rng.choice([0, 0, 8, 30])):       # enough rows for a distribution
                    more.append([v * (1 + rng.uniform(-0.1, 0.1)) for v in rng.choice(more[:6])])
        return dict(spec=spec, data=rng.randrange(1 << 30), ops=ops)

    @staticmethod
    def gen_fault(rng):
        return rng.choice([1, 2, 3, rng.randint(1, 12)]) if rng.random() < 0.15 else None

    # ------------------------------------------------------------------------------------------------ execution
    def run(self, program, ctx, pristine, d):
        import matplotlib.pyplot as plt
        s = history.System(program["spec"], ctx, d)
        terms = {i: [] for i in range(len(s.cams))}
        self.summed = False
        self.columns = {}                      # figure number -> columns of the traces plotted there
        traces = {}
        plots = 0
        last = ""
        for k, op in enumerate(program["ops"]):
            kind = op["op"]
            where = "step %d (%s)" % (k, kind)
            if kind not in ("add", "plot", "plottrace", "epi", "find"):
                s.apply(op)
                if kind == "settrace":
                    traces[json.dumps(op["t"])] = None if op["rows"] is None else s.target(op["t"]).parameters.trace.copy(deep=True)
                last = kind
                continue
            ctx.ev("op", json.dumps(op, sort_keys=True))
            if kind == "add":
                add_term(s.target(op["t"]), op["term"], {}, {}, {})
                terms[op["t"][1]].append(op["term"])
                self.summed = self.summed or not op["term"].get("plot")
            elif kind == "find":
                self.find(s, op, traces)
            else:
                unchanged = self.remember(s, traces)
                try:
                    if kind == "plot":
                        self.plot(s, op, terms[op["t"][1]], program, ctx, where, plt)
                    elif kind == "plottrace":
                        self.plot_trace(s, op, traces.get(json.dumps(op["t"])), ctx, where, plt)
                    elif s.group is not None and len(s.cams) > 1:
                        self.epi(s, op, ctx, where, plt)
                finally:
                    pass
                plots += 1
                unchanged(where)
                ctx.check()
            ctx.state(kind, [t["kind"] for t in terms[op["t"][1]]][-2:] if op.get("t", [""])[0] == "c" else "", last, op.get("figure"), bool(op.get("fault")))
            last = kind
        s.check("at the end", 1)
        ctx.interesting = plots >= 2
        ctx.ev("end", plots)

    def find(self, s, op, traces):
        """a short search, its trace stays"""
        if self.summed:
            return
        o = s.target(op["t"])
        names = [p["name"] for p in op["params"]]
        mid = {p["name"]: 0.5 * (p["lower"] + p["upper"]) for p in op["params"]}
        if op["t"] not in self.landed(s):
            self.landed(s).append(op["t"])
            on = [True]
            o.addCustomoLogProbability(lambda: -sum(((float(getattr(o, n)) - m) / (1 + abs(m))) ** 2 for n, m in mid.items()))
        np.random.seed(op["seed"])
        tr = o.metropolis(make_fit_parameters(op["params"]), iterations=op["iterations"], burn=0, disable_bar=True, print_trace=False)
        s.model_setfit(op["t"], {n: float(getattr(o, n)) for n in names})
        if op["filter"]:
            tr = tr[len(tr) // 3:]
            o.set_trace(tr)
        traces[json.dumps(op["t"])] = tr.copy(deep=True)
        s.traces[json.dumps(op["t"])] = [tr[n].tolist() for n in names], tr["probability"].tolist(), names

    @staticmethod
    def landed(s):
        if not hasattr(s, "plot_landed"):
            s.plot_landed = []
        return s.plot_landed

    def remember(self, s, traces):
        """-> function that raises if a plot changed anything"""
        objects = list(s.cams) + ([s.group] if s.group is not None else [])

        def everything():
            return [repr([(n, repr(p.value), repr(p.mean), repr(p.default), p.state) for n, p in sorted(o.parameters.parameters.items())]) for o in objects]

        def logp():
            return [repr(float(o.getLogProbability())) for o in objects]
        was, prob, random = everything(), logp(), np.random.get_state()

        def unchanged(where):
            now = np.random.get_state()
            if not (now[2:] == random[2:] and np.array_equal(now[1], random[1])):
                raise Violation("plot-draws-randomly", "%s: the plot used the random number generator" % where)
            for a, b, i in zip(was, everything(), range(len(was))):
                if a != b:
                    raise Violation("plot-changes-camera", "%s: object %d had %s, has %s" % (where, i, a[:600], b[:600]))
            if prob != logp():
                raise Violation("plot-changes-probability", "%s: log-probabilities %r, before %r" % (where, logp(), prob))
            for key, tr in traces.items():
                have = s.target(json.loads(key)).parameters.trace
                if (tr is None) != (have is None) or (tr is not None and not (list(tr.columns) == list(have.columns) and np.array_equal(tr.to_numpy(), have.to_numpy(), equal_nan=True)
                                                                               and list(tr.index) == list(have.index))):
                    raise Violation("plot-changes-trace", "%s: the trace of %s is another one" % (where, key))
        return unchanged

    def call(self, f, op, ctx, plt):
        """the plotting call, maybe with one failing drawing call; -> whether it went through"""
        n = op.get("fault")
        if not n:
            f()
            return True
        left = [n]
        real = {}

        def wrap(name):
            g = real[name] = getattr(plt, name)

            def h(*a, **kw):
                left[0] -= 1
                if left[0] == 0:
                    ctx.fault("drawing call fails: " + name)
                    raise history.SimAbort("drawing failed")
                return g(*a, **kw)
            setattr(plt, name, h)
        for name in ("plot", "scatter", "imshow", "xlim", "ylim", "axvline", "axhline", "sca"):
            wrap(name)
        try:
            f()
            return left[0] > 0
        except history.SimAbort:
            return False
        finally:
            for name, g in real.items():
                setattr(plt, name, g)

    # --- information
    def draw(self, cam, image, plt, op=None, ctx=None):
        """-> (drawing, axes) or None"""
        f = lambda: cam.plotFitInformation(image) if image is not None else cam.plotFitInformation()
        d = Drawing(plt)
        ax = plt.gca()
        ok = self.call(f, op or {}, ctx, plt)
        return (d, ax) if ok else None

    def plot(self, s, op, terms, program, ctx, where, plt):
        i = op["t"][1]
        cam, model = s.cams[i], s.models[i]
        w, h = int(cam.image_width_px), int(cam.image_height_px)
        image = make_image(program["data"], w, h, op["image"]) if op["image"] else None
        fresh = model.build()
        for t in terms:
            add_term(fresh, t, {}, {}, {})
        # what a camera without a past draws
        plt.figure("reference").clear()
        try:
            d0, ax0 = self.draw(fresh, image, plt)
            want, raised = d0.added(ax0), None
            limits = [tuple(ax0.get_xlim()), tuple(ax0.get_ylim())]
        except Exception as e:
            raised = type(e).__name__
        plt.close("reference")
        if op["figure"] == "new" or not plt.get_fignums():
            plt.figure().subplots(1, 2)
        axes = plt.gcf().axes
        ax = axes[(program["data"] + len(ctx.states)) % len(axes)]
        plt.sca(ax)
        keep = None if image is None else image.copy()
        try:
            got = self.draw(cam, image, plt, op, ctx)
        except Exception as e:
            if raised != type(e).__name__:
                raise
            ctx.probe("plot raises " + raised)
            return
        if image is not None and not np.array_equal(image, keep):
            raise Violation("plot-changes-image", "%s: the image was changed" % where)
        if got is None:
            return
        if raised:
            raise Violation("wrong-plot", "%s: a newly built camera raises %s, this one plotted" % (where, raised))
        d, used = got
        for a in d.axes():
            if a is not ax and d.count(a):
                raise Violation("wrong-axes", "%s: something was drawn in other axes than the current ones" % where)
        have = d.added(ax)
        ctx.check()
        ctx.probe("information plotted", len(terms))
        for name, a, b in zip(("lines", "markers", "images"), have, want):
            if len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b)):
                raise Violation("stale-plot", "%s: %s drawn %r, a newly built camera draws %r (terms %r)" % (where, name, [x.tolist() for x in a][:9], [x.tolist() for x in b][:9], [t["kind"] for t in terms]))
        now = [tuple(ax.get_xlim()), tuple(ax.get_ylim())]
        if not close(now, limits) or not close(now, [(0, w), (h, 0)]):
            raise Violation("wrong-limits", "%s: limits %r, the image has %d x %d pixels" % (where, now, w, h))
        drawn = np.vstack([np.zeros((0, 2))] + [x.reshape(-1, 2) for x in have[0] + have[1]])
        ref = model.build()
        for t in terms:
            for what, points in zip(("measured", "predicted"), predicted(ref, t)):
                for p in points:
                    if np.all(np.isfinite(p)) and not np.any(np.all(np.abs(drawn - p) <= 1e-6 * (1 + np.abs(p)), axis=1)):
                        raise Violation("not-drawn", "%s: the %s point %r of %s information is not drawn" % (where, what, p.tolist(), t["kind"]))

    # --- traces
    def plot_trace(self, s, op, tr, ctx, where, plt):
        o = s.target(op["t"])
        kw = dict(op["kw"])
        if tr is None or not len(tr) or not np.any(np.isfinite(tr["probability"])):
            return
        names = [c for c in tr.columns if c != "probability"]
        n = min(kw.get("N", len(names)), len(names))
        just = kw.get("just_distributions", False)
        skip = kw.get("skip", 1)
        signature = [names, n, just]
        if op["figure"] == "axes":
            axes = plt.figure().subplots(n, 2)
            axes = list(np.ravel(axes))
            kw["axes"] = axes
        elif op["figure"] == "new" or not plt.get_fignums() or self.columns.get(plt.gcf().number) != signature:
            self.columns[plt.figure().number] = signature
        fig = plt.gcf()
        d = Drawing(plt)
        if "axes" not in kw and n < len(names) and "N" in kw:
            pass
        if not self.call(lambda: o.plotTrace(**kw), op, ctx, plt):
            self.columns.pop(fig.number, None)
            plt.close(fig)
            return
        ctx.check()
        ctx.probe("trace plotted", n)
        prob = tr["probability"].to_numpy()
        best = np.flatnonzero(prob == np.nanmax(prob))
        from scipy.stats import gaussian_kde
        for k, name in enumerate(names[:n]):
            data = tr[name].to_numpy(dtype=float)
            if "axes" in kw:
                ax1, ax2 = kw["axes"][2 * k], (None if just else kw["axes"][2 * k + 1])
            else:
                ax1 = [a for a in fig.axes if a.get_xlabel() == name]
                ax2 = [a for a in fig.axes if a.get_title() == name]
                if len(ax1) != 1 or (len(ax2) != 1 and not just):
                    raise Violation("wrong-axes", "%s: %d and %d axes for %s" % (where, len(ax1), len(ax2), name))
                ax1, ax2 = ax1[0], (None if just else ax2[0])
            lines = d.added(ax1)[0]
            marks = [l for l in lines if np.ptp(l[:, 0]) == 0 and len(l) == 2]
            curves = [l for l in lines if not (np.ptp(l[:, 0]) == 0 and len(l) == 2)]
            values = {"most probable": [data[b] for b in best], "mean": [np.mean(data)]}
            if kw.get("show_mean_median", True):
                self.marks([m[0, 0] for m in marks], values, "%s: the distribution of %s" % (where, name))
            elif marks:
                raise Violation("wrong-marks", "%s: marks were not asked for" % where)
            try:
                kde = gaussian_kde(data[::skip])
            except Exception:
                kde = None
            if kde is not None and np.ptp(data) > 1e-6 * (1 + np.abs(data).max()):
                if len(curves) != 1 or not close([curves[0][:, 0].min(), curves[0][:, 0].max()], [data.min(), data.max()]) or not np.allclose(curves[0][:, 1], kde(curves[0][:, 0]), rtol=1e-5, atol=1e-12 + 1e-6 * np.max(curves[0][:, 1])):
                    raise Violation("stale-trace", "%s: the curve of %s is not the distribution of the current trace" % (where, name))
            if ax2 is None:
                continue
            lines = d.added(ax2)[0]
            got = [l for l in lines if len(l) == len(data[::skip]) and close(l[:, 1], data[::skip])]
            if not got:
                raise Violation("stale-trace", "%s: the values of %s are not drawn: %r" % (where, name, [l[:5].tolist() for l in lines]))
            if kw.get("show_mean_median", True):
                rest = [l for l in lines if l is not got[0]]
                if len(rest) != 2 or any(np.ptp(l[:, 1]) for l in rest):
                    raise Violation("wrong-marks", "%s: %d further lines for %s" % (where, len(rest), name))
                self.marks([l[0, 1] for l in rest], values, "%s: the values of %s" % (where, name))

    @staticmethod
    def marks(got, values, what):
        ok = len(got) == 2 and any(close(sorted(got), sorted([b, values["mean"][0]])) for b in values["most probable"])
        if not ok:
            raise Violation("wrong-marks", "%s: marks at %r, expected %r" % (what, got, values))

    # --- epipolar lines
    def epi(self, s, op, ctx, where, plt):
        built = [m.build() for m in s.models]
        ref = camlib.ct.CameraGroup([c.projection for c in built], [c.orientation for c in built], [c.lens for c in built])
        c1, c2 = as_array(op["c1"]), as_array(op["c2"])

        def draw(g, op):
            fig = plt.figure()
            d = Drawing(plt)
            try:
                if not self.call(lambda: g.plotMyEpiploarLines(c1, c2), op, ctx, plt):
                    return None
                return [d.added(a)[0] for a in fig.axes]
            except Exception as e:
                if isinstance(e, Violation):
                    raise
                return type(e).__name__
            finally:
                plt.close(fig)
        want = draw(ref, {})
        got = draw(s.group, op)
        if got is None:
            return
        ctx.check()
        ctx.probe("epipolar lines plotted")
        if isinstance(want, str) or isinstance(got, str):
            if want != got:
                raise Violation("wrong-plot", "%s: %r, newly built cameras: %r" % (where, got if isinstance(got, str) else "plotted", want if isinstance(want, str) else "plotted"))
            return
        if len(want) != len(got) or any(len(a) != len(b) or not all(close(x, y, 1e-5) for x, y in zip(a, b)) for a, b in zip(got, want)):
            raise Violation("stale-plot", "%s: the epipolar lines are not those of newly built cameras" % where)
