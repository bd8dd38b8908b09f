"""C01, C02: histories of updates on one camera and on a group, checked against newly built cameras."""
import os

import numpy as np

from .. import camlib, history
from ..kernel import World, Violation, Pristine


def scratch_dir():
    d = os.path.join(os.environ["SIM_SCRATCH"], "run%d" % os.getpid())
    os.makedirs(d)
    return d


class HistoryWorld(World):
    allow = []
    max_ops = 14

    def setup(self):
        camlib.setup()

    def execute(self, program, ctx):
        pristine = Pristine(camlib.fresh_observations) if any(op.get("fresh") for op in program["ops"]) else None
        d = scratch_dir()
        try:
            self.run(program, ctx, pristine, d)
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)

    def run(self, program, ctx, pristine, d):
        s = history.System(program["spec"], ctx, d)
        s.check("after construction", 1)
        sig = [sorted(str(program["spec"][p][0]) for p in history.PARTS)]
        for k, op in enumerate(program["ops"]):
            s.apply(op)
            sig = (sig + [(op["op"], op.get("name", op.get("kind", "")), op.get("route"))])[-3:]
            ctx.state(*sig)
            if op.get("chk") is not None:
                s.check("after step %d (%s)" % (k, op["op"]), op["chk"], pristine if op.get("fresh") else None,
                        route=op.get("twin", "ctor"))
        s.check("at the end", 2)
        ctx.interesting = len(program["ops"]) >= 3
        ctx.ev("end", [sorted((n, repr(float(v))) for n, v in m.effective().items()) for m in s.models])

    def decorate(self, rng, ops):
        for op in ops:
            op["chk"] = rng.choice([None, 0, 1, 1, 2])
            op["twin"] = rng.choice(["ctor", "assign"])
        if ops:
            op = rng.choice(ops)
            op["chk"], op["fresh"] = 1, True
        return ops


class C01(HistoryWorld):
    prop = "C01"
    allow = ["set"] * 7 + ["default", "setfit", "setfit", "rotate", "gps", "search", "sample", "mean", "settrace", "load", "partload", "bad", "use"]

    def gen(self, rng, tier):
        spec = camlib.gen_spec(rng)
        st = history.GenState(spec)
        n = rng.randint(2, self.max_ops if tier == "quick" else 30)
        focus = rng.sample(self.allow, 4) if rng.random() < 0.5 else self.allow
        return dict(spec=spec, ops=self.decorate(rng, [history.gen_op(rng, st, focus) for _ in range(n)]))


class C02(HistoryWorld):
    prop = "C02"
    allow = ["set"] * 8 + ["default", "setfit", "setfit", "rotate", "gps", "search", "sample", "mean", "partload", "bad", "use", "scale", "correspond"]

    def gen(self, rng, tier):
        spec = history.gen_group_spec(rng, same=rng.random() < 0.25)
        st = history.GenState(spec)
        n = rng.randint(2, 12 if tier == "quick" else 25)
        ops = self.decorate(rng, [history.gen_op(rng, st, self.allow) for _ in range(n)])
        for op in ops:
            if op["op"] in ("set", "default") and op["t"] == ["g"] and op["name"][0] == "C" and rng.random() < 0.6:
                # the parameter under another of its names
                k, name = op["name"][1:].split("_", 1)
                for p in history.PARTS:
                    if p + "_same" in spec and any(name == x for x in st.part_names(int(k), p)):
                        k = rng.choice([i for i, j in enumerate(spec[p + "_same"]) if j == int(k)])
                op["name"] = "C%s_%s" % (k, name)
        return dict(spec=spec, ops=ops)


# ------------------------------------------------------------------------------------------------ C03
def make_image(seed, w, h, channels):
    rs = np.random.RandomState(seed % (1 << 32))
    shape = (h, w) if channels == 1 else (h, w, channels)
    return rs.randint(1, 255, size=shape).astype("uint8")


def view(cam, op, image, extent, plotted=None):
    """one call of a view function; returns ("image", array) or ("raises", type)"""
    kw = {}
    if extent is not None:
        kw["extent"] = extent
    if op.get("scaling") is not None:
        kw["scaling"] = op["scaling"]
    if op.get("skip"):
        kw["skip_size_check"] = True
    if op.get("plot"):
        kw["do_plot"] = True
    try:
        if op["view"] == "top":
            if op.get("Z") is not None:
                kw["Z"] = op["Z"]
            if op.get("hide") is not None:
                kw["hide_backpoints"] = op["hide"]
            return "image", cam.getTopViewOfImage(image, **kw)
        return "image", cam.undistortImage(image, **kw)
    except Exception as e:
        return "raises", type(e).__name__


def fresh_view(arg):
    spec, op, image, extent = arg
    return view(camlib.CamModel.from_spec(spec).build(), dict(op, plot=False), image, extent)


class C03(HistoryWorld):
    prop = "C03"
    allow = ["set"] * 6 + ["default", "setfit", "rotate", "gps", "load", "partload", "bad", "sample", "mean", "search"]

    def setup(self):
        HistoryWorld.setup(self)
        import matplotlib.pyplot  # noqa: F401

    def gen(self, rng, tier):
        spec = camlib.gen_spec(rng, lens=rng.choice(["none", "brown", "abc", "brown", "abc"]))
        st = history.GenState(spec)
        n = rng.randint(3, 14 if tier == "quick" else 30)
        extents = []
        # where the camera looks at the ground, so that the views show something
        cam = camlib.build_live(spec)
        look = cam.spaceFromImage([float(cam.center_x_px), float(cam.center_y_px)])
        if not np.all(np.abs(look) < 1e4):
            look = np.array([0, 30, 0])
        for _ in range(3):
            w, h = rng.choice([20, 30, 40]), rng.choice([20, 30, 40])
            x, y = int(look[0]) + rng.randint(-w, 0), int(look[1]) + rng.randint(-h, 0)
            extents.append([x, x + w, y, y + h])
        # regions that have much in common with the first one: shifted along one axis, with one other border, swapped, nearly the same
        for slot in (1, 2):
            if rng.random() < 0.5:
                e = list(extents[0])
                kind = rng.choice(["x", "y", "border", "swap", "near", "collide"])
                if kind in "xy":
                    axis, by = "xy".index(kind), rng.choice([-6, -1, 1, 3, 8])
                    e[2 * axis] += by
                    e[2 * axis + 1] += by
                elif kind == "border":
                    e[rng.randrange(4)] += rng.choice([-1, 1, 2, -2])
                elif kind == "swap":
                    e = e[2:] + e[:2]
                elif kind == "near":
                    e = [v + rng.choice([0.5, 0.25, 1e-3]) for v in e]
                else:       # numbers with the same hash
                    border = rng.choice([0, 2])
                    extents[0][border], e[border] = -1, -2
                    extents[0][border + 1] = e[border + 1] = 18
                extents[slot] = e
        zs = rng.choice([[0, 0.0, 5, -3.5], [-1, -2, -1.0], [0, 1e-3, 0.5, -0.5], [0, -1, -2, 5]])
        scalings = rng.choice([[0.5, 1, 2], [0.5, 1, 2], [1, 1.01, 0.99], [0.5, 0.52]])
        ops = []
        last = None
        for _ in range(n):
            r = rng.random()
            if r < 0.55:
                if last is not None and rng.random() < 0.6:      # the same call again, or a slightly different one
                    op = dict(last)
                    change = rng.choice(["nothing", "nothing", "scaling", "Z", "hide", "extent", "image", "view", "plot", "object"])
                    if change == "scaling":
                        op["scaling"] = rng.choice([None] + scalings)
                    elif change == "Z":
                        op["Z"] = rng.choice([None] + zs)
                    elif change == "hide":
                        op["hide"] = rng.choice([None, True, False])
                    elif change == "extent":
                        op["extent"] = rng.choice([None, 0, 1, 2])
                    elif change == "image":
                        op["image"] = rng.randrange(1 << 30)
                        op["channels"] = rng.choice([1, 3, 4])
                    elif change == "view":
                        op["view"] = "undist" if op["view"] == "top" else "top"
                    elif change == "plot":
                        op["plot"] = not op.get("plot")
                    elif change == "object":
                        op["as"] = rng.choice(["list", "tuple", "array"])
                    op.pop("interrupt", None)
                else:
                    op = dict(op="view", view=rng.choice(["top", "top", "undist"]), extent=rng.choice([None, 0, 0, 1, 2]),
                              scaling=rng.choice([None] + scalings), Z=rng.choice([None, None] + zs), hide=rng.choice([None, None, True, False]),
                              image=rng.randrange(1 << 30), channels=rng.choice([1, 3, 4]), skip=rng.random() < 0.2, plot=rng.random() < 0.2)
                    op["as"] = rng.choice(["list", "list", "tuple", "array"])
                if op["extent"] is None and op["view"] == "top":
                    op["scaling"] = None
                if rng.random() < 0.25:
                    op["interrupt"] = [rng.choice(["line", "line", "remap"]), rng.choice([rng.randint(1, 40), rng.randint(1, 120), rng.randint(100, 1000)]),
                                       rng.choice(["KeyboardInterrupt", "MemoryError"])]
                op["fresh"] = rng.random() < 0.2
                op["reuse"] = rng.random() < 0.4        # the caller's array with new content
                last = op
                ops.append(op)
            elif r < 0.65:
                index = rng.choice([[0], [1], [2], [3], [0, 1], [2, 3], [0, 1, 2, 3]])
                ops.append(dict(op="mutate", slot=rng.randrange(3), index=index, delta=rng.choice([-4, -2, 2, 3])))
            else:
                ops.append(history.gen_op(rng, st, self.allow))
        return dict(spec=spec, extents=extents, ops=ops)

    def run(self, program, ctx, pristine, d):
        import cv2
        import matplotlib.pyplot as plt
        s = history.System(program["spec"], ctx, d)
        slots = [list(e) for e in program["extents"]]
        plotted = []
        arrays = {}
        plt.imshow = lambda image, extent=None, **kw: plotted.append(None if extent is None else [float(x) for x in extent])
        sig = []
        views = 0
        real_remap = cv2.remap
        for k, op in enumerate(program["ops"]):
            sig = (sig + [(op["op"], op.get("view"), op.get("name"), op.get("extent"), op.get("scaling"), op.get("Z"), bool(op.get("interrupt")))])[-2:]
            ctx.state(*sig)
            if op["op"] == "mutate":
                for index in np.atleast_1d(op["index"]):        # old replay files have one number
                    slots[op["slot"]][index] += op["delta"]
                continue
            if op["op"] != "view":
                s.apply(op)
                continue
            cam, m = s.cams[0], s.models[0]
            w, h = int(m.eff("image_width_px")), int(m.eff("image_height_px"))
            if op.get("skip"):
                w, h = w + 3, h - 2
            image = make_image(op["image"], w, h, op["channels"])
            if op.get("reuse") and image.shape in arrays:
                arrays[image.shape][...] = image
                image = arrays[image.shape]
            arrays[image.shape] = image
            backup = image.copy()
            ext = None if op["extent"] is None else slots[op["extent"]]
            given = ext if ext is None or op["as"] == "list" else tuple(ext) if op["as"] == "tuple" else np.array(ext)
            if op.get("interrupt"):
                from ..interrupt import Interrupt
                kind, at, exc = op["interrupt"]
                exc = history.ABORTS[exc]
                fired = False
                try:
                    if kind == "line":
                        with Interrupt(at, exc) as it:
                            view(cam, op, image, given)
                        fired = it.fired
                    else:
                        def failing(*a, **kw):
                            raise exc("injected")
                        cv2.remap = failing
                        fired = True
                        view(cam, op, image, given)
                except exc:
                    fired = True
                finally:
                    cv2.remap = real_remap
                if fired:
                    ctx.fault("view interrupted:" + kind)
                ctx.ev("view interrupted", k, fired)
            del plotted[:]
            got = view(cam, op, image, given)
            gotp = list(plotted)
            if not np.array_equal(image, backup):
                raise Violation("image-changed", "step %d: the view call changed the image it was given" % k)
            twin = m.build()
            del plotted[:]
            want = view(twin, op, backup.copy(), None if ext is None else list(ext))
            wantp = list(plotted)
            self.compare(got, want, "step %d" % k, op, ext, ctx)
            if op.get("plot") and gotp != wantp:
                raise Violation("stale-plot", "step %d: plotted with extent %r, a newly built camera plots %r" % (k, gotp, wantp))
            if pristine is not None and op.get("fresh"):
                kind, val = pristine.call((m.spec(), op, backup, None if ext is None else list(ext)))
                if kind != "ok":
                    raise Violation("fresh-camera-fails", val[-300:])
                self.compare(got, val, "step %d (fresh process)" % k, op, ext, ctx)
            if got[0] == "image":
                ctx.probe("view shows something" if got[1].std() > 5 else "view is blank")
                got[1][...] = 77            # the result belongs to the caller
                views += 1
            ctx.ev("view", k, got[0], want[1].shape if want[0] == "image" else want[1])
        ctx.interesting = views >= 2
        ctx.ev("end", views)

    def execute(self, program, ctx):
        pristine = Pristine(fresh_view) if any(op.get("fresh") for op in program["ops"]) else None
        d = scratch_dir()
        try:
            self.run(program, ctx, pristine, d)
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)

    def compare(self, got, want, where, op, ext, ctx):
        ctx.check()
        what = "%s: %s(extent=%r, scaling=%r, Z=%r, hide_backpoints=%r)" % (where, op["view"], ext, op.get("scaling"), op.get("Z"), op.get("hide"))
        if got[0] != want[0]:
            raise Violation("stale-view", "%s gives %s, a newly built camera gives %s" % (what, describe(got), describe(want)))
        if got[0] == "raises":
            ctx.probe("view raises on both")
            return
        if got[1].shape != want[1].shape or not np.array_equal(got[1], want[1]):
            raise Violation("stale-view", "%s gives %s, a newly built camera gives another image: %s" % (what, describe(got), describe(want)))


def describe(r):
    return "%s %s" % (r[0], r[1] if r[0] == "raises" else "%s mean %.3f" % (r[1].shape, r[1].mean() if r[1].size else 0))
