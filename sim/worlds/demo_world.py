"""C23: scenes and demonstrators (Qt window on the offscreen platform, matplotlib figure): what is drawn is the camera the controls describe."""
import json
import os
import shutil
import sys

import numpy as np

from .. import camlib
from ..kernel import HarnessError, Pristine, Violation, World
from .history_worlds import scratch_dir

PARAMS = ["focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px", "heading_deg", "tilt_deg", "roll_deg", "pos_x_m", "pos_y_m", "elevation_m"]
PROJECTIONS = ["RectilinearProjection", "CylindricalProjection", "EquirectangularProjection"]
TURNS = ["heading_deg", "tilt_deg", "roll_deg"], ["yaw_deg", "pitch_deg", "roll_deg"]
FRACTIONS = [0.0, 0.02, 0.1, 0.2, 0.25, 0.31, 0.4, 0.5, 0.55, 0.62, 0.75, 0.8, 0.93, 1.0]


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    n = np.isnan(a) != np.isnan(b)
    with np.errstate(all="ignore"):
        big = np.nanmax(np.abs(np.where(np.isnan(a), b, a)), initial=0) > 1e7 or not np.isfinite(np.where(np.isnan(a) & np.isnan(b), 0, np.where(np.isnan(a), b, a))).all()
        if n.any():
            return bool(big)         # a point in the plane of the camera
        return bool(np.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True))


class Faults:
    """the n-th drawing call of an action raises"""
    countdown = None
    fired = False

    def hit(self):
        if self.countdown is not None:
            self.countdown -= 1
            if self.countdown <= 0:
                self.countdown = None
                self.fired = True
                raise MemoryError("injected")


FAULTS = Faults()
SLIDERS = []


SCENE_VALUES = dict(focallength_x_px=[60, 75, 90.5], focallength_y_px=[60, 80], center_x_px=[0, 30.5, 32], center_y_px=[10, 24], image_width_px=[64, 65, 96, 120], image_height_px=[48, 51, 90],
                    heading_deg=[0, 10, -45.5, 120], tilt_deg=[30, 60, 85.5, 90], roll_deg=[0, 5, -20.25], pos_x_m=[0, 1, -2.5], pos_y_m=[0, -3, 4], elevation_m=[5, 2, 10])


def build_object(scene, o):
    if o[0] == "cube":
        return scene.addCube(o[1], o[2])
    if o[0] == "rect":
        return scene.addRect(o[1], o[2])
    if o[0] == "grid":
        return scene.addGrid(np.arange(-o[1], o[1] + 1), np.arange(0, o[2]))
    return scene.add(np.array(o[1], dtype=float))


def twin_camera(values, kind, lens):
    ct = camlib.ct
    v = {n: values[n] for n in PARAMS}
    return ct.Camera(getattr(ct, kind)(**{n: v[n] for n in PARAMS[:6]}), ct.SpatialOrientation(**{n: v[n] for n in PARAMS[6:]}), lens=ct.BrownLensDistortion(*lens) if lens else None)


def fresh_image(arg):
    """the image of a new scene in a process that has not drawn anything"""
    values, kind, lens, objects, fn = arg
    scene = camlib.ct.Scene()
    scene.setCamera(twin_camera(values, kind, lens))
    for o in objects:
        build_object(scene, o)
    scene.renderImage(fn)
    from PIL import Image
    with Image.open(fn) as f:
        return np.array(f)


class C23(World):
    prop = "C23"

    def setup(self):
        os.environ["QT_QPA_PLATFORM"] = "offscreen"
        import PyQt5.QtWidgets, qtpy.QtWidgets, matplotlib.backends.backend_qt5agg  # noqa
        camlib.setup()
        import matplotlib.pyplot as plt
        import matplotlib.widgets as mw
        import matplotlib.cbook as cbook
        cbook._get_running_interactive_framework = lambda: "qt"      # exceptions of callbacks are printed, as with a display
        for n in ("plot", "imshow", "xlabel", "sca", "axis"):
            setattr(plt, n, self.faulty(getattr(plt, n)))
        init = mw.Slider.__init__

        def record(slider, *a, **k):
            SLIDERS.append(slider)
            init(slider, *a, **k)
        mw.Slider.__init__ = record
        import cameratransform
        sys.path.insert(0, os.path.join(os.path.dirname(cameratransform.__file__), "gui_tools", "demonstrator"))
        import cameratransform.gui_tools.demonstrator.demo_qt as demo_qt
        import demo_matplotlib
        import demo_includes
        self.qt, self.mpl, self.includes, self.plt = demo_qt, demo_matplotlib, demo_includes, plt

        def scene(cam):
            s = demo_includes.Scene9Cubes(cam)
            s.objects = s.objects[:3]            # (fewer curves to draw)
            return s
        if hasattr(demo_matplotlib, "Scene9Cubes"):
            demo_matplotlib.Scene9Cubes = scene

    def faulty(self, f):
        def g(*a, **k):
            FAULTS.hit()
            return f(*a, **k)
        return g

    # --- programs
    def gen(self, rng, tier):
        n = rng.randint(4, 11 if tier == "quick" else 30)
        r = rng.random()
        if r < 0.2:
            ops = []
            cams = [dict(values={k: rng.choice(v) for k, v in SCENE_VALUES.items()}, kind=rng.choice(PROJECTIONS), lens=rng.choice([None, None, [0.02, 0, 0]])) for _ in range(2)]
            for k in range(n):
                r = rng.random()
                i = rng.randrange(2)
                if k < 2 or r < 0.2:
                    o = rng.choice([["cube", [rng.choice([0, 1.5, -4]), rng.choice([4, 8.5, 12]), 0.5], rng.choice([1, 2])], ["rect", [rng.choice([0, 2]), rng.choice([5, 9]), 1], 2],
                                    ["grid", rng.choice([2, 4]), rng.choice([5, 10])], ["own", [[0, 3, 0], [1, 5, 1], [2.5, 7, 0]]]])
                    op = dict(op="add", scene=i, object=o)
                elif r < 0.5:
                    name = rng.choice(PARAMS)
                    op = dict(op="set", scene=i, name=name, value=rng.choice(SCENE_VALUES[name]))
                elif r < 0.57:
                    op = dict(op="camera", scene=i)
                else:
                    op = dict(op="render", scene=i)
                    if rng.random() < 0.25:
                        op["fault"] = rng.randint(1, 5)
                    elif rng.random() < 0.15:
                        op["nodir"] = True
                ops.append(op)
            return dict(demo="scene", cams=cams, ops=ops)
        if r < 0.45:
            ops = []
            names = ["image_width_px", "image_height_px", "focallength_px", "elevation_m", "pos_x_m", "pos_y_m", "turn0", "turn1", "turn2"]
            focus = rng.sample(names, 3) if rng.random() < 0.5 else names
            for _ in range(n):
                r = rng.random()
                if r < 0.62:
                    op = dict(op="drag", name=rng.choice(focus), to=[rng.choice(FRACTIONS) for _ in range(rng.randint(1, 3))])
                elif r < 0.92:
                    op = dict(op="radio", which=rng.randrange(2))
                else:
                    op = dict(op="reset")
                if rng.random() < 0.1:
                    op["fault"] = rng.randint(1, 60)
                ops.append(op)
            return dict(demo="mpl", ops=ops)
        w, h = rng.choice([64, 65, 640, 801]), rng.choice([48, 51, 480, 333])
        f = rng.choice([50, 400, 600.5, 37.25])
        lens = rng.choice([None, None, [0.02, 0, 0], [-0.05, 0.01, 0]])
        proj = rng.choice(PROJECTIONS[:1] * 3 + PROJECTIONS)
        small = [0, 1, 2, 3, 7, 10, 12, 50, 100, 400, 640, 641]
        values = dict(zip(PARAMS, [[f, 60, 75, 400, 500, 0]] * 2 + [[w / 2, 10, 30.5, 200, 0]] * 2 + [[w, h, 0, 63, 64, 640, 641]] * 2 + [[0, 10, -45.5, 90, 180, -180, 12.34]] +
                          [[0, 30, 85.5, 90, 120, 180, -10]] + [[0, 5, -20.25, 90]] + [[0, 1, -2.5, 10, -10]] * 2 + [[5, 0, -3, 10, 1.5]]))
        names = rng.sample(PARAMS, 3) + PARAMS[:6] if rng.random() < 0.4 else PARAMS
        locks = ["loc_aspect_ratio", "center_image"]
        focused = False
        if rng.random() < 0.5:       # few controls and values: returning to values shown before
            lock = rng.choice(locks)
            locks = [lock]
            names = [["focallength_y_px", "focallength_y_px", "focallength_x_px"], ["center_x_px", "center_x_px", "image_width_px"]][lock == "center_image"]
            values = {k: rng.sample(v, 2) for k, v in values.items()}
            focused = True
        ops = []
        for _ in range(n):
            r = rng.random()
            if focused and rng.random() < 0.8:
                r = 0.7 if r < 0.42 else 0.0
            if r < 0.38:
                name = rng.choice(names)
                op = dict(op="spin", name=name, value=rng.choice(values[name]))
            elif r < 0.46:
                op = dict(op="step", name=rng.choice(names), n=rng.choice([1, -1, 10, -10, 3]))
            elif r < 0.58:
                op = dict(op="slide", name=rng.choice(names), to=[rng.choice(FRACTIONS + [x / 5000 for x in small]) for _ in range(rng.randint(1, 3))], events=rng.random() < 0.5)
            elif r < 0.63:
                op = dict(op="page", name=rng.choice(names), up=rng.random() < 0.5)
            elif r < 0.82:
                op = dict(op="lock", name=rng.choice(locks))
            elif r < 0.93:
                op = dict(op="projection", value=rng.choice(PROJECTIONS))
            else:
                op = dict(op="events")
            if rng.random() < 0.1:
                op["fault"] = rng.randint(1, 45)
            ops.append(op)
        return dict(demo="qt", image=[w, h], f=f, lens=lens, proj=proj, ops=ops)

    def simplifications(self, program):
        for i, op in enumerate(program["ops"]):
            if op.get("fault"):
                q = json.loads(json.dumps(program))
                q["ops"][i].pop("fault")
                yield q
        if program.get("lens"):
            q = json.loads(json.dumps(program))
            q["lens"] = None
            yield q

    # --- the run
    def execute(self, program, ctx):
        self.ctx = ctx
        SLIDERS[:] = []
        self.errors = []
        dict(qt=self.run_qt, mpl=self.run_mpl, scene=self.run_scene)[program["demo"]](program, ctx)

    # --- scenes
    def run_scene(self, program, ctx):
        pristine = Pristine(fresh_image)
        d = scratch_dir()
        try:
            ct = camlib.ct
            cams = [twin_camera(**c) for c in program["cams"]]
            tables = [dict(c["values"]) for c in program["cams"]]
            scenes = [ct.Scene(), ct.Scene()]
            objects = [[], []]
            which = [0, 1]
            for i in 0, 1:
                scenes[i].setCamera(cams[i])
            before, done = "", 0
            for k, op in enumerate(program["ops"]):
                i = op["scene"]
                kind = op["op"]
                c = which[i]
                fault = False
                if kind == "add":
                    x = build_object(scenes[i], op["object"])
                    objects[i].append(op["object"])
                    if x is not None:
                        x[:] = 77.0                  # the returned points are the caller's
                elif kind == "set":
                    setattr(cams[c], op["name"], op["value"])
                    tables[c][op["name"]] = op["value"]
                elif kind == "camera":
                    which[i] = 1 - c
                    scenes[i].setCamera(cams[1 - c])
                elif op.get("nodir"):
                    try:
                        scenes[i].renderImage(os.path.join(d, "missing", "a.png"))
                    except OSError:
                        fault = True
                        ctx.fault("picture cannot be written")
                    else:
                        raise Violation("render", "step %d: no error although the picture cannot be written" % k)
                else:
                    fn = os.path.join(d, "a%d.png" % (k % 3))
                    fault = self.user(op, lambda: scenes[i].renderImage(fn))
                    if not fault:
                        ctx.check()
                        from PIL import Image
                        with Image.open(fn) as f:
                            got = np.array(f)
                        prog = program["cams"][c]
                        status, want = pristine.call((tables[c], prog["kind"], prog["lens"], objects[i], os.path.join(d, "fresh.png")))
                        if status != "ok":
                            raise HarnessError(want)
                        if got.shape != want.shape:
                            raise Violation("render", "step %d: the picture has %r pixels, that of a new scene %r" % (k, got.shape, want.shape))
                        differ = (np.abs(got.astype(int) - want) > 16).any(axis=-1)
                        if differ.any():
                            raise Violation("render", "step %d: the picture of the scene is not that of a new one (%d pixels differ)" % (k, differ.sum()))
                        done += 1
                ctx.ev(kind, i, fault)
                ctx.state("scene", kind, before, op.get("name"), fault)
                before = kind
            ctx.interesting = done >= 2
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def user(self, op, f):
        """one user action; returns whether a drawing fault hit it"""
        FAULTS.countdown, FAULTS.fired = op.get("fault"), False
        self.errors = []
        try:
            try:
                f()
            except Violation:
                raise
            except Exception as e:
                self.errors.append(e)
        finally:
            FAULTS.countdown = None
        if FAULTS.fired:
            self.ctx.fault("drawing call fails")
        if self.errors and not FAULTS.fired:
            raise Violation("action-raises", "%r raises %s: %s" % (op, type(self.errors[0]).__name__, self.errors[0]))
        return FAULTS.fired

    # --- Qt
    def run_qt(self, program, ctx):
        from qtpy import QtWidgets
        app = QtWidgets.QApplication(["demo"])
        sys.excepthook = lambda t, v, tb: self.errors.append(v)
        ct = camlib.ct
        w, h = program["image"]
        lens = ct.BrownLensDistortion(*program["lens"]) if program["lens"] else None
        cam = ct.Camera(getattr(ct, program["proj"])(focallength_px=program["f"], image=[w, h]), lens=lens)
        scene = self.includes.Scene9Cubes(cam)
        scene.objects = scene.objects[:3]
        # (as QtShortCuts' widgets: a row has a label and a spin box with slider, a check box or a combo box)
        self.user({}, lambda: setattr(self, "w", self.qt.Window(cam, scene)))
        self.cam, self.objects, self.lens, self.app = cam, [np.array(o) for o in scene.objects], program["lens"], app
        self.count = None
        row = lambda x: x.parent().findChild(QtWidgets.QLabel).text()
        self.spins = {row(x): x for x in self.w.findChildren(QtWidgets.QAbstractSpinBox)}
        self.slides = {row(x): x for x in self.w.findChildren(QtWidgets.QSlider)}
        self.locks = {row(x): x for x in self.w.findChildren(QtWidgets.QCheckBox)}
        self.combos = {row(x): x for x in self.w.findChildren(QtWidgets.QComboBox)}
        # the projection shown at the start is the one of the camera from now on
        dirty, done, before = False, 0, ""
        self.check_qt("at the start")
        for k, op in enumerate(program["ops"]):
            controls = self.controls()
            fault = self.user(op, lambda: self.act_qt(op))
            changed = self.controls() != controls
            ctx.ev(op["op"], op.get("name"), fault, changed)
            ctx.state("qt", op["op"], op.get("name", op.get("value")), before, tuple(c.isChecked() for c in self.locks.values()), fault)
            before = op["op"]
            done += changed
            if fault:
                dirty = True
            elif changed:
                dirty = False
            if not dirty:
                self.check_qt("after step %d %r" % (k, op))
        self.user({}, lambda: self.act_qt(dict(op="events")))
        if not dirty:
            self.check_qt("at the end")
        ctx.ev("end", [repr(v) for v in self.controls()])
        ctx.interesting = done >= 2
        self.w.close()

    def controls(self):
        return [s.value() for s in self.spins.values()] + [c.isChecked() for c in self.locks.values()] + [c.currentText() for c in self.combos.values()]

    def act_qt(self, op):
        k = op["op"]
        if k == "events":
            self.app.processEvents()
        elif k == "lock":
            self.locks[op["name"]].click()
        elif k == "projection":
            self.combos["Projection"].setCurrentText(op["value"])
        elif not self.spins[op["name"]].isEnabled():
            return
        elif k == "spin":
            s = self.spins[op["name"]]
            s.lineEdit().setText("%d" % op["value"] if s.metaObject().className() == "QSpinBox" else "%.2f" % op["value"])
            s.interpretText()
        elif k == "step":
            self.spins[op["name"]].stepBy(op["n"])
        elif k == "page":
            s = self.slides[op["name"]]
            s.triggerAction(s.SliderPageStepAdd if op["up"] else s.SliderPageStepSub)
        elif k == "slide":
            s = self.slides[op["name"]]
            s.setSliderDown(True)
            for x in op["to"]:
                s.setSliderPosition(int(round(s.minimum() + x * (s.maximum() - s.minimum()))))
                if op["events"]:
                    self.app.processEvents()
            s.setSliderDown(False)

    def check_qt(self, where):
        self.ctx.check()
        ct = camlib.ct
        v = {n: float(self.spins[n].value()) for n in PARAMS}
        for n in PARAMS:
            if abs(float(getattr(self.cam, n)) - v[n]) > 1e-9:
                raise Violation("wrong-parameter", "%s: %s of the camera is %r, the control shows %r" % (where, n, getattr(self.cam, n), v[n]))
            s = self.slides[n]
            if abs(s.value() * (self.spins[n].maximum() / s.maximum()) - v[n]) > 1.001 * (self.spins[n].maximum() / s.maximum()):
                raise Violation("slider-and-number", "%s: the slider of %s is at %r, the number is %r" % (where, n, s.value(), v[n]))
        a, c = self.locks["loc_aspect_ratio"].isChecked(), self.locks["center_image"].isChecked()
        for n, lock in ("focallength_y_px", a), ("center_x_px", c), ("center_y_px", c):
            if self.spins[n].isEnabled() == lock:
                raise Violation("lock", "%s: %s can%s be changed" % (where, n, "" if lock else "not"))
        if a and v["focallength_y_px"] != v["focallength_x_px"]:
            raise Violation("lock", "%s: focal lengths %r and %r although locked" % (where, v["focallength_x_px"], v["focallength_y_px"]))
        for n, m in ("center_x_px", "image_width_px"), ("center_y_px", "image_height_px"):
            if c and abs(v[n] - v[m] / 2) > 0.006:
                raise Violation("lock", "%s: %s is %r for an %s of %r although locked" % (where, n, v[n], m, v[m]))
        kind = self.combos["Projection"].currentText()
        if type(self.cam.projection).__name__ != kind:
            raise Violation("projection", "%s: the camera has a %s, selected is %s" % (where, type(self.cam.projection).__name__, kind))
        twin = twin_camera(v, kind, self.lens)
        self.check_figure(self.w.findChildren(self.qt.QtShortCuts.Canvas)[0].figure, twin, where)

    # --- both
    def curves(self, fig):
        """label of the axes -> list of curves"""
        out = {}
        for a in fig.axes:
            if a.get_visible() and a.get_xlabel():
                out[a.get_xlabel(), a.get_ylabel()] = ([np.array(l.get_xydata(), dtype=float) for l in a.lines], a)
        return out

    def check_figure(self, fig, twin, where):
        out = self.curves(fig)
        views = {("x (m)", "y (m)"): (0, 1), ("x (m)", "z (m)"): (0, 2), ("y (m)", "z (m)"): (1, 2), ("image x (px)", "image y (px)"): None}
        if set(out) != set(views):
            raise Violation("views", "%s: the views are %r" % (where, sorted(out)))
        count = {k: len(x[0]) for k, x in out.items()}
        if self.count is None:
            self.count = count
        if count != self.count:
            raise Violation("curves", "%s: the views have %r curves, at first %r" % (where, count, self.count))
        w, h = twin.image_width_px, twin.image_height_px
        with np.errstate(all="ignore"):
            cone = np.array(twin.getCameraCone(), dtype=float)
            images = [("the horizon", np.array(twin.getImageHorizon(np.linspace(0, w, 100)), dtype=float))]
            images += [("object %d" % i, np.array(twin.imageFromSpace(o), dtype=float)) for i, o in enumerate(self.objects)]
        for k, cols in views.items():
            want = images if cols is None else [("the cone", cone[:, cols])] + [("object %d" % i, o[:, cols]) for i, o in enumerate(self.objects)]
            for what, x in want:
                if not any(same(x, y) for y in out[k][0]):
                    raise Violation("drawn", "%s: %s of the camera of the controls is not in the view %s: %s" % (where, what, k, camlib.short(x)))
        a = out["image x (px)", "image y (px)"][1]
        if w > 0 and h > 0 and (not same(a.get_xlim(), (0, w)) or not same(a.get_ylim(), (h, 0))):
            raise Violation("drawn", "%s: the image view shows %r, %r for an image of %r x %r" % (where, a.get_xlim(), a.get_ylim(), w, h))
        return images

    # --- matplotlib
    def run_mpl(self, program, ctx):
        self.count = None
        self.ran = False
        self.plt.show = lambda *a, **k: self.loop(program, ctx)      # the event loop of the display
        self.mpl.open_demo()
        if not self.ran:
            raise Violation("no-window", "the demonstrator shows nothing")

    def mouse(self, name, x, y):
        from matplotlib.backend_bases import MouseEvent
        MouseEvent(name, self.fig.canvas, x, y, 1)._process()

    def shown(self):
        return {s.label.get_text(): s for s in SLIDERS if s.ax.get_visible()}

    def loop(self, program, ctx):
        self.ran = True
        self.fig = fig = self.plt.gcf()
        self.fig.canvas.draw()
        callbacks = [fig.canvas.callbacks] + [s._observers for s in SLIDERS]
        for c in callbacks:
            c.exception_handler = self.errors_append
        self.objects = [np.array(o) for o in self.includes.Scene9Cubes(None).objects[:3 if hasattr(self.mpl, "Scene9Cubes") else None]]
        start = self.values()
        first = self.check_mpl("at the start")
        dirty, done, before, kind, last = False, 0, "", self.kind(), first
        for k, op in enumerate(program["ops"]):
            values = self.values()
            fault = self.user(op, lambda: self.act_mpl(op))
            changed = self.values() != values
            ctx.ev(op["op"], op.get("name", op.get("which")), fault, changed)
            ctx.state("mpl", op["op"], op.get("name", op.get("which")), before, self.kind(), fault)
            before = op["op"]
            done += changed
            if fault:
                dirty = True
            elif changed:
                dirty = False
            where = "after step %d %r" % (k, op)
            if op["op"] == "radio" and self.kind() != op["which"]:
                raise Violation("switch", "%s: shown are the angles %r" % (where, TURNS[self.kind()]))
            if op["op"] == "reset" and not fault:
                self.ctx.check()
                now = self.values()
                if any(abs(now[n] - start[n]) > 1e-9 for n in now if n in start and (n != "roll_deg" or kind == self.kind())):
                    raise Violation("reset", "%s: the sliders are %r, at first %r" % (where, now, start))
            if dirty:
                last = None
                continue
            images = self.check_mpl(where)
            same_view = last if op["op"] == "radio" else first if op["op"] == "reset" else None
            if same_view is not None:
                for (what, x), (_, y) in zip(same_view, images):
                    if not same(x, y):
                        raise Violation("switch", "%s: %s in the image changes from %s to %s" % (where, what, camlib.short(x), camlib.short(y)))
            last = images
        ctx.ev("end", sorted((n, repr(float(v))) for n, v in self.values().items()))
        ctx.interesting = done >= 2

    def errors_append(self, e):
        if isinstance(e, Violation):
            raise e
        self.errors.append(e)

    def values(self):
        return {n: float(s.val) for n, s in self.shown().items()}

    def kind(self):
        v = self.shown()
        if all(n in v for n in TURNS[0]) and "yaw_deg" not in v and "pitch_deg" not in v:
            return 0
        if all(n in v for n in TURNS[1]) and "heading_deg" not in v and "tilt_deg" not in v:
            return 1
        raise Violation("switch", "the sliders shown are %r" % sorted(v))

    def act_mpl(self, op):
        k = op["op"]
        if k == "drag":
            n = op["name"]
            if n.startswith("turn"):
                n = TURNS[self.kind()][int(n[4:])]
            ax = self.shown()[n].ax
            at = lambda f: ax.transAxes.transform((min(max(f, 0.001), 0.999), 0.5))
            self.mouse("button_press_event", *at(op["to"][0]))
            for f in op["to"][1:]:
                self.mouse("motion_notify_event", *at(f))
            self.mouse("button_release_event", *at(op["to"][-1]))
        else:
            label = ["tilt-heading-roll", "yaw-pith-roll"][op["which"]] if k == "radio" else "Reset"
            for a in self.fig.axes:
                for t in a.texts:
                    if t.get_text() == label or k == "radio" and op["which"] and t.get_text() == "yaw-pitch-roll":
                        b = t.get_window_extent(self.fig.canvas.get_renderer())
                        x, y = (b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2
                        self.mouse("button_press_event", x, y)
                        self.mouse("button_release_event", x, y)
                        return
            raise Violation("no-control", "no control %s" % label)

    def check_mpl(self, where):
        self.ctx.check()
        ct = camlib.ct
        v = self.values()
        turn = [ct.SpatialOrientation, ct.SpatialOrientationYawPitchRoll][self.kind()]
        twin = ct.Camera(ct.RectilinearProjection(focallength_px=v["focallength_px"], image_width_px=v["image_width_px"], image_height_px=v["image_height_px"],
                                                  center_x_px=v["image_width_px"] / 2, center_y_px=v["image_height_px"] / 2),
                         turn(**{n: v[n] for n in TURNS[self.kind()] + ["elevation_m", "pos_x_m", "pos_y_m"]}))
        return self.check_figure(self.fig, twin, where)
