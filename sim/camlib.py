"""Reference model of cameras, and the interpreter that applies one operation to the real camera and to the model.

The model is a plain table: per part and parameter [value, default, mean, std].  It knows nothing about rotation
matrices, splines or caches: what the transforms should be is answered by a *fresh* camera built from the table.
"""
import math
import numpy as np

from .kernel import Violation, HarnessError

ct = None


def setup():
    global ct
    import cameratransform
    import cv2
    cv2.setNumThreads(0)
    import scipy.stats, scipy.optimize, pandas, tqdm  # noqa: F401 (loaded before the runs are forked)
    import scipy.interpolate                          # noqa: F401
    tqdm.tqdm.monitor_interval = 0                    # no thread that watches progress bars by the real clock
    ct = cameratransform
    np.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")


PROJ = ["rect", "cyl", "equi"]
ORI = ["hpr", "ypr"]
LENS = ["none", "brown", "abc"]
PROJ_PARAMS = ["focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_height_px", "image_width_px",
               "sensor_height_mm", "sensor_width_mm", "focallength_px"]
NO_DEFAULT = {"focallength_x_px", "focallength_y_px", "image_height_px", "image_width_px", "focallength_px"}
DEFAULTS = dict(center_x_px=0, center_y_px=0, sensor_height_mm=13.0, sensor_width_mm=17.3,
                elevation_m=30, tilt_deg=85, roll_deg=0, heading_deg=0, pos_x_m=0, pos_y_m=0, yaw_deg=85, pitch_deg=0,
                k1=0, k2=0, k3=0, a=0, b=0, c=0, gps_lat=0, gps_lon=0)
ORI_PARAMS = dict(hpr=["elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m"],
                  ypr=["elevation_m", "yaw_deg", "roll_deg", "pitch_deg", "pos_x_m", "pos_y_m"])
LENS_PARAMS = dict(none=[], brown=["k1", "k2", "k3"], abc=["a", "b", "c"])
WRAP = dict(hpr="heading_deg", ypr="pitch_deg")


def proj_class(kind):
    return dict(rect=ct.RectilinearProjection, cyl=ct.CylindricalProjection, equi=ct.EquirectangularProjection)[kind]


def ori_class(kind):
    return dict(hpr=ct.SpatialOrientation, ypr=ct.SpatialOrientationYawPitchRoll)[kind]


def lens_class(kind):
    return dict(none=ct.NoDistortion, brown=ct.BrownLensDistortion, abc=ct.ABCDistortion)[kind]


class PartModel:
    def __init__(self, what, kind, values):
        """what: proj/ori/lens/gps; values: constructor values (may be missing or None)"""
        self.what, self.kind = what, kind
        if what == "proj":
            names = PROJ_PARAMS
        elif what == "ori":
            names = ORI_PARAMS[kind]
        elif what == "lens":
            names = LENS_PARAMS[kind]
        else:
            names = ["gps_lat", "gps_lon"]
        self.p = {n: [values.get(n), None if n in NO_DEFAULT else DEFAULTS[n], None, None] for n in names}
        if what == "proj":
            if self.p["center_x_px"][0] is None:
                self.p["center_x_px"][0] = self.p["image_width_px"][0] / 2
            if self.p["center_y_px"][0] is None:
                self.p["center_y_px"][0] = self.p["image_height_px"][0] / 2
            self.p["focallength_px"][0] = self.p["focallength_x_px"][0]
        if what == "gps":
            for n in names:
                if self.p[n][0] is None:
                    self.p[n][0] = 0
        self.normalise()

    def eff(self, name):
        v = self.p[name]
        return v[0] if v[0] is not None else v[1]

    def effective(self):
        return {n: self.eff(n) for n in self.p}

    def normalise(self):
        if self.what == "ori":
            n = WRAP[self.kind]
            v = self.p[n][0]
            if v is not None and (v < -360 or v > 360):
                self.p[n][0] = v % 360

    def _fan_out(self, name):
        if name == "focallength_px":
            for n in ("focallength_x_px", "focallength_y_px"):
                self.p[n][0] = self.p[name][0]
                self.p[n][2] = None

    def assign(self, name, value):
        if isinstance(value, tuple):
            self.p[name][0] = self.p[name][2] = value[0]
            self.p[name][3] = value[1]
        else:
            self.p[name][0] = value
            self.p[name][2] = None
        self._fan_out(name)
        self.normalise()

    def setfit(self, name, value):
        self.p[name][0] = value
        self._fan_out(name)
        self.normalise()

    def set_default(self, name, value):
        self.p[name][1] = value
        self.normalise()

    def uncertain(self):
        return [n for n in self.p if self.p[n][2] is not None]

    def set_to_mean(self):
        for n in self.uncertain():
            self.p[n][0] = self.p[n][2]
        for n in self.uncertain():
            self._fan_out(n)
        self.normalise()

    def build(self):
        """A newly built part with the current effective values."""
        e = self.effective()
        if self.what == "proj":
            e.pop("focallength_px")
            return proj_class(self.kind)(**e)
        if self.what == "ori":
            return ori_class(self.kind)(**e)
        if self.what == "lens":
            return lens_class(self.kind)(**e)
        raise HarnessError("gps is not a part")

    def copy(self):
        q = PartModel.__new__(PartModel)
        q.what, q.kind = self.what, self.kind
        q.p = {n: list(v) for n, v in self.p.items()}
        return q

    def spec(self):
        return dict(what=self.what, kind=self.kind, p=self.p)

    @staticmethod
    def from_spec(s):
        q = PartModel.__new__(PartModel)
        q.what, q.kind, q.p = s["what"], s["kind"], {n: list(v) for n, v in s["p"].items()}
        return q


class CamModel:
    """proj, ori, lens, gps part models (parts may be shared between several CamModels of a group)."""

    def __init__(self, proj, ori, lens, gps=None):
        self.proj, self.ori, self.lens = proj, ori, lens
        self.gps = gps or PartModel("gps", "gps", {})

    def parts(self):
        return [self.proj, self.ori, self.lens, self.gps]

    def owner(self, name):
        for p in self.parts():
            if name in p.p:
                return p
        raise KeyError(name)

    def names(self):
        return [n for p in self.parts() for n in p.p]

    def eff(self, name):
        return self.owner(name).eff(name)

    def effective(self):
        return {n: p.eff(n) for p in self.parts() for n in p.p}

    def build(self, route="ctor"):
        """A newly built camera with these values, given to the constructors or assigned one by one."""
        if route == "ctor":
            cam = ct.Camera(self.proj.build(), self.ori.build(), self.lens.build())
        else:
            w, h, f = (self.proj.eff(n) for n in ("image_width_px", "image_height_px", "focallength_x_px"))
            cam = ct.Camera(proj_class(self.proj.kind)(focallength_px=f, image_width_px=w, image_height_px=h), ori_class(self.ori.kind)(),
                            lens_class(self.lens.kind)())
            for p in self.parts():
                for n in p.p:
                    if n not in ("focallength_px", "gps_lat", "gps_lon"):
                        setattr(cam, n, p.eff(n))
        cam.gps_lat, cam.gps_lon = self.gps.eff("gps_lat"), self.gps.eff("gps_lon")
        return cam

    def copy(self):
        return CamModel(*[p.copy() for p in self.parts()])

    def spec(self):
        return [p.spec() for p in self.parts()]

    @staticmethod
    def from_spec(s):
        return CamModel(*[PartModel.from_spec(p) for p in s])


# ------------------------------------------------------------------------------------------------ construction
def gen_spec(rng, small=True, lens=None, proj=None, ori=None):
    """Constructor arguments of a random camera."""
    w, h = rng.choice([(64, 48), (80, 60), (50, 70), (96, 40)])
    pk = proj or rng.choice(PROJ)
    ok = ori or rng.choice(ORI)
    lk = lens or rng.choice(LENS)
    f = round(rng.uniform(0.4, 3.0) * w, 3)
    pv = dict(image_width_px=w, image_height_px=h, focallength_x_px=f,
              focallength_y_px=f if rng.random() < 0.5 else round(f * rng.uniform(0.7, 1.4), 3))
    if rng.random() < 0.5:
        pv["center_x_px"] = round(w * rng.uniform(0.3, 0.7), 2)
        pv["center_y_px"] = round(h * rng.uniform(0.3, 0.7), 2)
    if rng.random() < 0.4:
        pv["sensor_width_mm"] = round(rng.uniform(5, 36), 2)
        pv["sensor_height_mm"] = round(rng.uniform(4, 24), 2)
    ov = {}
    for n in ORI_PARAMS[ok]:
        if rng.random() < 0.75:
            ov[n] = gen_value(rng, n)
    lv = {n: gen_value(rng, n) for n in LENS_PARAMS[lk] if rng.random() < 0.8}
    return dict(proj=[pk, pv], ori=[ok, ov], lens=[lk, lv])


def gen_value(rng, name, w=64, h=48):
    v = gen_round_value(rng, name, w, h)
    if isinstance(v, float) and rng.random() < 0.4:
        v *= 1 + 1e-4 * rng.random()          # all digits
    return v


def gen_round_value(rng, name, w=64, h=48):
    if name in ("focallength_x_px", "focallength_y_px", "focallength_px"):
        return round(rng.uniform(0.4, 3.0) * w, 3)
    if name == "center_x_px":
        return round(w * rng.uniform(0.2, 0.8), 2)
    if name == "center_y_px":
        return round(h * rng.uniform(0.2, 0.8), 2)
    if name == "image_width_px":
        return rng.choice([40, 50, 64, 80, 90])
    if name == "image_height_px":
        return rng.choice([40, 48, 60, 72])
    if name in ("sensor_width_mm", "sensor_height_mm"):
        return round(rng.uniform(4, 36), 2)
    if name == "elevation_m":
        return round(rng.choice([rng.uniform(1, 60), rng.uniform(1, 60), rng.uniform(100, 500)]), 2)
    if name in ("tilt_deg",):
        return round(rng.choice([rng.uniform(20, 89), rng.uniform(20, 89), rng.uniform(-30, 120)]), 2)
    if name == "roll_deg":
        return round(rng.choice([0.0, rng.uniform(-20, 20), rng.uniform(-180, 180)]), 2)
    if name == "heading_deg":
        return round(rng.choice([rng.uniform(-180, 180), rng.uniform(-360, 360)]), 2)
    if name == "pitch_deg":
        return round(rng.choice([rng.uniform(-70, 0), rng.uniform(-60, -5), rng.uniform(-360, 360)]), 2)
    if name == "yaw_deg":
        return round(rng.uniform(-180, 180), 2)
    if name in ("pos_x_m", "pos_y_m"):
        return round(rng.uniform(-50, 50), 2)
    if name in ("k1", "k2", "k3"):
        return round(rng.choice([rng.uniform(0, 0.3), rng.uniform(-0.1, 0.1), 0.0]), 4)
    if name in ("a", "b", "c"):
        return round(rng.choice([rng.uniform(-0.1, 0.1), rng.uniform(0, 0.3), 0.0]), 4)
    if name == "gps_lat":
        return round(rng.uniform(-70, 70), 5)
    if name == "gps_lon":
        return round(rng.uniform(-180, 180), 5)
    raise KeyError(name)


WRAPPING = ("heading_deg", "pitch_deg")


def build_part(what, kind, values):
    if what == "proj":
        return proj_class(kind)(**values)
    if what == "ori":
        return ori_class(kind)(**values)
    return lens_class(kind)(**values)


def build_live(spec):
    cam = ct.Camera(build_part("proj", *spec["proj"]), build_part("ori", *spec["ori"]), build_part("lens", *spec["lens"]))
    return cam


def build_model(spec):
    return CamModel(PartModel("proj", *spec["proj"]), PartModel("ori", *spec["ori"]), PartModel("lens", *spec["lens"]))


def typed(value, t):
    """Give a number the type with which the user passes it."""
    if value is None or isinstance(value, tuple):
        return value
    if t == "f64":
        return np.float64(value)
    if t == "int":
        return int(value)
    if t == "i64":
        return np.int64(int(value))
    if t == "f32":
        return np.float32(value)
    return value


def model_value(value):
    """the same number as a python number"""
    if isinstance(value, np.generic):
        return value.item()
    return value


# ------------------------------------------------------------------------------------------------ observation
SPACE = np.array([[0.3, 40.0, 0.0], [-12.0, 75.0, 1.5], [25.0, 33.0, -2.0], [5.0, -30.0, 3.0], [-60.0, 8.0, 0.7], [2.0, 6.0, 0.0]])
IMG = np.array([[10.0, 40.0], [31.5, 22.25], [55.0, 45.0], [3.0, 4.0], [47.0, 30.0]])
MESH = np.array([[[-500.0, -500.0, 0.5], [500.0, -500.0, 0.2], [0.0, 700.0, 1.0]], [[-90.0, 20.0, -1.0], [90.0, 20.0, -1.0], [0.0, 30.0, 60.0]]])
CAMPTS = np.array([[0.1, -0.2, -1.0], [-2.0, 1.0, -3.0], [0.5, 0.5, 2.0]])


def observe(cam, level=1):
    """Everything a user can compute from the camera, for fixed points.  Returns name -> array (or the error raised)."""
    out = {}

    def rec(name, f):
        try:
            v = f()
            if isinstance(v, tuple):
                for i, x in enumerate(v):
                    out["%s.%d" % (name, i)] = np.array(x, dtype=float)
            else:
                out[name] = np.array(v, dtype=float)
        except Exception as e:
            out[name] = "raises " + type(e).__name__

    rec("imageFromSpace", lambda: cam.imageFromSpace(SPACE.copy()))
    rec("imageFromSpace.back", lambda: cam.imageFromSpace(SPACE.copy(), hide_backpoints=False))
    rec("spaceFromImage.Z", lambda: cam.spaceFromImage(IMG.copy(), Z=0))
    rec("getRay", lambda: cam.getRay(IMG.copy(), normed=True))
    rec("getPos", lambda: cam.getPos())
    rec("gpsFromSpace", lambda: cam.gpsFromSpace(SPACE.copy()))
    if level >= 1:
        rec("spaceFromImage.X", lambda: cam.spaceFromImage(IMG.copy(), X=3.0))
        rec("spaceFromImage.Y", lambda: cam.spaceFromImage(IMG.copy(), Y=25.0))
        rec("spaceFromImage.D", lambda: cam.spaceFromImage(IMG.copy(), D=20.0))
        rec("imageFromSpace.1", lambda: cam.imageFromSpace(SPACE[0].copy()))
        rec("spaceFromImage.1", lambda: cam.spaceFromImage(IMG[2].copy()))
        rec("spaceFromGPS", lambda: cam.spaceFromGPS(np.array([[0.01, 0.02, 3.0], [0.5, -0.3, 1.0], [10.0, 10.0, 5.0]])))
        rec("imageFromGPS", lambda: cam.imageFromGPS(np.array([[0.0003, 0.0001, 0.0], [0.0005, -0.0002, 1.0], [0.001, 0.001, 0.0]])))
        rec("getObjectHeight", lambda: cam.getObjectHeight(IMG.copy(), IMG - np.array([0.5, 6.0])))
        rec("getObjectLength", lambda: cam.getObjectLength(IMG.copy(), IMG + np.array([3.0, 1.0])))
        rec("fov", lambda: cam.projection.getFieldOfView())
        rec("imageFromCamera", lambda: cam.projection.imageFromCamera(CAMPTS.copy()))
        rec("cameraFromSpace", lambda: cam.orientation.cameraFromSpace(SPACE.copy()))
        rec("spaceFromCamera", lambda: cam.orientation.spaceFromCamera(CAMPTS.copy()))
        rec("lens.distorted", lambda: cam.lens.distortedFromImage(IMG.copy()))
        rec("lens.undistorted", lambda: cam.lens.imageFromDistorted(IMG.copy()))
        rec("distanceToHorizon", lambda: cam.distanceToHorizon())
    if level >= 2:
        rec("horizon", lambda: cam.getImageHorizon([1, 20]))
        rec("border", lambda: cam.getImageBorder(10))
        rec("cone", lambda: cam.getCameraCone(D=7))
        rec("mesh", lambda: cam.spaceFromImage(IMG.copy(), mesh=MESH.copy()))
        rec("gpsFromImage", lambda: cam.gpsFromImage(IMG.copy()))
        rec("horizon.default", lambda: cam.getImageHorizon())
        rec("lut", lambda: cam.generateLUT())
    return out


def observe_group(g):
    """what the first two cameras of a group measure together"""
    out = {}

    def rec(name, f):
        try:
            out[name] = np.array(f(), dtype=float)
        except Exception as e:
            out[name] = "raises " + type(e).__name__
    other = IMG[::-1] + np.array([1.5, -2.0])
    rec("group.getBaseline", lambda: g.getBaseline())
    rec("group.spaceFromImages", lambda: g.spaceFromImages(IMG.copy(), other.copy()))
    rec("group.discanteBetweenRays", lambda: g.discanteBetweenRays(IMG.copy(), other.copy()))
    rec("group.imagesFromSpace", lambda: g.imagesFromSpace(SPACE.copy()))
    rec("group.pointCorrespondenceError", lambda: g.pointCorrespondenceError(IMG.copy(), other.copy()))
    return out


def same(a, b, rtol=1e-6, atol=1e-6):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a.shape != b.shape:
        return False
    return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def first_difference(got, want, rtol=1e-6, atol=1e-6):
    """None, or a text describing the first observation in which the two differ."""
    for k in want:
        if k not in got:
            return "%s missing" % k
        if not same(got[k], want[k], rtol, atol):
            return "%s gives %s, a fresh camera gives %s" % (k, short(got[k]), short(want[k]))
    return None


def short(a):
    if isinstance(a, str):
        return a
    return np.array2string(np.asarray(a), precision=6, threshold=12, max_line_width=200).replace("\n", "")[:240]


def num_eq(a, b, tol=0.0):
    if a is None or b is None:
        return a is None and b is None
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def fresh_observations(arg):
    """Runs in a pristine process: build the camera from the table and observe it."""
    spec, level = arg
    return observe(CamModel.from_spec(spec).build(), level)


def part_kinds(cam):
    """classes of the parts, as short names"""
    return [type(cam.projection).__name__, type(cam.orientation).__name__, type(cam.lens).__name__]


def model_kinds(m):
    return [proj_class(m.proj.kind).__name__, ori_class(m.ori.kind).__name__, lens_class(m.lens.kind).__name__]


def check_params(cam, model, where, ctx, tol=1e-12, skip=()):
    """Every parameter reads back the modelled value on the camera, its parameter set and the part that owns it."""
    ctx.check()
    for part, obj in zip(model.parts(), (cam.projection, cam.orientation, cam.lens, cam)):
        for n in part.p:
            if n in skip:
                continue
            want = part.eff(n)
            for route, o in (("camera", cam), ("camera.parameters", cam.parameters), ("part", obj)):
                got = getattr(o, n)
                if not num_eq(got, want, tol):
                    raise Violation("parameter-value", "%s: %s.%s reads %r, should be %r" % (where, route, n, got, want))


def check_twin(cam, model, where, ctx, level=1, rtol=1e-6, route="ctor"):
    """The live camera observes like a newly built one."""
    ctx.check()
    d = first_difference(observe(cam, level), observe(model.build(route), level), rtol, rtol)
    if d:
        raise Violation("stale-transform", "%s: %s; parameters %r" % (where, d, {k: v for k, v in model.effective().items()}))
