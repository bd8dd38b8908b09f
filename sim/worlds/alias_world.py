"""C15: calls never alter the caller's data, nor share their own."""
import copy

import numpy as np

from .. import camlib, history, threads
from ..kernel import Violation
from .history_worlds import make_image, view
from .thread_world import SimThreads, gen_sched

LAYOUTS = ["C", "C", "F", "strided", "reversed", "list", "int", "f32", "readonly", "column"]


def lay_out(values, layout):
    """-> (object given to the calls, object whose bytes are watched)"""
    a = np.array(values, dtype=float)
    if layout == "list":
        x = a.tolist()
        return x, x
    if layout == "int":
        with np.errstate(all="ignore"):
            x = np.where(np.isfinite(a), a, 7).astype(int)
        return x, x
    if layout == "f32":
        x = a.astype("float32")
        return x, x
    if layout == "F":
        x = np.asfortranarray(a)
        return x, x
    if layout == "strided":
        base = np.full((a.shape[0] * 2,) + a.shape[1:], 1234.5) if a.ndim else a
        base[::2] = a
        return base[::2], base
    if layout == "reversed":
        base = a[::-1].copy()
        return base[::-1], base
    if layout == "column":
        base = np.full(a.shape[:-1] + (a.shape[-1] + 2,), -777.25)
        base[..., 1:-1] = a
        return base[..., 1:-1], base
    if layout == "readonly":
        a.setflags(write=False)
    return a, a


def image_bytes(x):
    if isinstance(x, np.ndarray):
        return x.tobytes(order="A"), x.shape, x.strides, str(x.dtype)
    return repr(x)


class Pool:
    """the caller's data"""

    def __init__(self, program, cam):
        rs = np.random.RandomState(program["data"])
        w, h = int(cam.image_width_px), int(cam.image_height_px)
        pos = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m], dtype=float)
        self.raw = raw = {}
        raw["space"] = rs.uniform([-30, 5, -2], [30, 60, 5], (5, 3))
        raw["space"][3] = pos                         # the camera itself: in the camera plane
        raw["space"][4, 0] = np.nan
        raw["space1"] = rs.uniform([-30, 5, -2], [30, 60, 5], 3)
        raw["space3"] = rs.uniform([-30, 5, -2], [30, 60, 5], (2, 3, 3))
        raw["cam"] = rs.uniform([-2, -2, -4], [2, 2, 1], (5, 3))
        raw["cam"][2, 2] = 0.0
        raw["cam"][4] = 0.0
        raw["image"] = rs.uniform([0, 0], [w, h], (5, 2))
        raw["image"][0] = [float(cam.center_x_px), float(cam.center_y_px)]
        raw["image_b"] = rs.uniform([0, 0], [w, h], (5, 2))
        raw["image1"] = rs.uniform([0, 0], [w, h], 2)
        raw["image3"] = rs.uniform([0, 0], [w, h], (2, 3, 2))
        raw["plane"] = rs.uniform(-5, 5, 5)
        raw["plane"][1] = np.nan
        raw["gps"] = rs.uniform([-0.001, -0.001, 0], [0.001, 0.001, 5], (5, 3))
        raw["gps2"] = rs.uniform([-60, -170], [60, 170], (5, 2))
        raw["gps1"] = rs.uniform([-60, -170, 0], [60, 170, 50], 3)
        raw["gps3"] = rs.uniform([-60, -170, 0], [60, 170, 50], (2, 3, 3))
        raw["gps3b"] = rs.uniform([-60, -170, 0], [60, 170, 50], (2, 3, 3))
        raw["near3"] = rs.uniform([-0.001, -0.001, 0], [0.001, 0.001, 5], (2, 3, 3))
        raw["dist3"] = rs.uniform(10, 5000, (2, 3))
        raw["bearing3"] = rs.uniform(-180, 180, (2, 3))
        raw["dist"] = rs.uniform(10, 5000, 5)
        raw["bearing"] = rs.uniform(-180, 180, 5)
        raw["mesh"] = rs.uniform([-80, -80, -3], [80, 80, 3], (6, 3, 3))
        raw["rays"] = rs.uniform(-1, 1, (5, 3))
        raw["rays_b"] = rs.uniform(-1, 1, (5, 3))
        raw["xs"] = np.array([1.0, 20.0, 33.0])
        raw["extent"] = np.array(program["extent"], dtype=float)
        raw["unc"] = np.array([3.0, 2.0, 5.0])
        raw["heights"] = rs.uniform(0.5, 3, 5)
        raw["triangle"] = rs.uniform(0, 9, (3, 2))
        raw["rect"] = rs.uniform(0, 9, (4, 2))
        self.given, self.watched = {}, {}
        for n, v in raw.items():
            lay = program["layouts"].get(n, "C")
            self.given[n], self.watched[n] = lay_out(v, lay)
        self.pics = [make_image(program["data"] + i, w, h, (1, 3)[i]) for i in range(2)]
        self.watched["pic0"], self.watched["pic1"] = self.pics
        if program["layouts"].get("extent") in ("list", "C", "F"):
            self.given["extent"] = self.watched["extent"] = [int(x) for x in program["extent"]]
        else:
            self.given["extent"] = self.watched["extent"] = np.array(program["extent"])
        # a trace and some values of fit parameters
        import pandas as pd
        self.trace = pd.DataFrame(rs.uniform(5, 30, (6, 2)), columns=["elevation_m", "pos_x_m"])
        self.trace["probability"] = rs.uniform(-10, 0, 6)
        self.fit = [camlib.ct.FitParameter("elevation_m", lower=2, upper=50, value=12.0, step=3), camlib.ct.FitParameter("pos_x_m", lower=-20, upper=20, value=1.0, step=2)]
        self.extra = [camlib.ct.FitParameter("extra", lower=0, upper=1, value=0.5, step=0.1)]
        self.values = dict(elevation_m=14.5, pos_y_m=-3.25)
        self.names = ["elevation_m", "roll_deg"]
        self.list_values = [17.25, 3.5]
        self.texts = ["%.4f° %s, %.4f° %s" % (abs(a), "S" if a < 0 else "N", abs(b), "W" if b < 0 else "E") for a, b in raw["gps2"]]
        self.pairs = [[t, round(float(h), 2)] for t, h in zip(self.texts, raw["heights"])]

    def snapshot(self):
        s = {n: image_bytes(v) for n, v in self.watched.items()}
        s["trace"] = (self.trace.to_numpy().tobytes(), list(self.trace.columns), list(self.trace.index))
        s["fit parameters"] = [(id(p), p.__name__, repr(p.value), sorted(p.parents.items()), p.step) for p in self.fit]
        s["additional parameters"] = [(id(p), p.__name__) for p in self.extra]
        s["values"], s["names"], s["list"] = dict(self.values), list(self.names), list(self.list_values)
        s["texts"], s["texts with heights"] = list(self.texts), [list(x) for x in self.pairs]
        return s


def own(program):
    return camlib.build_live(program["spec"])


def landmark_camera(program, g, gps):
    c = own(program)
    if gps:
        c.addLandmarkInformationGPS(arr(g["image"]), arr(g["gps"]), g["unc"])
    else:
        c.addLandmarkInformation(arr(g["image"]), arr(g["space"]), g["unc"])
    return c


def arr(x):
    """calls that take arrays only get lists as arrays"""
    return np.array(x) if isinstance(x, list) else x


def info(kind):
    def f(cam, p, program, op):
        g = p.given
        c = own(program)
        if kind == "height":
            c.addObjectHeightInformation(arr(g["image"]), arr(g["image_b"]), g["heights"], 0.5)
        elif kind == "heights":
            c.addObjectHeightInformation(arr(g["image"]), arr(g["image_b"]), 1.5, arr(g["heights"]))
        elif kind == "length":
            c.addObjectLengthInformation(arr(g["image"]), arr(g["image_b"]), arr(g["heights"]), 0.5, Z=1)
        elif kind == "landmark":
            c.addLandmarkInformation(arr(g["image"]), arr(g["space"]), g["unc"])
        elif kind == "landmark1":
            c.addLandmarkInformation(arr(g["image1"]), arr(g["space1"]), g["unc"])
        elif kind == "landmarkgps":
            c.addLandmarkInformationGPS(arr(g["image"]), arr(g["gps"]), g["unc"])
        elif kind == "horizon":
            c.addHorizonInformation(g["image"], 3)
        a = c.getLogProbability()
        if op.get("plot"):
            import matplotlib.pyplot as plt
            c.plotFitInformation()
            plt.close("all")
        return np.array([a, c.getLogProbability()])
    return f


def group(program):
    q = copy.deepcopy(program["spec"])
    a, b = camlib.build_live(q), camlib.build_live(q)
    b.pos_x_m = float(b.pos_x_m) + 10
    return camlib.ct.CameraGroup([a.projection, b.projection], [a.orientation, b.orientation], [a.lens, b.lens])


def search(kind):
    def f(cam, p, program, op):
        c = own(program)
        p.extra[0].set_value(0.5)           # additional parameters are moved by a sampling, that is their purpose
        c.addCustomoLogProbability(lambda: -float(c.elevation_m - 20) ** 2 - float(c.pos_x_m - 3) ** 2, p.extra if op.get("v", 0) > 0 and kind != "fit" else None)
        np.random.seed(5)
        if kind == "fit":
            return c.fit(p.fit, options=dict(maxiter=3))["x"]
        x = c.metropolis(p.fit, iterations=8, disable_bar=True, print_trace=False).to_numpy()
        c.sample()
        return x
    return f


def traced(cam, p, program, op):
    c = own(program)
    c.set_trace(p.trace)
    np.random.seed(3)
    a = [c.sample(), float(c.elevation_m), float(c.pos_x_m)]
    c.set_to_mean()
    return np.array(a + [float(c.elevation_m), float(c.pos_x_m)])


def assigned(cam, p, program, op):
    c = own(program)
    c.parameters.set_fit_parameters(p.values)
    a = c.imageFromSpace(p.raw["space"].copy())
    c.parameters.set_fit_parameters(p.names, p.list_values)
    return np.array([a, c.imageFromSpace(p.raw["space"].copy())])


def views(kind):
    def f(cam, p, program, op):
        r = view(cam, dict(view=kind, scaling=op["scaling"], Z=op["Z"]), p.pics[op["arg"]], p.given["extent"])
        if r[0] == "raises":
            raise RuntimeError(r[1])
        return r[1]
    return f


def codes(text):
    return np.array([ord(x) for x in str(text)], dtype=float)


CALLS = {
    "imageFromSpace": lambda c, p, g, o: c.imageFromSpace(p.given["space"]),
    "imageFromSpace.back": lambda c, p, g, o: c.imageFromSpace(p.given["space"], hide_backpoints=False),
    "imageFromSpace.1": lambda c, p, g, o: c.imageFromSpace(p.given["space1"]),
    "imageFromSpace.3": lambda c, p, g, o: c.imageFromSpace(p.given["space3"]),
    "spaceFromImage.Z": lambda c, p, g, o: c.spaceFromImage(p.given["image"], Z=o["v"]),
    "spaceFromImage.X": lambda c, p, g, o: c.spaceFromImage(p.given["image"], X=o["v"]),
    "spaceFromImage.Y": lambda c, p, g, o: c.spaceFromImage(p.given["image"], Y=o["v"]),
    "spaceFromImage.D": lambda c, p, g, o: c.spaceFromImage(p.given["image"], D=20),
    "spaceFromImage.Zs": lambda c, p, g, o: c.spaceFromImage(p.given["image"], Z=arr(p.given["plane"])),
    "spaceFromImage.Xs": lambda c, p, g, o: c.spaceFromImage(p.given["image"], X=arr(p.given["plane"])),
    "spaceFromImage.Ys": lambda c, p, g, o: c.spaceFromImage(p.given["image"], Y=arr(p.given["plane"])),
    "spaceFromImage.Ds": lambda c, p, g, o: c.spaceFromImage(p.given["image"], D=arr(p.given["dist"])),
    "spaceFromImage.mesh": lambda c, p, g, o: c.spaceFromImage(p.given["image"], mesh=arr(p.given["mesh"])),
    "spaceFromImage.1": lambda c, p, g, o: c.spaceFromImage(p.given["image1"]),
    "spaceFromImage.3": lambda c, p, g, o: c.spaceFromImage(p.given["image3"]),
    "getRay": lambda c, p, g, o: c.getRay(p.given["image"]),
    "getRay.normed": lambda c, p, g, o: c.getRay(p.given["image"], normed=True),
    "getRay.1": lambda c, p, g, o: c.getRay(p.given["image1"]),
    "getPos": lambda c, p, g, o: c.getPos(),
    "gpsFromSpace": lambda c, p, g, o: c.gpsFromSpace(p.given["space"]),
    "spaceFromGPS": lambda c, p, g, o: c.spaceFromGPS(p.given["gps"]),
    "gpsFromImage": lambda c, p, g, o: c.gpsFromImage(p.given["image"]),
    "imageFromGPS": lambda c, p, g, o: c.imageFromGPS(p.given["gps"]),
    "getObjectHeight": lambda c, p, g, o: c.getObjectHeight(p.given["image"], p.given["image_b"]),
    "getObjectHeight.Z": lambda c, p, g, o: c.getObjectHeight(p.given["image"], p.given["image_b"], Z=o["v"]),
    "getObjectLength": lambda c, p, g, o: c.getObjectLength(p.given["image"], p.given["image_b"]),
    "getImageHorizon": lambda c, p, g, o: c.getImageHorizon(p.given["xs"]),
    "getImageHorizon.0": lambda c, p, g, o: c.getImageHorizon(),
    "getImageBorder": lambda c, p, g, o: c.getImageBorder(10),
    "getCameraCone": lambda c, p, g, o: c.getCameraCone(D=5),
    "generateLUT": lambda c, p, g, o: c.generateLUT(),
    "top": views("top"), "undist": views("undist"),
    "lens.distorted": lambda c, p, g, o: c.lens.distortedFromImage(p.given["image"]),
    "lens.undistorted": lambda c, p, g, o: c.lens.imageFromDistorted(p.given["image"]),
    "projection.image": lambda c, p, g, o: c.projection.imageFromCamera(p.given["cam"]),
    "projection.image.back": lambda c, p, g, o: c.projection.imageFromCamera(p.given["cam"], hide_backpoints=False),
    "projection.ray": lambda c, p, g, o: c.projection.getRay(p.given["image"]),
    "projection.ray.normed": lambda c, p, g, o: c.projection.getRay(p.given["image"], normed=True),
    "orientation.camera": lambda c, p, g, o: c.orientation.cameraFromSpace(p.given["space"]),
    "orientation.space": lambda c, p, g, o: c.orientation.spaceFromCamera(p.given["cam"]),
    "orientation.direction": lambda c, p, g, o: c.orientation.spaceFromCamera(p.given["cam"], direction=True),
    "fov": lambda c, p, g, o: np.array(c.projection.getFieldOfView()),
    "getDistance": lambda c, p, g, o: camlib.ct.getDistance(p.given["gps1"], p.given["gps"]),
    "getDistance.2": lambda c, p, g, o: camlib.ct.getDistance(p.given["gps2"], p.given["gps2"]),
    "getBearing": lambda c, p, g, o: camlib.ct.getBearing(p.given["gps2"], p.given["gps"]),
    "moveDistance": lambda c, p, g, o: camlib.ct.moveDistance(p.given["gps2"], p.given["dist"], p.given["bearing"]),
    "moveDistance.3": lambda c, p, g, o: camlib.ct.moveDistance(p.given["gps"], p.given["dist"], p.given["bearing"]),
    "gpsFromSpace.f": lambda c, p, g, o: camlib.ct.gpsFromSpace(arr(p.given["space"]), arr(p.given["gps1"])),
    "spaceFromGPS.f": lambda c, p, g, o: camlib.ct.spaceFromGPS(arr(p.given["gps"]), arr(p.given["gps1"])),
    "getDistance.3": lambda c, p, g, o: camlib.ct.getDistance(p.given["gps3"], p.given["gps3b"]),
    "getDistance.13": lambda c, p, g, o: camlib.ct.getDistance(p.given["gps1"], p.given["gps3"]),
    "getDistance.1": lambda c, p, g, o: camlib.ct.getDistance(p.given["gps1"], p.given["gps1"]),
    "getBearing.3": lambda c, p, g, o: camlib.ct.getBearing(p.given["gps3"], p.given["gps3b"]),
    "getBearing.1": lambda c, p, g, o: camlib.ct.getBearing(p.given["gps1"], p.given["gps3"]),
    "moveDistance.grid": lambda c, p, g, o: camlib.ct.moveDistance(p.given["gps3"], p.given["dist3"], p.given["bearing3"]),
    "moveDistance.1": lambda c, p, g, o: camlib.ct.moveDistance(p.given["gps1"], o["v"] * 100, 30),
    "gpsFromSpace.3": lambda c, p, g, o: c.gpsFromSpace(p.given["space3"]),
    "spaceFromGPS.3": lambda c, p, g, o: c.spaceFromGPS(p.given["near3"]),
    "spaceFromGPS.1": lambda c, p, g, o: c.spaceFromGPS(p.given["gps1"]),
    "imageFromGPS.3": lambda c, p, g, o: c.imageFromGPS(p.given["near3"]),
    "gpsFromImage.3": lambda c, p, g, o: c.gpsFromImage(p.given["image3"]),
    "gpsFromSpace.f3": lambda c, p, g, o: camlib.ct.gpsFromSpace(arr(p.given["space3"]), arr(p.given["gps1"])),
    "spaceFromGPS.f3": lambda c, p, g, o: camlib.ct.spaceFromGPS(arr(p.given["near3"]), arr(p.given["gps1"])),
    "gpsFromString": lambda c, p, g, o: camlib.ct.gpsFromString(p.texts),
    "gpsFromString.h": lambda c, p, g, o: camlib.ct.gpsFromString(p.pairs),
    "formatGPS": lambda c, p, g, o: codes(camlib.ct.formatGPS(float(arr(p.given["gps1"])[0]), float(arr(p.given["gps1"])[1]))),
    "getRay.3": lambda c, p, g, o: c.getRay(p.given["image3"], normed=o["v"] > 0),
    "getObjectHeight.3": lambda c, p, g, o: c.getObjectHeight(p.given["image3"], p.given["image3"]),
    "lens.3": lambda c, p, g, o: np.array(c.lens.distortedFromImage(arr(p.given["image3"]))),
    "lens.1": lambda c, p, g, o: np.array(c.lens.imageFromDistorted(arr(p.given["image1"]))),
    "triangles": lambda c, p, g, o: camlib.ct.ray.ray_intersect_triangle(p.given["space1"], p.given["rays"], p.given["mesh"]),
    "triangles.planes": lambda c, p, g, o: camlib.ct.ray.ray_intersect_triangle(p.given["space1"], p.given["rays"], p.given["mesh"], use_planes=True),
    "twoLines": lambda c, p, g, o: camlib.ct.ray.intersectionOfTwoLines(arr(p.given["space1"]), arr(p.given["rays"]), arr(p.given["gps1"]), arr(p.given["rays_b"])),
    "distanceOfLines": lambda c, p, g, o: camlib.ct.ray.distanceOfTwoLines(arr(p.given["space1"]), arr(p.given["rays"]), arr(p.given["gps1"]), arr(p.given["rays_b"])),
    "closestPoint": lambda c, p, g, o: camlib.ct.ray.getClosestPointFromLine(arr(p.given["space1"]), arr(p.given["rays"]), arr(p.given["space"])),
    "areaOfTriangle": lambda c, p, g, o: np.array(camlib.ct.ray.areaOfTriangle(arr(p.given["triangle"]))),
    "areaOfQuadrilateral": lambda c, p, g, o: np.array(camlib.ct.ray.areaOfQuadrilateral(arr(p.given["rect"]))),
    "group.space": lambda c, p, g, o: group(g).spaceFromImages(p.given["image"], p.given["image_b"]),
    "group.distance": lambda c, p, g, o: group(g).discanteBetweenRays(p.given["image"], p.given["image_b"]),
    "group.images": lambda c, p, g, o: group(g).imagesFromSpace(p.given["space"]),
    "group.error": lambda c, p, g, o: group(g).pointCorrespondenceError(arr(p.given["image"]), arr(p.given["image_b"])),
    "assign": assigned,
}
for _k in ("height", "heights", "length", "landmark", "landmark1", "landmarkgps", "horizon"):
    CALLS["info." + _k] = info(_k)
SERIAL = {"fit": search("fit"), "metropolis": search("metropolis"), "trace": traced}
SLOW = {"generateLUT"}
IDENTITY = {"lens.distorted", "lens.undistorted"}      # without distortion the points are returned as they are


def arrays_in(r):
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, (tuple, list)):
        return [a for x in r for a in arrays_in(x)]
    return []


def flat(r):
    if isinstance(r, (tuple, list)):
        return [np.array(x, dtype=float) for x in r]
    return [np.array(r, dtype=float)]


def outcome(f):
    """-> (kind, copies, original arrays)"""
    try:
        r = f()
    except threads.Killed:
        raise
    except Exception as e:
        return "raises", "%s: %s" % (type(e).__name__, str(e)[:120]), []
    return "value", flat(r), arrays_in(r)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raises":
        return a[1].split(":")[0] == b[1].split(":")[0]
    return len(a[1]) == len(b[1]) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-12, equal_nan=True) for x, y in zip(a[1], b[1]))


class C15(SimThreads):
    prop = "C15"

    def shrink_lists(self, program):
        if program["threads"]:
            return SimThreads.shrink_lists(self, program)
        return [["ops"]]

    def simplifications(self, program):
        import json
        for n in list(program["layouts"]):
            q = json.loads(json.dumps(program))
            del q["layouts"][n]
            yield q

    def gen(self, rng, tier):
        spec = camlib.gen_spec(rng)
        cam = camlib.build_live(spec)
        look = cam.spaceFromImage([float(cam.center_x_px), float(cam.center_y_px)])
        if not np.all(np.abs(look) < 1e4):
            look = np.array([0, 30, 0])
        x, y = int(look[0]) - 10, int(look[1]) - 10
        layouts = {n: rng.choice(LAYOUTS) for n in ("space", "space1", "space3", "gps3", "gps3b", "near3", "dist3", "bearing3", "cam", "image", "image_b", "image1", "image3", "plane", "gps", "gps2", "gps1", "dist", "bearing", "mesh",
                                                    "rays", "rays_b", "xs", "extent", "unc", "heights", "triangle", "rect")}
        # pairs that are used together keep one shape and kind; one-dimensional data has fewer layouts
        threaded = rng.random() < 0.3

        def op(serial):
            k = rng.choice(sorted(CALLS) + (sorted(SERIAL) * 2 if serial else []))
            if k in SLOW and rng.random() < 0.7:
                k = "getRay"
            o = dict(call=k, v=round(rng.uniform(-5, 5), 2), arg=rng.randrange(2), scaling=rng.choice([1, 2]), Z=rng.choice([0, 2]))
            if serial:
                o["scribble"] = rng.random() < 0.6
                o["plot"] = k.startswith("info") and rng.random() < 0.1
            return o
        p = dict(spec=spec, data=rng.randrange(1 << 30), extent=[x, x + 20, y, y + 20], layouts=layouts, ops=[], threads=[])
        if threaded:
            focus = [op(False) for _ in range(3)]
            if rng.random() < 0.4:          # one kind of call with several arguments
                focus = [dict(op(False), call=focus[0]["call"]) for _ in range(3)]
                mix = 0.95
            else:
                mix = 0.6
            p["threads"] = [[rng.choice(focus) if rng.random() < mix else op(False) for _ in range(rng.randint(1, 4 if tier == "quick" else 8))] for _ in range(rng.choice([2, 2, 3]))]
            p["sched"] = gen_sched(rng, len(p["threads"]))
        else:
            ops = [op(True) for _ in range(rng.randint(4, 14 if tier == "quick" else 40))]
            for i in range(len(ops)):
                if i and rng.random() < 0.35:
                    ops[i] = dict(rng.choice(ops[:i]), scribble=rng.random() < 0.6)
                    if rng.random() < 0.4:
                        ops[i].update(arg=rng.randrange(2), v=round(rng.uniform(-5, 5), 2), Z=rng.choice([0, 2]))
            p["ops"] = ops
        return p

    def alone(self, program, op):
        cam = camlib.build_live(program["spec"])
        pool = Pool(program, cam)
        f = CALLS.get(op["call"]) or SERIAL[op["call"]]
        return outcome(lambda: f(cam, pool, program, op))

    def execute(self, program, ctx):
        if program["threads"]:
            return self.threaded(program, ctx)
        cam = camlib.build_live(program["spec"])
        model = camlib.build_model(program["spec"])
        pool = Pool(program, cam)
        before = pool.snapshot()
        values = 0
        earlier = []
        for k, op in enumerate(program["ops"]):
            f = CALLS.get(op["call"]) or SERIAL[op["call"]]
            got = outcome(lambda: f(cam, pool, program, op))
            self.kept(earlier, "call %d %s" % (k, op["call"]))
            self.unchanged(before, pool, "call %d %s" % (k, op["call"]), program, ctx)
            want = self.alone(program, op)
            ctx.check()
            if not same(got, want):
                raise Violation("depends-on-earlier-calls", "call %d %s gives %s, alone it gives %s (earlier calls: %s)" % (
                    k, op["call"], show(got), show(want), [(o["call"], "result changed" if o.get("scribble") else "") for o in program["ops"][:k]][-6:]))
            if op["call"] not in IDENTITY:
                for a in got[2]:
                    for n, w in pool.watched.items():
                        if isinstance(w, np.ndarray) and np.shares_memory(a, w):
                            raise Violation("shares-input", "call %d %s returns memory of the caller's %s" % (k, op["call"], n))
            if op.get("scribble"):
                for a in got[2]:
                    if a.flags.writeable and not (op["call"] in IDENTITY and any(isinstance(w, np.ndarray) and np.shares_memory(a, w) for w in pool.watched.values())):
                        with np.errstate(all="ignore"):
                            a[...] = 77
                ctx.fault("result overwritten")
            elif op["call"] not in IDENTITY:
                earlier.append((k, op["call"], got[2], [a.tobytes() for a in got[2]]))
            if got[0] == "value":
                values += 1
            else:
                ctx.probe("raises: " + op["call"])
            ctx.state(op["call"], program["ops"][k - 1]["call"] if k else "", bool(op.get("scribble")))
            ctx.ev(k, op["call"], got[0], [repr(x.ravel()[:2].tolist()) for x in got[1][:2]] if got[0] == "value" else got[1])
        camlib.check_params(cam, model, "at the end", ctx)
        camlib.check_twin(cam, model, "at the end", ctx, 1, 1e-9)
        ctx.interesting = values >= 3

    def kept(self, earlier, where):
        """results returned by earlier calls are as they were returned"""
        for k, name, arrays, images in earlier:
            for a, b in zip(arrays, images):
                if a.tobytes() != b:
                    raise Violation("result-changed-later", "%s changed what call %d %s had returned" % (where, k, name))

    def unchanged(self, before, pool, where, program, ctx):
        after = pool.snapshot()
        ctx.check(len(before))
        for n in before:
            if before[n] != after[n]:
                raise Violation("input-changed", "%s changed the caller's %s (layout %s)" % (where, n, program["layouts"].get(n)))

    def threaded(self, program, ctx):
        n = len(program["threads"])
        want = [[self.alone(program, op) for op in t] for t in program["threads"]]
        cam = camlib.build_live(program["spec"])
        pool = Pool(program, cam)
        before = pool.snapshot()
        outs = [[] for _ in range(n)]
        earlier = []

        def body(t):
            def run():
                for op in program["threads"][t]:
                    o = outcome(lambda: CALLS[op["call"]](cam, pool, program, op))
                    outs[t].append(o)
                    if op["call"] not in IDENTITY:
                        earlier.append((t, op["call"], o[2], [a.tobytes() for a in o[2]]))
            return run
        s = threads.Scheduler(program["sched"], n)
        err = s.run([body(t) for t in range(n)])
        ctx.switches = s.switches
        ctx.ev("schedule", s.switches, s.step_no)
        ctx.fault("preemption", max(0, len(s.switches) - n))
        if err:
            raise Violation("no-progress", err)
        for t in range(n):
            for k, (g, w) in enumerate(zip(outs[t], want[t])):
                ctx.check()
                ctx.state("thread", program["threads"][t][k]["call"])
                if not same(g, w):
                    raise Violation("depends-on-other-threads", "thread %d, call %d %s gives %s under this schedule, alone %s" % (t, k, program["threads"][t][k]["call"], show(g), show(w)))
                ctx.ev("result", t, k, g[0])
        self.unchanged(before, pool, "the threads' calls", program, ctx)
        self.kept(earlier, "a call of another thread")
        ctx.interesting = len(s.switches) > n


def show(o):
    return o[1] if o[0] == "raises" else " ".join(camlib.short(x) for x in o[1])[:300]
