"""C04: several threads read one camera while others update their own ones."""
import numpy as np

from .. import camlib, history, threads
from ..kernel import World, Violation
from .history_worlds import make_image, view


class SimThreads(World):
    def setup(self):
        import cv2, scipy.stats, scipy.optimize, scipy.interpolate, pandas, tqdm, matplotlib.pyplot, requests  # noqa
        threads.install_locks()
        camlib.setup()

    def shrink_lists(self, program):
        out = [["threads", i] for i in range(len(program["threads"]))]
        if program["sched"]["kind"] == "list":
            out.append(["sched", "switch"])
        return out


SHARED_CALLS = ["imageFromSpace", "imageFromSpace1", "imageFromSpaceBack", "spaceFromImageZ", "spaceFromImageX", "spaceFromImageY", "spaceFromImageD", "getRay",
                "height", "length", "horizon", "border", "cone", "lut", "gpsFromSpace", "spaceFromGPS", "imageFromGPS", "gpsFromImage", "top", "top", "top", "undist",
                "undist", "fov", "lens", "lensinv", "camFromSpace", "logprob"]
GROUP_CALLS = ["g.space", "g.distance", "g.images", "g.baseline", "g.error", "g.logprob"]


def call(cam, op, data):
    k = op["call"]
    n = op.get("arg", 0)
    if k == "imageFromSpace":
        return cam.imageFromSpace(data["space"][n])
    if k == "imageFromSpace1":
        return cam.imageFromSpace(data["space"][n][0])
    if k == "imageFromSpaceBack":
        return cam.imageFromSpace(data["space"][n], hide_backpoints=False)
    if k == "spaceFromImageZ":
        return cam.spaceFromImage(data["image"][n], Z=op["v"])
    if k == "spaceFromImageX":
        return cam.spaceFromImage(data["image"][n], X=op["v"])
    if k == "spaceFromImageY":
        return cam.spaceFromImage(data["image"][n], Y=op["v"])
    if k == "spaceFromImageD":
        return cam.spaceFromImage(data["image"][n], D=10 + abs(op["v"]))
    if k == "getRay":
        return np.array(cam.getRay(data["image"][n], normed=bool(op["v"] > 0)))
    if k == "height":
        return cam.getObjectHeight(data["image"][n], data["image"][1 - n])
    if k == "length":
        return cam.getObjectLength(data["image"][n], data["image"][1 - n], Z=op["v"])
    if k == "horizon":
        return cam.getImageHorizon([[1, 20, 33], [5], [2, 30, 4, 17], 25][n % 4])
    if k == "border":
        return cam.getImageBorder(10 + n)
    if k == "cone":
        return cam.getCameraCone(D=7 + n)
    if k == "lut":
        return cam.generateLUT()
    if k == "gpsFromSpace":
        return cam.gpsFromSpace(data["space"][n])
    if k == "spaceFromGPS":
        return cam.spaceFromGPS(data["gps"][n])
    if k == "imageFromGPS":
        return cam.imageFromGPS(data["gps"][n])
    if k == "gpsFromImage":
        return cam.gpsFromImage(data["image"][n])
    if k in ("top", "undist"):
        r = view(cam, dict(view=k, scaling=op["scaling"], Z=op["Z"], hide=op["hide"]), data["pic"][n], data["extent"][op["extent"]])
        if r[0] == "raises":
            raise RuntimeError("view raises " + r[1])
        return r[1]
    if k == "fov":
        return np.array(cam.projection.getFieldOfView())
    if k == "lens":
        return cam.lens.distortedFromImage(data["image"][n])
    if k == "lensinv":
        return cam.lens.imageFromDistorted(data["image"][n])
    if k == "camFromSpace":
        return cam.orientation.spaceFromCamera(cam.orientation.cameraFromSpace(data["space"][n]))
    if k == "logprob":
        return np.array(cam.getLogProbability())
    g = data["group"]
    if k == "g.space":
        return g.spaceFromImages(data["image"][n], data["image"][1 - n])
    if k == "g.distance":
        return g.discanteBetweenRays(data["image"][n], data["image"][1 - n])
    if k == "g.images":
        return np.array(g.imagesFromSpace(data["space"][n]))
    if k == "g.baseline":
        return g.getBaseline()
    if k == "g.error":
        return np.array(g.pointCorrespondenceError(data["image"][n], data["image"][1 - n]))
    if k == "g.logprob":
        return np.array(g.getLogProbability())
    raise KeyError(k)


def outcome(f):
    try:
        return "value", np.array(f(), dtype=float)
    except threads.Killed:
        raise
    except Exception as e:
        return "raises", type(e).__name__, str(e)[:200]


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raises":
        return a[1] == b[1]
    return a[1].shape == b[1].shape and np.allclose(a[1], b[1], rtol=1e-9, atol=1e-9, equal_nan=True)


def gen_call(rng, k=None):
    k = k or rng.choice(SHARED_CALLS)
    op = dict(call=k, arg=rng.randrange(4 if k in ("horizon", "top", "undist") else 2), v=round(rng.uniform(-5, 5), 2))
    if k in ("top", "undist"):
        op.update(extent=rng.randrange(3), scaling=rng.choice([1, 2, 4]), Z=rng.choice([0, 3]), hide=rng.choice([True, False]))
    return op


def gen_sched(rng, nthreads):
    kind = rng.choice(["random", "pct", "burst", "stores", "stores"])
    s = dict(kind=kind, seed=rng.randrange(1 << 60), opcodes=rng.random() < 0.3)
    if kind == "random":
        s["p"] = rng.choice([0.5, 0.2, 0.05, 0.01])
    elif kind == "stores":
        s["p"] = rng.choice([0.5, 0.2, 0.05])
    elif kind == "pct":
        s["depth"] = rng.randint(1, 6)
        s["length"] = rng.choice([100, 400, 1500]) * (5 if s["opcodes"] else 1)
    else:
        s["quantum"] = rng.choice([3, 10, 40])
    return s


class C04(SimThreads):
    prop = "C04"

    def gen(self, rng, tier):
        spec = camlib.gen_spec(rng, lens=rng.choice(["none", "brown", "abc", "brown", "abc"]))
        n = rng.choice([2, 2, 3, 3, 4])
        ths = []
        private = {}
        focus = [gen_call(rng) for _ in range(rng.randint(1, 3))]
        mix = 0.5
        if rng.random() < 0.5:              # one or two kinds of calls with several arguments
            kinds = [rng.choice(sorted(set(SHARED_CALLS) - {"lut"})) for _ in range(rng.choice([1, 1, 2]))]
            focus = [gen_call(rng, rng.choice(kinds)) for _ in range(rng.randint(2, 4))]
            mix = 1
        group = camlib.gen_spec(rng) if rng.random() < 0.3 else None
        if group and rng.random() < 0.6:
            focus = [gen_call(rng, rng.choice(GROUP_CALLS)) for _ in range(rng.randint(1, 3))]
            mix = 0.8
        for t in range(n):
            if t > 0 and rng.random() < 0.35:
                pspec = camlib.gen_spec(rng) if rng.random() < 0.7 else spec
                st = history.GenState(pspec)
                private[str(t)] = pspec
                ops = []
                for _ in range(rng.randint(1, 4)):
                    ops.append(dict(private=history.gen_op(rng, st, ["set", "set", "setfit", "default", "gps", "rotate", "mean"])))
                    ops.append(gen_call(rng))
            else:
                ops = [rng.choice(focus) if rng.random() < mix else gen_call(rng) for _ in range(rng.randint(1, 5 if tier == "quick" else 10))]
                for i, op in enumerate(ops):
                    if op["call"] in ("top", "undist") and rng.random() < 0.5:
                        ops[i] = dict(op, arg=rng.randrange(4), extent=rng.randrange(3), scaling=rng.choice([1, 2, 4]), Z=rng.choice([0, 3]))
            ths.append(ops)
        cam = camlib.build_live(spec)
        look = cam.spaceFromImage([float(cam.center_x_px), float(cam.center_y_px)])
        if not np.all(np.abs(look) < 1e4):
            look = np.array([0, 30, 0])
        ext = []
        for _ in range(3):
            w, h = rng.choice([20, 30]), rng.choice([20, 30])
            x, y = int(look[0]) + rng.randint(-w, 0), int(look[1]) + rng.randint(-h, 0)
            ext.append([x, x + w, y, y + h])
        if group:
            for t, ops in enumerate(ths):
                if str(t) not in private:
                    for i in range(len(ops)):
                        if rng.random() < 0.3:
                            ops[i] = gen_call(rng, rng.choice(GROUP_CALLS))
        # what happened to the shared camera before
        updates = []
        if rng.random() < 0.5:
            st = history.GenState(spec)
            updates = [history.gen_op(rng, st, ["set", "set", "setfit", "default", "gps", "rotate", "use", "use"]) for _ in range(rng.randint(1, 4))]
        return dict(spec=spec, threads=ths, private=private, extents=ext, data=rng.randrange(1 << 30), warm=rng.random() < 0.3, group=group, updates=updates,
                    sched=gen_sched(rng, n))

    def make_data(self, program, cam):
        rs = np.random.RandomState(program["data"])
        w, h = int(cam.image_width_px), int(cam.image_height_px)
        return dict(space=[rs.uniform([-30, 5, -2], [30, 60, 5], (4, 3)) for _ in range(2)],
                    image=[rs.uniform([0, 0], [w, h], (4, 2)) for _ in range(2)],
                    gps=[rs.uniform([-0.001, -0.001, 0], [0.001, 0.001, 5], (4, 3)) for _ in range(2)],
                    pic=[make_image(program["data"] + i, w, h, (1, 3, 3, 4)[i]) for i in range(4)],
                    extent=[list(e) for e in program["extents"]])

    def prepare(self, program, ctx, warm=False):
        shared = history.System(program["spec"], ctx)
        cam = shared.cams[0]
        data = self.make_data(program, cam)
        if program.get("group"):
            other = camlib.build_live(program["group"])
            data["group"] = camlib.ct.CameraGroup([cam.projection, other.projection], [cam.orientation, other.orientation], [cam.lens, other.lens])
            data["group"].addPointCorrespondenceInformation(data["image"][0].copy(), data["image"][1].copy())
            data["group"].addBaselineInformation(10)
        if warm:
            for op in program["threads"][0][:2]:
                if "call" in op:
                    outcome(lambda: call(cam, op, data))
        for op in program.get("updates", []):
            if op["op"] != "use" or warm:
                shared.apply(op)
        cam.addLandmarkInformation(data["image"][0].copy(), data["space"][0].copy(), [3, 3, 3])
        priv = {t: history.System(s, ctx) for t, s in program["private"].items()}
        pdata = {t: self.make_data(program, s.cams[0]) for t, s in priv.items()}
        return cam, data, priv, pdata

    def body(self, t, program, cam, data, priv, pdata, out, now=None, pairs=None):
        def run():
            for op in program["threads"][t]:
                if now is not None:
                    now[t] = op.get("call", "private")
                    pairs.update((now[t], now[u]) for u in now if u != t)
                if "private" in op:
                    s = priv[str(t)]
                    out.append(outcome(lambda: s.apply(op["private"]) or 0.0))
                elif str(t) in priv:
                    out.append(outcome(lambda: call(priv[str(t)].cams[0], op, pdata[str(t)])))
                else:
                    out.append(outcome(lambda: call(cam, op, data)))
        return run

    def execute(self, program, ctx):
        n = len(program["threads"])
        # what each thread gets alone: every call on a camera of its own
        want = []
        for t in range(n):
            out = []
            shared = str(t) not in program["private"]
            if shared:
                for op in program["threads"][t]:
                    cam, data, priv, pdata = self.prepare(program, type(ctx)())
                    out.append(outcome(lambda: call(cam, op, data)))
            else:
                cam, data, priv, pdata = self.prepare(program, type(ctx)())
                self.body(t, program, cam, data, priv, pdata, out)()
            want.append(out)
        cam, data, priv, pdata = self.prepare(program, ctx, program["warm"])
        before = {m: float(getattr(cam, m)) for m in cam.parameters.parameters}
        outs = [[] for _ in range(n)]
        quiet = type(ctx)()
        for s in priv.values():
            s.ctx = quiet              # the private histories must not write to the log concurrently
        s = threads.Scheduler(program["sched"], n)
        now, pairs = {}, set()
        err = s.run([self.body(t, program, cam, data, priv, pdata, outs[t], now, pairs) for t in range(n)])
        ctx.switches = s.switches
        ctx.ev("schedule", s.switches, s.step_no)
        ctx.fault("preemption", max(0, len(s.switches) - n))
        ctx.probe("steps", s.step_no)
        for a in sorted(pairs):
            ctx.state("during", *a)
        if err:
            raise Violation("no-progress", err)
        ctx.interesting = len(s.switches) > n
        for t in range(n):
            for k, (g, w) in enumerate(zip(outs[t], want[t])):
                ctx.check()
                op = program["threads"][t][k]
                ctx.state(op.get("call", "private"), g[0])
                if not same(g, w):
                    raise Violation("result-depends-on-threads", "thread %d, call %d %r: %s under this schedule, %s alone" % (
                        t, k, op, g[1:] if g[0] == "raises" else camlib.short(g[1]), w[1:] if w[0] == "raises" else camlib.short(w[1])))
                ctx.ev("result", t, k, g[0])
        after = {m: float(getattr(cam, m)) for m in cam.parameters.parameters}
        if repr(before) != repr(after):
            raise Violation("parameters-changed", "reading threads changed parameters: %r" % {k: (before[k], after[k]) for k in before if repr(before[k]) != repr(after[k])})
