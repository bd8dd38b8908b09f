"""C17: the chessboard processing of a batch of images: simulated disk, worker threads, crashes and restarts, stub detector."""
import json
import os
import runpy
import shutil
import sys

import numpy as np

from .. import camlib, threads
from ..disk import SimDisk, gen_fault
from ..kernel import World, Violation, Pristine, repo_frame
from .history_worlds import scratch_dir
from .thread_world import SimThreads, gen_sched

NAMES = ["a", "b", "img_1", "img_10", "img.1", "img.2", "IMG", "left 01", "x_corners", "x", "a_chess", "ü"]
PATTERNS = [[9, 6], [4, 3], [3, 3], [7, 5]]


class Detector:
    """stands for OpenCV's file and chessboard functions; an image file holds its size, whether there is a board, and an id"""

    def install(self):
        import cv2
        self.cv2 = cv2
        for n in ("imread", "imwrite", "findChessboardCorners", "cornerSubPix", "drawChessboardCorners", "cvtColor", "undistort", "calibrateCamera",
                  "destroyAllWindows"):
            setattr(cv2, n, getattr(self, n))
        self.calibrations = []
        self.detected = 0

    def imread(self, fn, flags=1):
        try:
            with open(fn, "rb") as fp:
                b = fp.read()
            w, h, board, key = (int(x) for x in b.split()[:4])
        except (OSError, ValueError):
            return None
        img = np.zeros((h, w), np.uint8)
        img[0, :8] = [key % 251, key // 251, board, 7, 0, 0, 0, 0]
        img[0:8, 0] = img[0, :8]
        return img if flags == 0 else np.dstack([img] * 3)

    def imwrite(self, fn, img, params=None):
        try:
            with open(fn, "wb") as fp:
                fp.write(b"picture %d" % int(img.sum()) + b"." * 300)
            return True
        except OSError:
            return False

    @staticmethod
    def corners(key, portrait, pattern):
        n = pattern[0] * pattern[1]
        rs = np.random.RandomState(key * 2 + portrait)
        return (rs.uniform(0, 400, (n, 1, 2))).astype(np.float32)

    def findChessboardCorners(self, img, pattern, corners=None, flags=0):
        img = np.asarray(img)
        key = int(img[0, 0]) + 251 * int(img[0, 1]) if img[0, 3] == 7 else int(img[0, 0]) + 251 * int(img[1, 0])
        board = int(img[0, 2])
        self.detected += 1
        if board == 2:
            raise self.cv2.error("detector failed")
        if not board:
            return False, None
        return True, self.corners(key, 0, pattern)

    def cornerSubPix(self, img, corners, *a):
        corners += np.float32(0.25)
        return corners

    def cvtColor(self, img, code, *a):
        return np.dstack([img] * 3)

    def drawChessboardCorners(self, *a):
        return a[0]

    def undistort(self, img, *a):
        return img

    def calibrateCamera(self, obj, img, size, *a, **k):
        self.calibrations.append(([np.array(o) for o in obj], [np.array(i) for i in img], size))
        return 0.1, np.eye(3), np.array([[0.1, 0.2, 0.0, 0.0, 0.3]]), [], []

    def destroyAllWindows(self):
        pass


DET = Detector()


def pattern_points(pattern):
    p = np.zeros((pattern[0] * pattern[1], 3), np.float32)
    p[:, :2] = np.indices(pattern).T.reshape(-1, 2)
    return p


def expected(im, program, pattern=None):
    """the corners the detector finds in the image, or None"""
    w, h = program["size"]
    if im["board"] != 1 or sorted(im["size"]) != sorted([w, h]):
        return None
    return (Detector.corners(im["key"], 0, pattern or program["pattern"]) + np.float32(0.25)).reshape(-1, 2)


class Pool:
    """stands for multiprocessing.dummy.Pool: the calls of map run as simulated threads"""
    world = None

    def __init__(self, n=None, *a):
        self.n = int(n or 1)

    def map(self, f, items, chunksize=None):
        items = list(items)
        out = [None] * len(items)
        errors = []
        nxt = [0]

        def body():
            while True:
                if nxt[0] >= len(items):
                    return
                i = nxt[0]
                nxt[0] += 1
                try:
                    out[i] = f(items[i])
                except Exception as e:
                    errors.append((i, e))

        n = max(1, min(self.n, len(items)))
        Pool.world.run_threads([body] * n)
        if errors:
            raise sorted(errors, key=lambda e: e[0])[0][1]
        return out

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class C17(SimThreads):
    prop = "C17"

    def setup(self):
        SimThreads.setup(self)
        DET.install()
        import multiprocessing.dummy
        multiprocessing.dummy.Pool = Pool
        import cameratransform.gui_tools.calibrate.calibrate as cal
        self.cal = cal

    def gen(self, rng, tier):
        pattern = rng.choice(PATTERNS)
        w, h = rng.choice([[40, 30], [64, 48], [30, 40]])
        names = rng.sample(NAMES, rng.randint(1, 5))
        images = []
        for i, n in enumerate(names):
            r = rng.random()
            size = [w, h] if r < 0.7 else [h, w] if r < 0.85 else [w + 2, h]
            images.append(dict(name=n + rng.choice([".png", ".jpg", ".JPG"]), key=rng.randrange(60000), size=size if i else [w, h],
                               board=1 if rng.random() < 0.8 else rng.choice([0, 0, 2])))
        if rng.random() < 0.5:
            # a second folder (with an output directory of its own, where no faults happen) with images of the same names
            for im in rng.sample(images, rng.randint(1, len(images))):
                images.append(dict(im, key=rng.randrange(60000), board=1 if rng.random() < 0.8 else 0, size=im["size"] if rng.random() < 0.8 else [w, h], folder=1))
        ops = []
        for k in range(rng.randint(1, 4 if tier == "quick" else 9)):
            how = rng.choice(["serial", "serial", "threads", "threads", "script", "pool"])
            todo = [rng.randrange(len(images)) for _ in range(rng.randint(1, len(images) + 1))]
            op = dict(op="batch", how=how, todo=todo, fresh=rng.random() < 0.3)
            if how in ("serial", "threads") and rng.random() < 0.15:
                op["nodir"] = True
            if how in ("serial", "threads") and rng.random() < 0.2:
                # the user switches to a board with another number of corners, or back
                op["other"] = True
            if rng.random() < 0.75:
                op["fault"] = gen_fault(rng, most=12 * (1 if how == "serial" else 3))
                op["hit"] = rng.randrange(len(todo)) if how == "serial" else 0
            if how in ("threads", "pool"):
                op["sched"] = gen_sched(rng, 4)
            ops.append(op)
        if any(o["how"] in ("script", "pool") for o in ops):
            pattern = [9, 6]
        other = rng.choice([p for p in PATTERNS + [[10, 7], [12, 9]] if p != pattern])
        return dict(pattern=pattern, other=other, size=[w, h], images=images, ops=ops)

    def shrink_lists(self, program):
        return [["ops"]] + [["ops", i, "todo"] for i in range(len(program["ops"]))]

    def simplifications(self, program):
        for i, op in enumerate(program["ops"]):
            for k in ("fault", "fresh", "other"):
                if op.get(k):
                    q = json.loads(json.dumps(program))
                    q["ops"][i].pop(k)
                    yield q
            if op["how"] != "serial":
                q = json.loads(json.dumps(program))
                q["ops"][i]["how"] = "serial"
                q["ops"][i].pop("sched", None)
                yield q

    def explicit(self, program, result):
        if not result.get("switches"):
            return program
        q = json.loads(json.dumps(program))
        for i, sw in result["switches"]:
            if i < len(q["ops"]) and "sched" in q["ops"][i]:
                q["ops"][i]["sched"] = dict(kind="list", switch=sw, opcodes=q["ops"][i]["sched"].get("opcodes"))
        return q

    def run_threads(self, bodies):
        s = threads.Scheduler(dict(self.sched), len(bodies))
        self.disk.yield_to = lambda: s.step(s.me()) if s.me() is not None and not s.killed else None
        try:
            err = s.run(bodies)
        finally:
            self.disk.yield_to = None
        self.switches.append([self.opno, s.switches])
        self.ctx.ev("schedule", s.switches, s.step_no)
        self.ctx.fault("preemption", max(0, len(s.switches) - len(bodies)))
        if err:
            raise Violation("no-progress", err)

    def execute(self, program, ctx):
        d = scratch_dir()
        pristine = Pristine(self.elsewhere)
        try:
            out, pics = os.path.join(d, "output"), os.path.join(d, "pics")
            for x in (out, pics, out + "2", pics + "2"):
                os.makedirs(x)
            for im in program["images"]:
                with open(os.path.join(pics + "2" * im.get("folder", 0), im["name"]), "wb") as fp:
                    fp.write(b"%d %d %d %d " % (im["size"][0], im["size"][1], im["board"], im["key"]) + b"." * 200)
            os.chdir(d)
            self.disk = disk = SimDisk(out, ctx)
            disk.known = tuple(os.path.splitext(i["name"])[0] + e for i in program["images"] for e in ("_corners.txt", "_chess.png", "_undistorted.png")) + (".",)
            self.switches, self.ctx = [], ctx
            Pool.world = self
            try:
                self.run(program, ctx, disk, out, pics, pristine)
                disk.check_internal()
            finally:
                disk.stop()
                ctx.switches = self.switches
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def process(self, program, i, out, pics, other=False):
        w, h = program["size"]
        pattern = program["other" if other else "pattern"]
        pts = pattern_points(pattern)
        second = "2" * program["images"][i].get("folder", 0)
        r = self.cal.processImage(os.path.join(pics + second, program["images"][i]["name"]), tuple(pattern), w, h, pts, out and out + second)
        return None if r is None else (np.array(r[0]), np.array(r[1]))

    def outcome(self, f):
        try:
            return ("value", f())
        except Exception as e:
            return ("raises", type(e).__name__)

    def elsewhere(self, arg):
        """one image in a new process, without faults"""
        program, i, out, pics, other = arg
        return self.outcome(lambda: self.process(program, i, out, pics, other))

    def judge(self, program, i, got, faulty, what, other=False, stored=True):
        im = program["images"][i]
        pattern = program["other" if other else "pattern"]
        want = expected(im, program, pattern)
        what = "%s of %s" % (what, im["name"])
        # corners of the one board are no answer for the other, the image is then left out
        left_out = stored and self.boards[i] != {other}
        self.ctx.check()
        if got[0] == "raises":
            if not faulty and im["board"] != 2:
                raise Violation("processing-fails", "%s raises %s although nothing is wrong any more" % (what, got[1]))
            return
        if got[1] is None:
            if want is not None and not faulty and not left_out:
                raise Violation("image-skipped", "%s returns nothing although the image shows a chessboard" % what)
            return
        if want is None:
            raise Violation("wrong-corners", "%s returns %d corners, the detector finds none" % (what, len(got[1][0])))
        c = np.asarray(got[1][0])
        if c.shape != want.shape or not np.array_equal(c, want):
            raise Violation("wrong-corners", "%s returns corners of shape %r, first %r; the detector finds shape %r, first %r" % (what, c.shape, c[:1].tolist(), want.shape, want[:1].tolist()))
        if not np.array_equal(got[1][1], pattern_points(pattern)):
            raise Violation("wrong-corners", "%s returns other pattern points" % what)

    def run(self, program, ctx, disk, out, pics, pristine):
        fired_total = 0
        self.boards = [set() for _ in program["images"]]      # the patterns an image was searched for with this output folder
        for k, op in enumerate(program["ops"]):
            self.opno = k
            f = op.get("fault")
            if not op["todo"]:
                continue
            target = None if op.get("nodir") else out
            other = bool(op.get("other"))
            if target:
                for i in op["todo"] if op["how"] in ("serial", "threads") else [i for i, im in enumerate(program["images"]) if not im.get("folder")]:
                    self.boards[i].add(other)
            what = "batch %d (%s%s)" % (k, op["how"], ", %s at disk call %d" % (f["kind"], f["at"]) if f else "")
            if op["how"] == "serial":
                for n, i in enumerate(op["todo"]):
                    if op.get("fresh") and not (f and n == op["hit"]):
                        disk.busy = True
                        kind, got = pristine.call((program, i, target, pics, other))
                        disk.busy = False
                        if kind != "ok":
                            raise RuntimeError(got)
                        self.judge(program, i, got, False, what + " in a new process, processing", other, target)
                        continue
                    disk.reset(f if f and n == op["hit"] else None)
                    got = self.outcome(lambda: self.process(program, i, target, pics, other))
                    dead, fired = disk.frozen, disk.fired is not None
                    self.after(disk, f if n == op.get("hit") else None, ctx)
                    fired_total += fired
                    ctx.state(op["how"], f and f["kind"], got[0], got[1] is None, program["images"][i]["board"])
                    ctx.ev("processed", k, i, got[0], got[1] is not None)
                    if not dead:
                        self.judge(program, i, got, fired, what + ", processing", other, target)
            elif op["how"] == "threads":
                self.sched = op["sched"]
                results = [None] * len(op["todo"])

                def body(n, i):
                    def run():
                        results[n] = self.outcome(lambda: self.process(program, i, target, pics, other))
                    return run

                disk.reset(f)
                self.run_threads([body(n, i) for n, i in enumerate(op["todo"])])
                dead, fired = disk.frozen, disk.fired is not None
                self.after(disk, f, ctx)
                fired_total += fired
                ctx.state(op["how"], f and f["kind"], tuple(sorted(r[0] for r in results)))
                for n, i in enumerate(op["todo"]):
                    ctx.ev("processed", k, i, results[n][0])
                    if not dead:
                        self.judge(program, i, results[n], fired, what + ", worker %d, processing" % n, other, target)
            else:
                # the whole script, like a user starts it
                self.sched = op.get("sched")
                DET.calibrations = []
                disk.reset(f)
                argv, sys.argv = sys.argv, ["calibrate.py", "--debug=" + out, "--threads=%d" % (1 if op["how"] == "script" else 3), os.path.join(pics, "*")]
                import glob
                real = glob.glob
                first = [im for im in program["images"] if not im.get("folder")]
                order = [os.path.join(pics, im["name"]) for im in first]
                glob.glob = lambda *a, **kw: list(order)
                try:
                    got = self.outcome(lambda: runpy.run_path(self.cal.__file__, run_name="__main__") and None)
                finally:
                    sys.argv = argv
                    glob.glob = real
                dead, fired = disk.frozen, disk.fired is not None
                self.after(disk, f, ctx)
                fired_total += fired
                ctx.state(op["how"], f and f["kind"], got[0], len(DET.calibrations))
                ctx.ev("script", k, got[0], len(DET.calibrations))
                ctx.check()
                mixed = any(self.boards[i] != {False} for i, im in enumerate(program["images"]) if not im.get("folder"))
                if not dead and not fired and not mixed:
                    want = [expected(im, program) for im in first]
                    want = [c for c in want if c is not None]
                    bad = any(im["board"] == 2 for im in first)
                    if bad:
                        pass
                    elif got[0] == "raises":
                        raise Violation("processing-fails", "%s: the script raises %s although nothing is wrong any more" % (what, got[1]))
                    elif len(DET.calibrations) != 1:
                        raise Violation("processing-fails", "%s: no calibration" % what)
                    else:
                        self.same_points(DET.calibrations[0][1], want, what)
                elif not dead:
                    # each used image contributes its own corners, in order
                    want = [c for c in (expected(im, program) for im in first) if c is not None]
                    for _, img_points, _ in DET.calibrations:
                        it = iter(want)
                        for c in img_points:
                            if not any(np.array_equal(c, x) for x in it):
                                raise Violation("wrong-corners", "%s: the calibration uses corners which no image has (shape %r)" % (what, c.shape))
        # the faults stop: every image is processed in this and in a new process
        disk.reset()
        disk.busy = True
        for b in self.boards:
            b.add(False)
        for i in range(len(program["images"])):
            kind, got = pristine.call((program, i, out, pics, False))
            if kind != "ok":
                raise RuntimeError(got)
            self.judge(program, i, got, False, "at the end, in a new process, processing")
            self.judge(program, i, self.outcome(lambda: self.process(program, i, out, pics)), False, "at the end, processing")
        disk.busy = False
        ctx.interesting = fired_total > 0
        ctx.ev("end", fired_total)

    def same_points(self, got, want, what):
        if len(got) != len(want):
            raise Violation("image-skipped", "%s: the calibration uses %d images, %d show a chessboard" % (what, len(got), len(want)))
        for g, w in zip(got, want):
            if np.asarray(g).shape != w.shape or not np.array_equal(g, w):
                raise Violation("wrong-corners", "%s: the calibration uses corners of shape %r, first %r, which should be %r" % (what, np.asarray(g).shape, np.asarray(g)[:1].tolist(), w[:1].tolist()))

    def after(self, disk, f, ctx):
        if f and f["kind"] == "power":
            disk.power_loss(f["keep_meta"], f["keep_data"])
        disk.check_internal()
        disk.reset()
