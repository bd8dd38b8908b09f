"""C18, C20, C21, C22: the calibration window (real PyQt5, offscreen) with simulated worker threads, seeded delivery of events, stub detector."""
import json
import os
import shutil
import sys

import numpy as np

from .. import camlib, threads
from ..disk import SimDisk, gen_fault
from ..kernel import Violation
from .corner_world import Detector
from .history_worlds import scratch_dir
from .thread_world import SimThreads, gen_sched

PATTERN = (9, 6)


class GuiDetector(Detector):
    images = {}
    next_calibration = None

    def imread(self, fn, flags=1):
        self.poll()
        info = self.images.get(os.path.abspath(fn))
        try:
            with open(fn, "rb") as fp:
                fp.read()
        except OSError:
            return None
        if info is None or info["board"] == 3:
            return None
        img = np.zeros((24, 32), np.uint8)
        img[0, :4] = [info["key"] % 251, info["key"] // 251, info["board"], 7]
        return img if flags == 0 else np.dstack([img] * 3)

    def imwrite(self, fn, img, params=None):
        from PIL import Image
        import io
        b = io.BytesIO()
        Image.fromarray(img).save(b, "png")
        try:
            with open(fn, "wb") as fp:
                fp.write(b.getvalue())
            return True
        except OSError:
            return False

    def findChessboardCorners(self, img, pattern, corners=None, flags=0):
        self.poll()
        board = int(img[0, 2])
        if board == 4:
            raise MemoryError("injected")
        if board == 5:
            raise ValueError("injected")
        return Detector.findChessboardCorners(self, img, pattern, corners, flags)

    def poll(self):
        s = threads.CURRENT[0]
        if s is not None and s.me() is not None and not s.killed:
            s.step(s.me())

    def calibrateCamera(self, obj, img, size, *a, **k):
        c = self.next_calibration
        flags = k.get("flags", a[4] if len(a) > 4 else 0)
        self.calibrations.append(([np.array(o) for o in obj], [np.array(i) for i in img], tuple(size), flags))
        self.poll()
        if c is None or not len(obj):
            raise self.cv2.error("calibration failed")
        m = np.array([[c["focallength_x_px"], 0, c["center_x_px"]], [0, c["focallength_y_px"], c["center_y_px"]], [0, 0, 1]], dtype=float)
        return c["rms"], m, np.array([[c["k1"], c["k2"], 0.0, 0.0, c["k3"]]]), [], []


DET = GuiDetector()


def corners_of(info):
    return (Detector.corners(info["key"], 0, PATTERN) + np.float32(0.25)).reshape(-1, 2)


CAL_FILES = ("a.txt", "b.txt", "broken.txt")
KEYS = ["image_width_px", "image_height_px", "focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "k1", "k2", "k3"]


class GuiWorld(SimThreads):
    disk_root = "out"

    def setup(self):
        import PyQt5.QtWidgets, qtpy.QtWidgets, qimage2ndarray, matplotlib.backends.backend_qt5agg, PIL.Image  # noqa
        PIL.Image.init()
        SimThreads.setup(self)
        DET.install()
        import threading
        import matplotlib.pyplot as plt
        plt.tight_layout = plt.draw = lambda *a, **k: None
        threading.Thread = threads.SimThread
        import glob
        real = glob.glob
        glob.glob = lambda *a, **k: sorted(real(*a, **k))
        import cameratransform.gui_tools.calibrate.gui_calibrate as gui
        self.gui = gui
        from qtpy import QtWidgets
        self.messages = []
        box = lambda *a, **k: self.messages.append(a[1:3]) or QtWidgets.QMessageBox.Ok
        for n in ("information", "warning", "critical", "question", "about"):
            setattr(QtWidgets.QMessageBox, n, staticmethod(box))

    def shrink_lists(self, program):
        out = [["ops"]]
        if program["sched"]["kind"] == "list":
            out.append(["sched", "switch"])
        return out

    def simplifications(self, program):
        for i, op in enumerate(program["ops"]):
            for k in ("fault", "toggle"):
                if op.get(k):
                    q = json.loads(json.dumps(program))
                    q["ops"][i].pop(k)
                    yield q

    # --- the run
    def execute(self, program, ctx):
        d = scratch_dir()
        try:
            self.folders = [os.path.join(d, "pics"), os.path.join(d, "pics2")]
            self.out = os.path.join(self.folders[0], "output")
            for f in self.folders:
                os.makedirs(os.path.join(f, "output"))
            self.exts = program.get("exts") or ["jpg", "jpg"]
            self.d = d
            self.cals = os.path.join(d, "calibrations")
            os.makedirs(self.cals)
            self.messages[:] = []
            DET.images = {self.path(im): im for im in program["images"]}
            DET.next_calibration, DET.calibrations = None, []
            for im in program["images"]:
                self.write_image(im)
            os.chdir(d)
            self.ctx = ctx
            self.violation = None
            self.slot_errors = 0
            from qtpy import QtWidgets
            self.app = QtWidgets.QApplication(["calibrate"])
            sys.excepthook = self.hook
            self.disk = disk = SimDisk(getattr(self, self.disk_root), ctx)
            disk.known = CAL_FILES + tuple(os.path.splitext(i["name"])[0] + e for i in program["images"] for e in ("_corners.txt", "_chess.png")) + (".",)
            try:
                s = threads.DynScheduler(program["sched"], watch=self.watch_all)
                self.s = s
                disk.yield_to = lambda: s.step(s.me()) if s.me() is not None and not s.killed else None
                try:
                    with s:
                        self.run(program, ctx)
                except (threads.Killed, threads.Deadlock):
                    if not self.violation:
                        raise Violation("no-progress", s.error or "the threads wait for ever")
                finally:
                    ctx.switches = s.switches
                    ctx.ev("schedule", s.switches, s.step_no, s.n)
                    ctx.fault("preemption", len(s.switches))
                    ctx.probe("threads", s.n - 1)
                self.raise_pending()
                disk.check_internal()
            finally:
                disk.yield_to = None
                disk.stop()
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def path(self, im):
        return os.path.join(self.folders[im.get("folder", 0)], im["name"])

    def write_image(self, im):
        from PIL import Image
        rs = np.random.RandomState(im["key"])
        a = np.repeat(np.repeat(rs.randint(0, 255, (6, 8, 3)), 4, 0), 4, 1).astype(np.uint8)
        fn = self.path(im)
        if im["board"] == 3 and not im.get("picture"):
            with open(fn, "wb") as fp:
                fp.write(b"not an image")
        else:
            mode = im.get("mode", "RGB")
            if mode == "L":
                a = a[:, :, 0]
            elif mode == "RGBA":
                a = np.dstack([a, np.full(a.shape[:2], 255, np.uint8)])
            Image.fromarray(a).save(fn, quality=95)
        base = os.path.join(os.path.dirname(fn), "output", os.path.splitext(im["name"])[0])
        if im.get("cached"):
            np.savetxt(base + "_corners.txt", corners_of(im))
        if im.get("chess"):
            Image.fromarray(a[::-1].copy()).save(base + "_chess.png")

    def picture(self, im):
        """the pixels the window has to show for an image"""
        from PIL import Image
        fn = self.path(im)
        chess = os.path.join(os.path.dirname(fn), "output", os.path.splitext(im["name"])[0] + "_chess.png")
        with Image.open(chess if im.get("chess") else fn) as f:
            return np.array(f)

    def hook(self, typ, value, tb):
        """exceptions in slots"""
        if isinstance(value, Violation):
            self.violation = self.violation or value
        elif not isinstance(value, threads.Killed):
            self.slot_errors += 1
            self.last_error = "%s: %s" % (typ.__name__, value)
            self.ctx.ev("slot raises", typ.__name__)

    def raise_pending(self):
        if self.violation is not None:
            raise self.violation
        if self.s.error:
            raise Violation("no-progress", self.s.error)

    def watch_all(self):
        if self.violation is None:
            try:
                self.watch()
            except Violation as v:
                self.violation = v

    def watch(self):
        pass

    def open_window(self):
        self.w = self.gui.Window()
        self.rows = []               # the images in the list

    def user(self, f):
        """one user action; exceptions reach the hook like in the real event loop"""
        try:
            f()
        except (Violation, threads.Killed, threads.Deadlock):
            raise
        except Exception as e:
            self.hook(type(e), e, None)
        self.raise_pending()

    def choose(self, widget, filename):
        """the user presses the button and chooses a file"""
        from qtpy import QtWidgets
        answer = staticmethod(lambda *a, **k: (filename, ""))
        QtWidgets.QFileDialog.getOpenFileName = QtWidgets.QFileDialog.getSaveFileName = answer
        self.user(lambda: widget.findChildren(QtWidgets.QPushButton)[0].click())

    def press(self, key):
        from qtpy import QtCore, QtGui
        event = QtGui.QKeyEvent(QtCore.QEvent.KeyPress, getattr(QtCore.Qt, "Key_" + key), QtCore.Qt.NoModifier)
        self.user(lambda: self.app.sendEvent(self.w, event))

    def tick(self, widget, value):
        from qtpy import QtWidgets
        box = widget.findChildren(QtWidgets.QCheckBox)[0]
        if box.isChecked() != value:
            self.user(lambda: box.click())

    def events(self):
        self.app.processEvents()
        self.raise_pending()

    def quiesce(self):
        """until all threads are done and all events are handled"""
        for _ in range(100000):
            while self.s.idle():
                pass
            before = self.s.n
            self.events()
            self.events()
            if self.s.n == before and all(self.s.done[1:]):
                break
        self.raise_pending()

    def load(self, folder=0):
        """Add Images: all images of the folder"""
        new = sorted((im for im in DET.images.values() if im.get("folder", 0) == folder and os.path.exists(self.path(im))), key=lambda im: im["name"])
        before = self.w.tableWidget.rowCount()
        if before != len(self.rows):
            raise Violation("wrong-rows", "the table has %d rows, should have %d" % (before, len(self.rows)))
        self.choose(self.w.input_filename, os.path.join(self.folders[folder], "img1." + self.exts[folder]))
        now = self.w.tableWidget.rowCount()
        if now == before and self.disk.fired is not None:
            return                   # stored corners could not be read
        if now != before + len(new):
            raise Violation("wrong-rows", "%d images were added, the table has %d rows more" % (len(new), now - before))
        self.rows += new
        for i in range(before, now):
            if self.w.tableWidget.item(i, 0).text() != self.rows[i]["name"]:
                raise Violation("wrong-rows", "row %d shows %s, should show %s" % (i, self.w.tableWidget.item(i, 0).text(), self.rows[i]["name"]))

    def fault_free(self):
        self.disk.reset()

    def check_calibration(self, cal, where):
        """the calibration, camera and texts of the window are those of the calibration (None: none yet)"""
        w = self.w
        self.ctx.check()
        if w.button_save.isEnabled() != (cal is not None):
            raise Violation("save-button", "%s: the save button is %s, the calibration is %s" % (where, "enabled" if w.button_save.isEnabled() else "disabled", "there" if cal else "not there"))
        shown = {}
        for line in w.calibration_result.text().splitlines():
            n, _, v = line.partition(":")
            try:
                shown[n.strip()] = float(v)
            except ValueError:
                pass
        if cal is None:
            if w.calibration is not None:
                raise Violation("wrong-calibration", "%s: the window has a calibration: %r" % (where, w.calibration))
            if shown:
                raise Violation("wrong-text", "%s: the window shows %r without a calibration" % (where, shown))
            return
        cur = w.calibration or {}
        for n in KEYS + ["rms"]:
            if n not in cur or float(cur[n]) != cal[n]:
                raise Violation("wrong-calibration", "%s: the window's %s is %r, should be %r" % (where, n, cur.get(n), cal[n]))
            if n not in shown or abs(shown[n] - cal[n]) > 1e-3 * abs(cal[n]) + 1e-5:
                raise Violation("wrong-text", "%s: shown is %s: %r, should be %r" % (where, n, shown.get(n), cal[n]))
            if n != "rms" and float(getattr(w.camera, n)) != cal[n]:
                raise Violation("wrong-camera", "%s: %s of the window's camera is %r, should be %r" % (where, n, getattr(w.camera, n), cal[n]))
        pts = np.array([[1.5, 2.5], [30, 20], [15, 12]])
        got, want = w.camera.lens.distortedFromImage(pts.copy()), calibrated(cal).lens.distortedFromImage(pts.copy())
        if not np.allclose(got, want, atol=1e-6):
            raise Violation("wrong-camera", "%s: the window's camera does not undistort like a new one" % where)
        # the curve of the result: raw over corrected pixels
        curves = [np.asarray(l.get_xydata(), float) for a in w.plot.figure.axes for l in a.lines]
        found = 0
        for c in curves:
            raw = calibrated(cal).lens.distortedFromImage(np.column_stack((c[:, 0], np.zeros(len(c)))))[:, 0]
            fits = np.allclose(c[:, 1], raw, atol=1e-6, equal_nan=True)
            found += fits
            if not fits and not np.array_equal(c[:, 0], c[:, 1]):
                raise Violation("wrong-curve", "%s: a curve in the window's plot is not that of the calibration" % where)
        if not found:
            raise Violation("wrong-curve", "%s: the window's plot does not show the curve of the calibration (%d curves)" % (where, len(curves)))

    def check_display(self, cal):
        from qimage2ndarray import array2qimage
        from qtpy import QtGui
        self.ctx.check()
        w = self.w
        rows = [i.row() for i in w.tableWidget.selectedIndexes()]
        row = rows[0] if rows else 0
        im = self.rows[row]
        data = self.picture(im)
        checked = w.input_display_undistorted.value()
        want = data
        if checked and cal is not None:
            want = calibrated(cal).undistortImage(data)
        exact = im["name"].endswith("jpg") and not im.get("chess")
        for what, item, arr in (("image", w.preview_pixMapItem, data), ("corrected image", w.preview_pixMapItem2, want)):
            got, exp = pixels(item.pixmap().toImage(), QtGui), pixels(QtGui.QPixmap(array2qimage(arr)).toImage(), QtGui)
            if got is None or exp is None or got[:2] != exp[:2] or np.max(np.abs(got[2] - exp[2])) > (0 if exact else 2):
                raise Violation("outdated-display", "the %s shown for row %d (%s, %s%s) is not that of the latest calibration (%s)" % (
                    what, row, im["name"], im.get("mode", "RGB"), " with chessboard picture" if im.get("chess") else "", "none" if cal is None else "k1=%r" % cal["k1"]))


def gen_second(rng, images):
    """a second folder with images of the same names"""
    if rng.random() < 0.5:
        return []
    out = []
    for im in rng.sample(images, rng.randint(1, len(images))):
        board = 1 if rng.random() < 0.7 else 0
        out.append(dict(im, key=rng.randrange(60000), board=board, folder=1, picture=True, cached=board == 1 and rng.random() < 0.3))
    return out


def gen_folder(rng, images):
    return rng.randrange(2) if any(im.get("folder") for im in images) else 0


class C18(GuiWorld):
    prop = "C18"

    def gen(self, rng, tier):
        n = rng.randint(1, 5)
        images = []
        for i in range(n):
            board = 1 if rng.random() < 0.6 else rng.choice([0, 0, 2, 2, 3, 3, 4, 5])
            images.append(dict(name="img%d.jpg" % (i + 1), key=rng.randrange(60000), board=board, picture=i == 0, cached=board == 1 and rng.random() < 0.15))
        images += gen_second(rng, images)
        ops = []
        for k in range(rng.randint(1, 2 if tier == "quick" else 4)):
            if k and rng.random() < 0.5:
                ops.append(dict(op="restart"))
            if rng.random() < 0.5:
                ops.append(dict(op="disk", fault=gen_fault(rng, most=25)))
            if rng.random() < 0.25:
                ops.append(dict(op="vanish", image=rng.randrange(n)))
            ops.append(dict(op="process"))
            for _ in range(rng.randint(0, 6)):
                r = rng.random()
                if r < 0.25:
                    ops.append(dict(op="events"))
                elif r < 0.45:
                    ops.append(dict(op="idle", n=rng.randint(1, 4)))
                elif r < 0.6:
                    ops.append(dict(op="process"))
                elif r < 0.75:
                    ops.append(dict(op="select", row=rng.randrange(n)))
                elif r < 0.85:
                    ops.append(dict(op="use", row=rng.randrange(n)))
                elif r < 0.9:
                    ops.append(dict(op="wait"))
                elif r < 0.93:
                    ops += [dict(op="clear")] + [rng.choice([dict(op="idle", n=1), dict(op="events"), dict(op="process")])] * rng.randrange(2)
                    ops.append(dict(op="load", folder=gen_folder(rng, images)))
                    if rng.random() < 0.7:
                        ops.append(dict(op="process"))
                else:
                    ops.append(dict(op="load", folder=gen_folder(rng, images)))
            ops.append(dict(op="wait"))
        s = gen_sched(rng, 3)
        s["opcodes"] = False
        return dict(images=images, ops=ops, sched=s)

    def open_window(self):
        GuiWorld.open_window(self)
        self.presses = 0
        self.starts = []
        self.current = {}
        self.batch = []
        self.before = {}
        self.load()

    def statuses(self):
        return [str(im.getData()[1]) for im in self.w.images]

    def watch(self):
        """follows the status of every image, at every step of any thread"""
        w = getattr(self, "w", None)
        if w is None or not hasattr(w, "images"):
            return
        busy = []
        for i, im in enumerate(w.images):
            st = im.status
            if st == "in progress":
                busy.append(i)
            if st != self.before.get(id(im)):
                self.before[id(im)] = st
                self.ctx.ev("status", i, st)
                if st == "in progress":
                    self.starts.append(i)
        if len(busy) > 1:
            raise Violation("several-at-once", "images %r are in progress at the same time" % busy)

    def run(self, program, ctx):
        self.fault = None
        self.open_window()
        self.hit = set()
        self.dead = False
        disturbed = 0
        for k, op in enumerate(program["ops"]):
            kind = op["op"]
            ctx.ev("op", kind)
            ctx.state(kind, tuple(sorted(set(self.statuses()))), self.fault and self.fault["kind"], self.s.n - 1 - sum(self.s.done[1:]))
            if kind == "process":
                self.presses += 1
                self.batch = list(self.w.images)
                self.user(lambda: self.w.button_start.click())
            elif kind == "events":
                self.events()
            elif kind == "idle":
                for _ in range(op["n"]):
                    self.s.idle()
            elif kind == "select":
                self.user(lambda: self.w.tableWidget.selectRow(op["row"]))
            elif kind == "use":
                if op["row"] < len(self.rows):
                    self.user(lambda: self.w.tableWidget.cellDoubleClicked.emit(op["row"], 2))
            elif kind == "load":
                self.load(op.get("folder", 0))
            elif kind == "clear":
                self.user(lambda: self.w.button_clear.click())
                self.rows, self.batch, self.starts, self.presses = [], [], [], 0
            elif kind == "vanish":
                im = program["images"][op["image"]]
                try:
                    os.remove(self.path(im))
                except FileNotFoundError:
                    pass
                self.hit.add(self.path(im))
                ctx.fault("image file vanishes")
            elif kind == "disk":
                self.fault = op["fault"]
                self.disk.reset(op["fault"])
            elif kind == "wait":
                self.quiesce()
                disturbed += self.judge(program)
            elif kind == "restart":
                self.quiesce()
                if self.fault and self.fault["kind"] == "power":
                    self.disk.power_loss(self.fault["keep_meta"], self.fault["keep_data"])
                self.disk.reset()
                self.fault = None
                self.w = None
                self.open_window()
                ctx.fault("restart")
        # the faults stop
        self.quiesce()
        self.judge(program)
        if self.disk.frozen or (self.fault and self.fault["kind"] == "power"):
            if self.fault["kind"] == "power":
                self.disk.power_loss(self.fault["keep_meta"], self.fault["keep_data"])
            self.w = None
            self.disk.reset()
            self.open_window()
        self.disk.reset()
        self.fault = None
        self.presses += 1
        self.batch = list(self.w.images)
        self.user(lambda: self.w.button_start.click())
        self.quiesce()
        self.judge(program, final=True)
        ctx.interesting = disturbed > 0 or self.s.n > 3
        ctx.ev("end", self.s.n)

    def judge(self, program, final=False):
        """at quiescence: every image of the batch has its final status"""
        ctx = self.ctx
        fired = self.disk.fired is not None
        for i, im in enumerate(self.w.images):
            ctx.check()
            info = self.rows[i]
            st = str(im.getData()[1])
            where = "image %d (%s, %s)" % (i, info["name"], ["no chessboard", "chessboard", "detector fails", "unreadable", "out of memory", "detector fails"][info["board"]])
            if im in self.batch:
                if st not in ("True", "Failed"):
                    raise Violation("no-final-status", "%s ends with status %r; all: %r" % (where, st, self.statuses()))
                good = info["board"] == 1 and (self.path(info) not in self.hit)
                if not fired:
                    if good and st != "True":
                        raise Violation("wrong-status", "%s ends with status %r" % (where, st))
                    if info["board"] != 1 and st != "Failed":
                        raise Violation("wrong-status", "%s ends with status %r" % (where, st))
            if st == "True":
                if info["board"] != 1 or im.corner_data is None or not np.array_equal(np.asarray(im.corner_data), corners_of(info)):
                    raise Violation("wrong-corners", "%s counts as processed but does not have its own corners" % where)
            # what the table shows
            shown = self.w.tableWidget.item(i, 1).text()
            if shown != st:
                raise Violation("table-outdated", "%s has status %r, the table shows %r" % (where, st, shown))
        # list order: every pass starts at the top and goes down
        passes = 0
        last = None
        for i in self.starts:
            if i == 0:
                passes += 1
            elif last is None or i != last + 1:
                raise Violation("wrong-order", "the images were started in the order %r" % self.starts)
            last = i
        if passes > self.presses:
            raise Violation("wrong-order", "%d passes over the images (%r) after %d times Process" % (passes, self.starts, self.presses))
        return int(fired) + self.slot_errors


def gen_calibration(rng):
    r = lambda a, b: round(rng.uniform(a, b), 3)
    return dict(rms=r(0.1, 2), image_width_px=32, image_height_px=24, focallength_x_px=r(20, 60), focallength_y_px=r(20, 60), center_x_px=r(10, 22), center_y_px=r(8, 16),
                k1=r(-0.2, 0.3), k2=r(-0.05, 0.1), k3=r(-0.02, 0.02))


def calibrated(cal):
    ct = camlib.ct
    return ct.Camera(ct.RectilinearProjection(**{k: cal[k] for k in KEYS if k.startswith(("image", "focal", "center"))}),
                     lens=ct.BrownLensDistortion(k1=cal["k1"], k2=cal["k2"], k3=cal["k3"]))


class C20(GuiWorld):
    prop = "C20"

    def gen(self, rng, tier):
        n = rng.randint(1, 3)
        exts = [rng.choice(["jpg", "png"]) for _ in range(2)]
        images = [dict(name="img%d.%s" % (i + 1, exts[0]), key=rng.randrange(60000), board=1, cached=True) for i in range(n)]
        if rng.random() < 0.4:
            images += [dict(name="img%d.%s" % (i + 1, exts[1]), key=rng.randrange(60000), board=1, cached=True, folder=1) for i in range(rng.randint(1, 2))]
        for im in images:
            im["mode"] = rng.choice(["RGB", "RGB", "L", "RGBA"] if im["name"].endswith("png") else ["RGB", "RGB", "RGB", "L"])
            im["chess"] = rng.random() < 0.2
            if not im["name"].startswith("img1.") and rng.random() < 0.4:
                im["cached"] = False            # no corners: not marked for the calibration
        cals = [gen_calibration(rng) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(2, 9 if tier == "quick" else 20)):
            r = rng.random()
            if r < 0.3:
                ops.append(dict(op="select", row=rng.randrange(6)))
            elif r < 0.5:
                ops.append(dict(op="loadcal", cal=rng.randrange(len(cals)), damage=rng.choice([None, None, None, None, "missing", "cut"])))
            elif r < 0.62:
                ops.append(dict(op="fit", cal=rng.randrange(len(cals)), fail=rng.random() < 0.15))
            elif r < 0.72:
                ops.append(dict(op="events"))
            elif r < 0.82:
                ops.append(dict(op="idle", n=rng.randint(1, 3)))
            elif r < 0.88:
                ops.append(dict(op="toggle", key=rng.choice([None, "D", "F"])))
            elif r < 0.92:
                ops.append(dict(op="more", folder=gen_folder(rng, images), select=rng.random() < 0.5))
            elif r < 0.94:
                ops.append(dict(op="clear"))
                if rng.random() < 0.8:
                    ops += [dict(op="idle", n=rng.randint(1, 2))] * rng.randrange(2) + [dict(op="more", folder=gen_folder(rng, images), select=rng.random() < 0.3)]
            else:
                ops.append(dict(op="wait"))
        if rng.random() < 0.25:
            # the same few images again and again, with another calibration in between
            a, b = rng.randrange(4), rng.randrange(4)
            tail = []
            for x in (a, b, a, b)[:rng.randint(3, 4)]:
                tail.append(dict(op="select", row=x))
                if rng.random() < 0.7:
                    tail.append(dict(op="wait"))
                if rng.random() < 0.7:
                    tail.append(dict(op=rng.choice(["fit", "loadcal"]), cal=rng.randrange(len(cals))))
                    if rng.random() < 0.5:
                        tail.append(dict(op="wait"))
            ops = ops[:rng.randrange(3)] + tail
            ops.insert(0, dict(op="more", folder=0, select=rng.random() < 0.7))
        elif rng.random() < 0.6:
            ops.insert(0, dict(op="more", folder=0, select=rng.random() < 0.7))
        s = gen_sched(rng, 3)
        s["opcodes"] = False
        return dict(images=images, exts=exts, cals=cals, ops=ops, sched=s)

    def run(self, program, ctx):
        self.open_window()
        w = self.w
        cal = None
        failures = 0             # actions which have to report an error
        for k, op in enumerate(program["ops"]):
            kind = op["op"]
            if not self.rows and kind in ("select", "fit", "toggle", "wait"):
                continue
            live = self.s.n - 1 - sum(self.s.done[1:])
            ctx.ev("op", kind, live)
            ctx.state(kind, min(live, 4), cal is None, program["ops"][k - 1]["op"] if k else None)
            if kind == "select":
                self.user(lambda: w.tableWidget.selectRow(op["row"] % len(self.rows)))
            elif kind == "loadcal":
                fn = os.path.join(self.d, "cal%d.txt" % op["cal"])
                c = program["cals"][op["cal"]]
                text = json.dumps(c)
                if op.get("damage"):
                    ctx.fault("calibration file " + op["damage"])
                if op.get("damage") == "missing":
                    if os.path.exists(fn):
                        os.remove(fn)
                else:
                    with open(fn, "w") as fp:
                        fp.write(text if not op.get("damage") else text[:len(text) // 2])
                if not op.get("damage"):
                    cal = c
                else:
                    failures += 1
                self.choose(w.button_load, fn)
            elif kind == "fit":
                DET.next_calibration = None if op.get("fail") else program["cals"][op["cal"]]
                if op.get("fail"):
                    ctx.fault("calibration fails")
                    failures += 1
                else:
                    cal = program["cals"][op["cal"]]
                self.user(lambda: w.button_fit.click())
            elif kind == "events":
                self.events()
            elif kind == "idle":
                for _ in range(op["n"]):
                    self.s.idle()
            elif kind == "toggle":
                if op.get("key"):
                    self.press(op["key"])
                else:
                    self.tick(w.input_display_undistorted, not w.input_display_undistorted.value())
            elif kind == "clear":
                self.user(lambda: w.button_clear.click())
                self.rows = []
            elif kind == "more":
                self.load(op.get("folder", 0))
                if op.get("select", True):
                    self.user(lambda: w.tableWidget.clearSelection())
                    self.user(lambda: w.tableWidget.selectRow(len(w.images) - 1))
            elif kind == "wait":
                self.quiesce()
                self.judge(program, cal)
            if self.slot_errors > failures:
                raise Violation("exception", "step %d (%s): %s" % (k, kind, self.last_error))
        self.quiesce()
        if self.slot_errors > failures:
            raise Violation("exception", "at the end: %s" % self.last_error)
        self.judge(program, cal)
        ctx.interesting = cal is not None and self.s.n > 2
        ctx.ev("end", self.s.n)

    def judge(self, program, cal):
        if self.rows:
            self.check_display(cal)


def pixels(q, QtGui):
    q = q.convertToFormat(QtGui.QImage.Format_RGB32)
    if q.isNull():
        return None
    b = q.bits()
    b.setsize(q.byteCount())
    return (q.width(), q.height(), np.frombuffer(bytes(b), np.uint8).astype(int))


# ------------------------------------------------------------------------------------------------ C21
def gen_full(rng):
    """a calibration with all digits"""
    c = gen_calibration(rng)
    for n in c:
        if not n.startswith("image"):
            c[n] += rng.uniform(-1, 1) * 1e-4 * abs(c[n])
    return c


class C21(GuiWorld):
    prop = "C21"
    disk_root = "cals"

    def gen(self, rng, tier):
        n = rng.randint(1, 2)
        images = [dict(name="img%d.jpg" % (i + 1), key=rng.randrange(60000), board=1, cached=True) for i in range(n)]
        cals = [gen_full(rng) for _ in range(rng.randint(2, 4))]
        ops = [dict(op="fit", cal=0)]
        for _ in range(rng.randint(3, 10 if tier == "quick" else 24)):
            r = rng.random()
            if r < 0.18:
                ops.append(dict(op="fit", cal=rng.randrange(len(cals)), fail=rng.random() < 0.15))
            elif r < 0.5:
                op = dict(op="save", file=rng.randrange(2))
                if rng.random() < 0.6:
                    op["fault"] = gen_fault(rng, most=12)
                ops.append(op)
            elif r < 0.68:
                op = dict(op="load", file=rng.randrange(2))
                if rng.random() < 0.3:
                    op["fault"] = dict(at=rng.randint(1, 4), kind=rng.choice(["EIO", "EACCES", "short", "short"]), frac=round(rng.random(), 3))
                ops.append(op)
            elif r < 0.84:
                ops.append(dict(op="broken", cal=rng.randrange(len(cals)), how=self.gen_damage(rng)))
            elif r < 0.9:
                ops.append(dict(op="restart"))
            elif r < 0.94:
                ops.append(dict(op="events"))
            elif r < 0.97:
                ops.append(dict(op="idle", n=rng.randint(1, 3)))
            else:
                ops.append(dict(op="wait"))
        s = gen_sched(rng, 3)
        s["opcodes"] = False
        return dict(images=images, cals=cals, ops=ops, sched=s)

    @staticmethod
    def gen_damage(rng):
        r = rng.random()
        if r < 0.35:
            return ["cut", round(rng.random(), 4)]
        if r < 0.65:
            return ["without", rng.choice(KEYS)]
        if r < 0.75:
            return ["missing", None]
        if r < 0.85:
            return ["garbled", rng.randrange(1000)]
        return ["text", rng.choice(["", "{}", "[]", "[1, 2]", "null", "3", '"k1"', '{"k1": 0.1}', '{"calibration": {}}', "k1: 0.1", " "])]

    def damaged(self, cal, how):
        text = json.dumps(cal)
        kind, arg = how
        if kind == "cut":
            return text[:int(arg * len(text))].encode()
        if kind == "without":
            return json.dumps({k: v for k, v in cal.items() if k != arg}).encode()
        if kind == "garbled":
            b = bytearray(text.encode())
            b[arg % len(b)] = 0xfe
            return bytes(b)
        return arg.encode()

    def new_process(self):
        self.quiesce()
        self.disk.reset()
        self.disk.busy = True
        self.w = None
        self.open_window()
        self.load()
        self.disk.busy = False

    def content(self, name):
        was, self.disk.busy = self.disk.busy, True
        try:
            with open(os.path.join(self.cals, name), "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return None
        finally:
            self.disk.busy = was

    @staticmethod
    def holds(data, cal):
        """the complete calibration?"""
        try:
            v = json.loads(data.decode())
            return all(float(v[n]) == cal[n] for n in KEYS + ["rms"])
        except (ValueError, TypeError, KeyError, AttributeError):
            return False

    def run(self, program, ctx):
        disk = self.disk
        self.new_process()
        cal = None
        files = {}                   # what the files hold
        faults = 0
        for k, op in enumerate(program["ops"]):
            kind = op["op"]
            w = self.w
            where = "step %d (%s)" % (k, kind)
            ctx.ev("op", kind)
            disk.reset()
            raised = self.slot_errors + len(self.messages)
            if kind == "fit":
                DET.next_calibration = None if op.get("fail") else program["cals"][op["cal"]]
                if op.get("fail"):
                    ctx.fault("calibration fails")
                else:
                    cal = program["cals"][op["cal"]]
                self.user(lambda: w.button_fit.click())
            elif kind == "save":
                if cal is None:
                    continue
                cal = self.save(k, op, cal, files)
                faults += disk.fired is not None
            elif kind in ("load", "broken"):
                name = CAL_FILES[op["file"]] if kind == "load" else CAL_FILES[2]
                want = files.get(name) if kind == "load" else None
                if kind == "broken":
                    disk.busy = True
                    if os.path.exists(os.path.join(self.cals, name)):
                        os.remove(os.path.join(self.cals, name))
                    if op["how"][0] != "missing":
                        with open(os.path.join(self.cals, name), "wb") as fp:
                            fp.write(self.damaged(program["cals"][op["cal"]], op["how"]))
                    disk.busy = False
                    ctx.fault("calibration file " + op["how"][0])
                    faults += 1
                disk.reset(op.get("fault"))
                self.choose(w.button_load, os.path.join(self.cals, name))
                disk.check_internal()
                failed = disk.fired is not None and "short" not in disk.fired
                faults += disk.fired is not None
                ctx.state(kind, (op.get("how") or [None])[0], disk.fired, want is None, cal is None)
                if failed and self.slot_errors + len(self.messages) == raised:
                    raise Violation("error-hidden", "%s: reading the file failed (%s) but no error was reported" % (where, disk.fired))
                if want is not None and not failed:
                    if self.slot_errors + len(self.messages) != raised:
                        raise Violation("cannot-load", "%s: loading the saved file %s raised an error" % (where, name))
                    cal = want
            elif kind == "restart":
                self.new_process()
                cal = None
                ctx.fault("restart")
            elif kind == "events":
                self.events()
            elif kind == "idle":
                for _ in range(op["n"]):
                    self.s.idle()
            elif kind == "wait":
                self.quiesce()
                self.check_display(cal)
            self.check_calibration(cal, where)
        self.quiesce()
        self.check_calibration(cal, "at the end")
        self.check_display(cal)
        # every file in a new process
        for name, c in files.items():
            self.new_process()
            if c is not None:
                self.choose(self.w.button_load, os.path.join(self.cals, name))
                self.check_calibration(c, "%s in a new process" % name)
                self.quiesce()
                self.check_display(c)
        ctx.interesting = faults > 0 and bool(files)
        ctx.ev("end", faults)

    def save(self, k, op, cal, files):
        ctx, disk = self.ctx, self.disk
        name = CAL_FILES[op["file"]]
        old = files.get(name)
        f = op.get("fault") or {}
        seen = {}

        def reader():
            seen.setdefault(self.content(name), disk.calls)

        disk.reset(op.get("fault"))
        disk.watch = reader
        before = len(self.messages)
        self.choose(self.w.button_save, os.path.join(self.cals, name))
        disk.watch = None
        disk.check_internal()
        reported = len(self.messages) > before and any("saved" in str(t).lower() for m in self.messages[before:] for t in m)
        crashed = disk.frozen
        calls = disk.calls
        what = "step %d (save, %s at disk call %s of %d)" % (k, f.get("kind", "no fault"), f.get("at"), calls)
        ctx.state("save", disk.fired, disk.log[f["at"] - 1] if disk.fired and f["at"] <= len(disk.log) else None, old is None)
        ctx.ev("saved", reported, disk.fired, calls)
        if f.get("kind") == "power":
            disk.power_loss(f["keep_meta"], f["keep_data"])
        now = self.content(name)
        ctx.check()
        if now is None:
            if old is not None:
                raise Violation("file-lost", "%s: the file is gone" % what)
        elif old is not None and self.holds(now, old):
            pass
        elif not self.holds(now, cal):
            raise Violation("damaged-file", "%s: the file holds neither the old nor the new calibration: %r" % (what, now[:80]))
        stored = now is not None and self.holds(now, cal)
        if f.get("kind") not in ("crash", "power") or disk.fired is None and f.get("kind") != "power":
            if reported and not stored:
                raise Violation("reported-but-not-stored", "%s: reported as saved but not stored" % what)
            if disk.fired is None and not (reported and stored):
                raise Violation("not-stored", "%s: nothing went wrong but the calibration was %s" % (what, "not stored" if not stored else "not reported as saved"))
        for b, at in seen.items():
            if b is None:
                if old is not None:
                    raise Violation("reader-saw-no-file", "%s: at disk call %d another process found no file" % (what, at))
            elif not self.holds(b, cal) and not (old is not None and self.holds(b, old)):
                raise Violation("reader-saw-partial-file", "%s: at disk call %d another process found %r" % (what, at, b[:80]))
        if stored:
            files[name] = cal
        if crashed or f.get("kind") == "power":
            fired = disk.fired
            self.new_process()
            disk.fired = fired
            return None
        return cal


# ------------------------------------------------------------------------------------------------ C22
OPTIONS = [("input_fix_center", "CALIB_FIX_PRINCIPAL_POINT"), ("input_fix_aspect", "CALIB_FIX_ASPECT_RATIO"), ("input_fix_k1", "CALIB_FIX_K1"),
           ("input_fix_k2", "CALIB_FIX_K2"), ("input_fix_k3", "CALIB_FIX_K3")]


class C22(GuiWorld):
    prop = "C22"

    def gen(self, rng, tier):
        n = rng.randint(1, 5)
        images = []
        for i in range(n):
            board = 1 if rng.random() < 0.7 else rng.choice([0, 2, 3, 5])
            images.append(dict(name="img%d.jpg" % (i + 1), key=rng.randrange(60000), board=board, picture=i == 0, cached=board == 1 and rng.random() < 0.5))
        images += gen_second(rng, images)
        cals = [gen_calibration(rng) for _ in range(rng.randint(1, 3))]
        ops = []
        if rng.random() < 0.5:
            ops = [dict(op="process")] + ([dict(op="wait")] if rng.random() < 0.6 else [])
        for _ in range(rng.randint(4, 14 if tier == "quick" else 30)):
            r = rng.random()
            if r < 0.25:
                ops.append(dict(op="fit", cal=rng.randrange(len(cals)), fail=rng.random() < 0.2))
            elif r < 0.5:
                ops.append(dict(op="use", row=rng.randrange(len(images) + 1)))
            elif r < 0.6:
                if rng.random() < 0.25:          # some images cannot be processed (again)
                    ops += [dict(op="disk", fault=gen_fault(rng, most=10, kinds=["EIO", "EACCES", "ENOSPC"])), dict(op="process"), dict(op="wait"), dict(op="fit", cal=0)]
                else:
                    ops.append(dict(op="process"))
            elif r < 0.66:
                ops.append(dict(op="events"))
            elif r < 0.74:
                ops.append(dict(op="idle", n=rng.randint(1, 5)))
            elif r < 0.82:
                ops.append(dict(op="wait"))
            elif r < 0.86:
                ops.append(dict(op="option", which=rng.randrange(5), value=rng.random() < 0.5))
            elif r < 0.89:
                ops.append(dict(op="restart"))
            elif r < 0.92:
                ops.append(dict(op="disk", fault=gen_fault(rng, most=20, kinds=["EIO", "ENOSPC", "EACCES", "short", "torn", "full"])))
            elif r < 0.95:
                ops.append(dict(op="load", folder=gen_folder(rng, images)))
            elif r < 0.965:
                ops.append(dict(op="clear"))
            elif r < 0.985:
                other = gen_calibration(rng)
                other.update(image_width_px=rng.choice([32, 64, 24]), image_height_px=rng.choice([24, 48, 32]))
                ops.append(dict(op="loadcal", cal=other))
            else:
                ops.append(dict(op="select", row=rng.randrange(n)))
        if rng.random() < 0.06:
            # the first image is being stored when something fails, then the program is started again
            images[0].update(board=1, cached=False)
            ops[:0] = [dict(op="disk", fault=dict(at=rng.randint(1, 5), kind=rng.choice(["EIO", "EACCES", "ENOSPC", "torn", "short", "full"]), frac=round(rng.random(), 3))),
                       dict(op="process"), dict(op="wait"), dict(op="restart"), dict(op="fit", cal=0)]
        s = gen_sched(rng, 3)
        s["opcodes"] = False
        return dict(images=images, cals=cals, ops=ops, sched=s)

    def marks(self):
        t = self.w.tableWidget
        return [t.item(i, 2).text().strip() != "" for i in range(t.rowCount())]

    def names(self):
        return [self.path(im) for im in self.rows]

    def run(self, program, ctx):
        from .corner_world import pattern_points
        points = pattern_points(PATTERN)
        self.open_window()
        self.load()
        cal = None
        known = [bool(DET.images[n].get("cached")) for n in self.names()]       # None: not known (decided while a batch ran)
        options = dict(zip([o[0] for o in OPTIONS], [False, False, True, True, True]))
        running = False
        stored = {n for n in self.names() if DET.images[n].get("cached")}
        faulted = False
        fits = 0
        for k, op in enumerate(program["ops"]):
            kind = op["op"]
            w = self.w
            where = "step %d (%s)" % (k, kind)
            live = self.s.n - 1 - sum(self.s.done[1:])
            ctx.ev("op", kind, live)
            ctx.state(kind, running, min(live, 3), sum(map(bool, known)), cal is None)
            if kind == "fit":
                DET.next_calibration = None if op.get("fail") else program["cals"][op["cal"]]
                before = self.marks()
                names = self.names()
                m = len(DET.calibrations)
                raised = self.slot_errors + len(self.messages)
                self.user(lambda: w.button_fit.click())
                ctx.check()
                calls = DET.calibrations[m:]
                if not names:
                    if self.slot_errors + len(self.messages) == raised:
                        raise Violation("fit-without-images", "%s: no images but no error" % where)
                    continue
                if len(calls) != 1:
                    raise Violation("no-fit", "%s: the calibration was computed %d times" % (where, len(calls)))
                obj, img, size, flags = calls[0]
                used = self.match(img, names, where)
                ctx.ev("fit", used)
                if not self.possible(used, names, before, running):
                    raise Violation("wrong-images", "%s: the fit used the images %r, marked were %r of %r%s" % (
                        where, used, [n for n, b in zip(names, before) if b], names, " (a batch is running)" if running else ""))
                if len(obj) != len(img) or any(not np.array_equal(o, points) for o in obj):
                    raise Violation("wrong-points", "%s: the pattern points do not belong to the images" % where)
                if tuple(int(x) for x in size) != (32, 24):
                    raise Violation("wrong-size", "%s: the fit was made for images of %r pixels" % (where, size))
                self.check_flags(flags, options, where)
                if op.get("fail") or not used:
                    if used:
                        ctx.fault("calibration fails")
                    if self.slot_errors + len(self.messages) == raised:
                        raise Violation("error-hidden", "%s: the calibration failed but no error was reported" % where)
                else:
                    cal = program["cals"][op["cal"]]
                    fits += 1
                self.check_calibration(cal, where)
            elif kind == "use":
                if op["row"] >= len(known):
                    continue
                b = self.marks()
                self.user(lambda: w.tableWidget.cellDoubleClicked.emit(op["row"], 2))
                a = self.marks()
                i = op["row"]
                if [x for j, x in enumerate(a) if j != i] != [x for j, x in enumerate(b) if j != i]:
                    raise Violation("wrong-row", "%s: toggling row %d changed the marks from %r to %r" % (where, i, b, a))
                if running:
                    known[i] = None
                else:
                    if known[i] is not None and (self.names()[i] in stored or known[i]):
                        known[i] = not known[i]
                    elif known[i] is False and not a[i]:
                        pass
                    else:
                        known[i] = a[i]
                    if known[i] != a[i]:
                        raise Violation("wrong-mark", "%s: after toggling row %d it is marked: %r, should be %r" % (where, i, a[i], known[i]))
            elif kind == "loadcal":
                fn = os.path.join(self.d, "other%d.txt" % k)
                with open(fn, "w") as fp:
                    json.dump(op["cal"], fp)
                self.choose(w.button_load, fn)
                cal = op["cal"]
                self.check_calibration(cal, where)
            elif kind == "option":
                o = OPTIONS[op["which"]][0]
                self.tick(getattr(w, o), op["value"])
                options[o] = op["value"]
            elif kind == "process":
                self.user(lambda: w.button_start.click())
                running = True
            elif kind == "events":
                self.events()
            elif kind == "idle":
                for _ in range(op["n"]):
                    self.s.idle()
            elif kind == "select":
                self.user(lambda: w.tableWidget.selectRow(op["row"]))
            elif kind == "disk":
                if running:
                    continue
                self.disk.reset(op["fault"])
                faulted = True
            elif kind in ("wait", "restart", "clear", "load"):
                self.quiesce()
                if running:
                    known = self.after_batch(known, stored, faulted, where)
                    running = False
                    self.disk.reset()
                    faulted = False
                self.check_marks(known, where)
                self.check_calibration(cal, where)
                if kind == "restart":
                    self.disk.reset()
                    faulted = False
                    self.w = None
                    self.open_window()
                    self.load()
                    cal = None
                    options = dict(zip([o[0] for o in OPTIONS], [False, False, True, True, True]))
                    known = [True if n in stored else None for n in self.names()]
                    self.check_marks(known, where)
                    known = self.marks()
                    ctx.fault("restart")
                elif kind == "clear":
                    self.user(lambda: w.button_clear.click())
                    known = []
                    self.rows = []
                    if w.tableWidget.rowCount():
                        raise Violation("not-cleared", "%s: the table still has %d rows" % (where, w.tableWidget.rowCount()))
                elif kind == "load":
                    self.load(op.get("folder", 0))
                    known = known + [True if n in stored else None for n in self.names()[len(known):]]
                    self.check_marks(known, where)
                    known = self.marks()
        self.quiesce()
        if running:
            known = self.after_batch(known, stored, faulted, "at the end")
        self.check_marks(known, "at the end")
        self.check_calibration(cal, "at the end")
        ctx.interesting = fits > 0
        ctx.ev("end", fits)

    def match(self, img, names, where):
        """the names of the images whose corners were given to the fit, in that order"""
        out = []
        for c in img:
            for n in sorted(set(names)):
                if DET.images[n]["board"] == 1 and np.array_equal(np.asarray(c, dtype="float32").reshape(-1, 2), corners_of(DET.images[n])):
                    out.append(n)
                    break
            else:
                raise Violation("wrong-corners", "%s: the fit was given corners which belong to no image of the list" % where)
        return out

    def possible(self, used, names, before, running):
        """are these the marked rows, in order (and, while a batch runs, rows which it has just finished)?"""
        reach = {0}
        for n, b in zip(names, before):
            here = {j + 1 for j in reach if j < len(used) and used[j] == n}
            reach = here if b else (reach | here if running else reach)
        return len(used) in reach

    def check_flags(self, flags, options, where):
        import cv2
        for o, n in OPTIONS:
            if bool(flags & getattr(cv2, n)) == options[o]:
                raise Violation("wrong-options", "%s: %s is %s but the fit was made with %s %s" % (where, o, options[o], n, "set" if flags & getattr(cv2, n) else "not set"))

    def after_batch(self, known, stored, faulted, where):
        """the marks once a batch is done"""
        names, marks = self.names(), self.marks()
        out = []
        fired = self.disk.fired is not None
        for i, n in enumerate(names):
            good = DET.images[n]["board"] == 1
            if good and not fired:
                stored.add(n)
            if good and not fired and known[i] is not None:
                out.append(True)
            elif not good:
                out.append(known[i] if known[i] is not None else False)
            else:
                out.append(None)
        self.check_marks(out, where)
        return marks

    def check_marks(self, known, where):
        self.ctx.check()
        marks, names = self.marks(), self.names()
        if len(marks) != len(known):
            raise Violation("wrong-rows", "%s: the table has %d rows, should have %d" % (where, len(marks), len(known)))
        for i, (m, e) in enumerate(zip(marks, known)):
            if e is not None and m != e:
                raise Violation("wrong-mark", "%s: row %d (%s) is %s, should be %s" % (where, i, names[i], "marked" if m else "not marked", "marked" if e else "not marked"))
