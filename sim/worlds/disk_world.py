"""C05, C06, C07: saving and loading on a simulated disk."""
import json
import os
import shutil

import numpy as np

from .. import camlib, history
from ..camlib import PartModel
from ..disk import SimDisk, gen_fault
from ..kernel import World, Violation, Pristine
from .history_worlds import scratch_dir

KINDS = ["camera", "camera", "camera", "proj", "ori", "lens"]


class Obj:
    """one object that can be saved and loaded, with its reference table"""

    def __init__(self, kind, spec, more=None):
        self.kind = kind
        if kind == "camera":
            self.live, self.model = camlib.build_live(spec), camlib.build_model(spec)
        else:
            self.live, self.model = camlib.build_part(kind, *spec[kind]), PartModel(kind, *spec[kind])
        for n, v in (more or {}).items():
            self.set(n, v)

    def names(self):
        return self.model.names() if self.kind == "camera" else list(self.model.p)

    def set(self, n, v):
        v = tuple(v) if isinstance(v, list) else v
        setattr(self.live, n, v)
        (self.model.owner(n) if self.kind == "camera" else self.model).assign(n, v)

    def values(self):
        return self.model.effective()

    def loaded_from(self, m):
        """the model after loading a file that was saved by an object with model m"""
        if self.kind == "camera":
            self.model = history.loaded_model(m)
        else:
            self.model = m.copy()
            for n in m.p:
                self.model.p[n] = [m.eff(n), self.model.p[n][1], None, None]
            if self.kind == "proj":
                self.model.p["focallength_px"][0] = self.model.p["focallength_x_px"][0]

    def kinds(self):
        if self.kind == "camera":
            return camlib.part_kinds(self.live)
        return [type(self.live).__name__]

    def want_kinds(self):
        if self.kind == "camera":
            return camlib.model_kinds(self.model)
        m = self.model
        return [dict(proj=camlib.proj_class, ori=camlib.ori_class, lens=camlib.lens_class)[m.what](m.kind).__name__]

    def check(self, where, ctx, level=1):
        ctx.check()
        if self.kinds() != self.want_kinds():
            raise Violation("wrong-kind", "%s: parts are %r, should be %r" % (where, self.kinds(), self.want_kinds()))
        if self.kind == "camera":
            camlib.check_params(self.live, self.model, where, ctx, tol=1e-12)
            camlib.check_twin(self.live, self.model, where, ctx, level)
            return
        for n in self.model.p:
            got, want = getattr(self.live, n), self.model.eff(n)
            if not camlib.num_eq(got, want, 1e-12):
                raise Violation("parameter-value", "%s: %s reads %r, should be %r" % (where, n, got, want))
        d = camlib.first_difference(observe_part(self.kind, self.live), observe_part(self.kind, self.model.build()))
        if d:
            raise Violation("stale-transform", "%s: %s" % (where, d))


def observe_part(kind, o):
    out = {}
    if kind == "proj":
        out["imageFromCamera"] = np.array(o.imageFromCamera(camlib.CAMPTS.copy()), dtype=float)
        out["getRay"] = np.array(o.getRay(camlib.IMG.copy(), normed=True), dtype=float)
        out["fov"] = np.array(o.getFieldOfView(), dtype=float)
    elif kind == "ori":
        out["cameraFromSpace"] = np.array(o.cameraFromSpace(camlib.SPACE.copy()), dtype=float)
        out["spaceFromCamera"] = np.array(o.spaceFromCamera(camlib.CAMPTS.copy()), dtype=float)
    else:
        o2 = camlib.ct.Camera(camlib.ct.RectilinearProjection(focallength_px=50, image=(60, 40)), lens=o)
        out["lens"] = np.array(o2.lens.distortedFromImage(camlib.IMG.copy()), dtype=float)
        out["lensinv"] = np.array(o2.lens.imageFromDistorted(camlib.IMG.copy()), dtype=float)
    return out


def load_elsewhere(arg):
    """in a pristine process: load the file into a new object and observe it"""
    kind, partkind, fn, how, level = arg
    if kind == "camera":
        if how == "load_camera":
            o = camlib.ct.load_camera(fn)
        else:
            o = camlib.build_live(dict(proj=["rect", dict(focallength_x_px=70, focallength_y_px=75, image_width_px=64, image_height_px=48, center_x_px=30)],
                                       ori=["hpr", dict(elevation_m=3, heading_deg=20)], lens=["brown", dict(k1=0.2)]))
            o.load(fn)
        return camlib.part_kinds(o), {n: float(getattr(o, n)) for n in o.parameters.parameters}, camlib.observe(o, level)
    o = camlib.build_part(kind, partkind, dict(focallength_x_px=70, focallength_y_px=75, image_width_px=64, image_height_px=48) if kind == "proj" else {})
    o.load(fn)
    return [type(o).__name__], {n: float(getattr(o, n)) for n in o.parameters.parameters}, observe_part(kind, o) if kind != "lens" else {}


def plain_values(rng, names, n, values=True):
    """some more assignments after construction"""
    out = {}
    for name in rng.sample(names, min(n, len(names))):
        if name in camlib.NO_DEFAULT or rng.random() < 0.7:
            out[name] = camlib.gen_value(rng, name)
        elif rng.random() < 0.5:
            v = camlib.gen_value(rng, name)
            out[name] = [v, 0.1]
        else:
            out[name] = None
    return out


def spec_names(kind, spec):
    part = lambda p: camlib.PROJ_PARAMS if p == "proj" else (camlib.ORI_PARAMS if p == "ori" else camlib.LENS_PARAMS)[spec[p][0]]
    if kind == "camera":
        return [n for p in history.PARTS for n in part(p)] + ["gps_lat", "gps_lon"]
    return list(part(kind))


class DiskWorld(World):
    def setup(self):
        camlib.setup()

    def execute(self, program, ctx):
        d = scratch_dir()
        pristine = Pristine(load_elsewhere)
        try:
            disk = SimDisk(d, ctx)
            disk.known = ("cam.json", "other.json", "sub/cam.json", "sub", ".", "link.json")
            try:
                self.run(program, ctx, disk, d, pristine)
                disk.check_internal()
            finally:
                disk.stop()
        finally:
            shutil.rmtree(d, ignore_errors=True)


class C06(DiskWorld):
    prop = "C06"

    def gen(self, rng, tier):
        kind = rng.choice(KINDS)
        spec = camlib.gen_spec(rng, lens=rng.choice(["brown", "abc"]) if kind == "lens" else None)
        names = spec_names(kind, spec)
        ops = []
        for _ in range(rng.randint(1, 4 if tier == "quick" else 8)):
            op = dict(op="save", values=plain_values(rng, names, rng.randint(0, 4)))
            if rng.random() < 0.85:
                op["fault"] = gen_fault(rng)
            elif rng.random() < 0.5:
                op["bad"] = [rng.choice([n for n in names if n != "focallength_px"]), rng.choice(["object", "complex", "set"])]
            if rng.random() < 0.3:
                op["fspath"] = rng.choice(["relative", "link", "pathlib"])
            ops.append(op)
        return dict(kind=kind, spec=spec, ops=ops, first=rng.random() < 0.85)

    def simplifications(self, program):
        for i, op in enumerate(program["ops"]):
            for k in ("fault", "fspath", "bad"):
                if k in op:
                    q = json.loads(json.dumps(program))
                    q["ops"][i].pop(k)
                    yield q
            for n in list(op["values"]):
                q = json.loads(json.dumps(program))
                q["ops"][i]["values"].pop(n)
                yield q

    def read(self, fn):
        try:
            with open(fn, "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return None

    def classify(self, data, allowed, kind, partkind, pristine, d):
        """is it the complete content of one of the allowed states (list of value tables)?"""
        fn = os.path.join(d, "inspect.json")
        with open(fn, "wb") as fp:
            fp.write(data)
        k, val = pristine.call((kind, partkind, fn, "load_camera", 0))
        os.remove(fn)
        if k != "ok":
            return "cannot be loaded (%s): %r" % (val.strip().splitlines()[-1], data[:60])
        for kinds, values in allowed:
            if val[0] == kinds and all(camlib.num_eq(val[1].get(n), v, 1e-12) for n, v in values.items() if n != "focallength_px"):
                return None
        return "holds other values: %r" % {n: v for n, v in val[1].items() if not camlib.num_eq(v, allowed[-1][1].get(n), 1e-12)}

    def run(self, program, ctx, disk, d, pristine):
        kind = program["kind"]
        o = Obj(kind, program["spec"])
        partkind = None if kind == "camera" else program["spec"][kind][0]
        fn = os.path.join(d, "cam.json")
        old = None
        old_state = None
        disk.busy = True
        if program["first"]:
            o.live.save(fn)
            old = self.read(fn)
            old_state = (o.want_kinds(), {n: v for n, v in o.values().items()})
        os.symlink("cam.json", os.path.join(d, "link.json"))
        disk.busy = False
        os.chdir(d)
        fired = 0
        for k, op in enumerate(program["ops"]):
            for n, v in op["values"].items():
                o.set(n, v)
            bad = op.get("bad")
            if bad:
                keep = (o.model.owner(bad[0]) if kind == "camera" else o.model).p[bad[0]][:]
                param = o.live.parameters.parameters[bad[0]]
                backup = param.value
                param.value = dict(object=object(), complex=1j, set={1, 2})[bad[1]]
            new_state = (o.want_kinds(), dict(o.values()))
            seen = {}

            def reader():
                b = self.read(fn)
                if b is None:
                    seen.setdefault(None, disk.calls)
                else:
                    seen.setdefault(b, disk.calls)

            disk.reset(op.get("fault"))
            disk.watch = reader
            target = dict(relative="cam.json", link=os.path.join(d, "link.json")).get(op.get("fspath"), fn)
            if op.get("fspath") == "pathlib":
                import pathlib
                target = pathlib.Path(fn)
            err = None
            try:
                o.live.save(target)
            except Exception as e:
                err = e
            disk.watch = None
            crashed = disk.frozen
            f = op.get("fault") or {}
            ctx.ev("save", k, type(err).__name__, disk.fired, disk.calls)
            ctx.state(kind, disk.fired, disk.log[disk.fault["at"] - 1] if disk.fired and disk.fault["at"] <= len(disk.log) else None, old is not None, op.get("fspath"))
            fired += disk.fired is not None
            calls = disk.calls
            power = crashed and f.get("kind") == "power" or (f.get("kind") == "power" and disk.fired is None)
            if power:
                disk.power_loss(f["keep_meta"], f["keep_data"])
            disk.check_internal()
            disk.reset()
            disk.busy = True
            now = self.read(fn)
            what = "save %d of a %s (%s%s%s)" % (k, kind, disk_fault(f, disk, calls), ", value that cannot be saved" if bad else "",
                                                 ", raised %s" % type(err).__name__ if err else ", returned normally")
            ctx.check()
            if bad and err is None:
                raise Violation("bad-value-accepted", "%s: no error for a parameter of type %s" % (what, bad[1]))
            # the file afterwards
            if now is None:
                if old is not None:
                    raise Violation("file-lost", "%s: the file is gone" % what)
                if err is None and not crashed and not power:
                    raise Violation("not-stored", "%s: there is no file" % what)
            elif now == old and old is not None:
                if err is None and not crashed and not power:
                    if not bad and not same_state(old_state, new_state):
                        raise Violation("not-stored", "%s: the file still has the old content" % what)
            else:
                why = self.classify(now, [new_state], kind, partkind, pristine, d)
                if why:
                    raise Violation("damaged-file", "%s: the file %s" % (what, why))
            # what a reader saw in between
            for b, at in seen.items():
                ctx.check()
                if b is None:
                    if old is not None:
                        raise Violation("reader-saw-no-file", "%s: at disk call %d a reader found no file" % (what, at))
                elif b != old:
                    why = self.classify(b, [new_state], kind, partkind, pristine, d)
                    if why:
                        raise Violation("reader-saw-partial-file", "%s: at disk call %d a reader found a file that %s" % (what, at, why))
            if bad:
                param.value = backup
                (o.model.owner(bad[0]) if kind == "camera" else o.model).p[bad[0]] = keep
            if now is not None and now != old:
                old, old_state = now, new_state
            elif now is not None and old_state is not None and same_state(old_state, new_state):
                pass
            disk.busy = False
        # once the faults stop, saving works
        disk.busy = True
        o.live.save(fn)
        now = self.read(fn)
        why = self.classify(now, [(o.want_kinds(), dict(o.values()))], kind, partkind, pristine, d)
        if why:
            raise Violation("damaged-file", "a save without faults afterwards: the file %s" % why)
        ctx.interesting = fired > 0
        ctx.ev("end", fired)


def same_state(a, b):
    return a is not None and a[0] == b[0] and all(camlib.num_eq(a[1][n], v, 1e-12) for n, v in b[1].items())


def disk_fault(f, disk, calls):
    if not f:
        return "no fault"
    return "%s at disk call %d of %d" % (f["kind"], f["at"], calls)


# ------------------------------------------------------------------------------------------------ C05 / C07
class CamObj(Obj):
    def __init__(self, spec, ctx, d):
        self.kind = "camera"
        self.sys = history.System(spec, ctx, d)

    live = property(lambda self: self.sys.cams[0], lambda self, v: self.sys.cams.__setitem__(0, v))
    model = property(lambda self: self.sys.models[0], lambda self, v: self.sys.models.__setitem__(0, v))

    def loaded_from(self, m):
        self.sys.models[0] = history.loaded_model(m)
        self.sys.traces.clear()


CAM_OPS = ["set", "set", "set", "default", "setfit", "setfit", "search", "sample", "mean", "rotate", "gps"]


def gen_update(rng, kind, spec, st):
    if kind == "camera":
        return dict(history.gen_op(rng, st, CAM_OPS), slot=None)
    return dict(op="values", values=plain_values(rng, spec_names(kind, spec), rng.randint(1, 3)), np=rng.random() < 0.3)


class LoadWorld(DiskWorld):
    """two objects of one kind and two files"""

    def objects(self, program, ctx, d):
        out = []
        for spec in program["specs"]:
            out.append(CamObj(spec, ctx, d) if program["kind"] == "camera" else Obj(program["kind"], spec))
        return out

    def update(self, o, op):
        if o.kind == "camera":
            o.sys.apply({k: v for k, v in op.items() if k != "slot"})
            return
        for n, v in op["values"].items():
            if op.get("np") and isinstance(v, (int, float)):
                setattr(o.live, n, np.float64(v))
                o.model.assign(n, v)
            else:
                o.set(n, v)

    def gen_specs(self, rng):
        kind = rng.choice(KINDS)
        lens = rng.choice(["brown", "abc"]) if kind == "lens" else None
        a = camlib.gen_spec(rng, lens=lens)
        if kind == "camera":
            b = camlib.gen_spec(rng)
        else:
            b = camlib.gen_spec(rng, proj=a["proj"][0], ori=a["ori"][0], lens=a["lens"][0])
        return kind, [a, b]

    def elsewhere(self, program, fn, m, o, pristine, where, ctx, how):
        kind = program["kind"]
        k, val = pristine.call((kind, None if kind == "camera" else m.kind, fn, how, 1))
        ctx.check()
        if k != "ok":
            raise Violation("cannot-load", "%s: loading in another process fails: %s" % (where, val.strip().splitlines()[-1]))
        want = history.loaded_model(m) if kind == "camera" else m
        kinds = camlib.model_kinds(m) if kind == "camera" else o.want_kinds()
        if val[0] != kinds:
            raise Violation("wrong-kind", "%s: loaded in another process the parts are %r, saved were %r" % (where, val[0], kinds))
        for n, v in want.effective().items():
            if n == "focallength_px":
                continue
            if not camlib.num_eq(val[1].get(n), v, 1e-12):
                raise Violation("parameter-value", "%s: %s loads as %r in another process, saved was %r" % (where, n, val[1].get(n), v))
        if kind == "camera":
            d = camlib.first_difference(val[2], camlib.observe(want.build(), 1))
            if d:
                raise Violation("stale-transform", "%s: loaded in another process %s" % (where, d))

    def shrink_lists(self, program):
        return [["ops"]]


class C05(LoadWorld):
    prop = "C05"

    def gen(self, rng, tier):
        kind, specs = self.gen_specs(rng)
        sts = [history.GenState(s) for s in specs]
        ops = []
        saved = set()
        content = {}
        for _ in range(rng.randint(3, 10 if tier == "quick" else 25)):
            r = rng.random()
            i = rng.randrange(2)
            if r < 0.4:
                if kind == "camera" and rng.random() < 0.25:
                    # an uncertain parameter whose sampled value is saved
                    t = ["c", 0]
                    sts[i].begin(rng)
                    attr, n = rng.choice([x for x in sts[i].names(t) if x[1] not in ("image_width_px", "image_height_px") and (not x[1].startswith("focal") or x[1] in sts[i].focal)])
                    v = camlib.gen_value(rng, n)
                    ops.append(dict(op="set", t=t, route=rng.choice(["cam", "params", "part"]), name=attr, value=[v, round(abs(v) * 0.05 + 0.01, 4)], slot=i))
                    ops.append(dict(op=rng.choice(["sample", "sample", "mean"]), t=t, seed=rng.randrange(1 << 31), slot=i))
                    if rng.random() < 0.5:
                        continue
                    f = rng.randrange(2)
                    ops.append(dict(op="save", slot=i, file=f))
                    saved.add(f)
                    content[f] = dict(sts[i].kinds[0])
                    ops.append(dict(op="elsewhere", file=f, how="load"))
                    continue
                ops.append(dict(gen_update(rng, kind, specs[i], sts[i]), slot=i))
            elif r < 0.7 or not saved:
                f = rng.randrange(2)
                op = dict(op="save", slot=i, file=f)
                if rng.random() < 0.3:
                    op["fault"] = gen_fault(rng, kinds=["EIO", "ENOSPC", "short", "torn", "full"])
                saved.add(f)
                content[f] = dict(sts[i].kinds[0])
                ops.append(op)
                if rng.random() < 0.5:
                    ops.append(dict(op="elsewhere", file=f, how=rng.choice(["load", "load_camera"])))
            else:
                f = rng.choice(sorted(saved))
                op = dict(op="load", slot=i, file=f, how=rng.choice(["load", "load", "load_camera"]) if kind == "camera" else "load")
                if rng.random() < 0.2:
                    op["fault"] = dict(at=rng.randint(1, 4), kind="short", frac=rng.random())
                sts[i].kinds[0] = dict(content[f])
                ops.append(op)
        return dict(kind=kind, specs=specs, ops=ops)

    def run(self, program, ctx, disk, d, pristine):
        files = [os.path.join(d, "cam.json"), os.path.join(d, "other.json")]
        objs = self.objects(program, ctx, d)
        content = {}
        loads = 0
        for k, op in enumerate(program["ops"]):
            where = "step %d (%s)" % (k, op["op"])
            o = objs[op["slot"]] if "slot" in op else None
            if op["op"] == "save":
                fn = files[op["file"]]
                disk.reset(op.get("fault"))
                try:
                    o.live.save(fn)
                except OSError:
                    if disk.fired is None:
                        raise
                    ctx.probe("save retried")
                    disk.reset()
                    o.live.save(fn)          # the retry
                disk.check_internal()
                disk.reset()
                content[op["file"]] = o.model.copy()
                ctx.ev("saved", k)
            elif op["op"] == "load":
                if op["file"] not in content:
                    continue
                fn = files[op["file"]]
                disk.reset(op.get("fault"))
                if op["how"] == "load_camera":
                    o.live = camlib.ct.load_camera(fn)
                else:
                    o.live.load(fn)
                disk.check_internal()
                disk.reset()
                o.loaded_from(content[op["file"]])
                o.check(where, ctx, 1)
                loads += 1
                ctx.ev("loaded", k)
            elif op["op"] == "elsewhere":
                if op["file"] in content:
                    self.elsewhere(program, files[op["file"]], content[op["file"]], objs[0], pristine, where, ctx, op["how"])
                    loads += 1
            else:
                self.update(o, op)
            ctx.state(program["kind"], op["op"], op.get("name"), op.get("how"), bool(op.get("fault")), o.want_kinds() if o else None)
        for i, o in enumerate(objs):
            o.check("object %d at the end" % i, ctx, 1)
        ctx.interesting = loads > 0
        ctx.ev("end", loads, [sorted((n, repr(float(v))) for n, v in o.values().items()) for o in objs])


class C07(LoadWorld):
    prop = "C07"

    def gen(self, rng, tier):
        kind, specs = self.gen_specs(rng)
        st = history.GenState(specs[0])
        ops = []
        for _ in range(rng.randint(2, 6 if tier == "quick" else 15)):
            r = rng.random()
            if r < 0.3:
                ops.append(dict(gen_update(rng, kind, specs[0], st), slot=0))
            elif r < 0.85:
                what = rng.choice(["missing", "empty", "truncated", "truncated", "truncated", "garbage", "readfail", "readfail", "openfail", "noperm", "short",
                                   "tail", "zeros", "hole"])
                op = dict(op="badload", what=what, at=round(rng.random(), 4), how=rng.choice(["load", "load", "load_camera"]) if kind == "camera" else "load")
                if what in ("readfail", "openfail"):
                    op["fault"] = dict(at=rng.randint(1, 4), kind=rng.choice(["EIO", "EACCES", "ENOMEM"]), frac=0, only=["read" if what == "readfail" else "open"])
                elif what == "short":
                    op["fault"] = dict(at=rng.randint(1, 4), kind="short", frac=rng.random())
                if what == "truncated" and rng.random() < 0.3:
                    op["line"] = True
                ops.append(op)
                if what == "short":
                    st.kinds[0] = {p: specs[1][p][0] for p in history.PARTS}
            else:
                ops.append(dict(op="goodload"))
                st.kinds[0] = {p: specs[1][p][0] for p in history.PARTS}
        return dict(kind=kind, specs=specs, ops=ops)

    def run(self, program, ctx, disk, d, pristine):
        fn = os.path.join(d, "cam.json")
        o, src = self.objects(program, ctx, d)
        disk.busy = True
        src.live.save(fn)
        intact = open(fn, "rb").read().rstrip()
        disk.busy = False
        failed = 0
        for k, op in enumerate(program["ops"]):
            disk.busy = True
            if os.path.exists(fn):
                os.remove(fn)
            data = intact
            what = op.get("what")
            if what == "empty":
                data = b""
            elif what == "truncated":
                cut = int(op["at"] * (len(intact) - 1))
                if op.get("line"):
                    cut = intact.rfind(b"\n", 0, cut) + 1
                data = intact[:min(cut, len(intact) - 1)]
            elif what == "garbage":
                data = bytes((b * 7 + 13) % 256 for b in intact)
            elif what == "tail":
                # the remains of a longer file after an overwrite in place
                data = intact + intact[min(int(op["at"] * len(intact)), len(intact) - 1):]
            elif what == "zeros":
                # the length reached the disk, the data did not
                cut = int(op["at"] * (len(intact) - 1))
                data = intact[:cut] + b"\0" * (len(intact) - cut)
            elif what == "hole":
                cut = int(op["at"] * (len(intact) - 1))
                n = min(len(intact) - cut, 1 + int(op["at"] * 997) % 64)
                data = intact[:cut] + b"\0" * n + intact[cut + n:]
            if what != "missing":
                with open(fn, "wb") as fp:
                    fp.write(data)
            disk.busy = False
            where = "step %d (%s %s)" % (k, op["op"], what or "")
            if op["op"] == "goodload":
                o.live.load(fn)
                o.loaded_from(src.model)
                o.check(where, ctx, 1)
                ctx.ev("loaded", k)
            elif op["op"] == "badload":
                disk.reset(op.get("fault") or (dict(at=1, kind="EACCES", frac=0, only=["open"]) if what == "noperm" else None))
                before = [id(x) for x in (o.live.projection, o.live.orientation, o.live.lens)] if o.kind == "camera" else []
                err = None
                try:
                    if op["how"] == "load_camera":
                        new = camlib.ct.load_camera(fn)
                    else:
                        o.live.load(fn)
                except Exception as e:
                    err = e
                fired = disk.fired
                disk.check_internal()
                disk.reset()
                ctx.check()
                if what == "short" or (what in ("readfail", "openfail") and not fired):
                    if err is not None:
                        raise Violation("intact-load-failed", "%s: loading an intact file%s raised %r" % (where, " through short reads" if what == "short" else "", err))
                    if op["how"] == "load_camera":
                        o.live = new
                    o.loaded_from(src.model)
                    o.check(where, ctx, 1)
                    ctx.ev("loaded", k)
                    continue
                if what not in ("readfail", "openfail", "noperm"):
                    ctx.fault("file " + what)
                if err is None:
                    raise Violation("load-accepted", "%s: no exception; file content %r" % (where, data[:40] if what != "missing" else None))
                failed += 1
                if o.kind == "camera" and before != [id(x) for x in (o.live.projection, o.live.orientation, o.live.lens)]:
                    raise Violation("parts-replaced", "%s: the failed load replaced parts of the camera" % where)
                o.check(where, ctx, 1)
                ctx.ev("refused", k, type(err).__name__)
            else:
                self.update(o, op)
            ctx.state(program["kind"], op["op"], what, int(op.get("at", 0) * 20), op.get("how"))
        disk.busy = True
        with open(fn, "wb") as fp:
            fp.write(intact)
        disk.busy = False
        o.live.load(fn)
        o.loaded_from(src.model)
        o.check("after the faults stopped", ctx, 1)
        ctx.interesting = failed > 0
        ctx.ev("end", failed)
