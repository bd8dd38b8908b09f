"""Applies operations (JSON dicts) to real cameras and to the reference table, and checks that the two agree.

A `System` is one camera, or a CameraGroup whose members share some parts.  Targets are ["c", i] (member i) or ["g"].
"""
import json
import math
import os

import numpy as np

from . import camlib
from .camlib import CamModel, PartModel, Violation, gen_value, gen_spec, typed, num_eq
from .kernel import HarnessError

PARTS = ("proj", "ori", "lens")


class SimAbort(Exception):
    """the failure injected into a log-probability"""


ABORTS = dict(SimAbort=SimAbort, KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, ValueError=ValueError,
              SystemExit=SystemExit)


def gen_group_spec(rng, n=None, same=False):
    """n members; each part is shared (one) or given as a list; same: some lists contain one part several times"""
    n = n or (rng.choice([2, 2, 3]) if rng.random() < 0.94 else rng.choice([4, 11, 12]))
    base = [gen_spec(rng) for _ in range(n)]
    out = dict(n=n)
    any_list = False
    for part in PARTS:
        shared = rng.random() < 0.45
        any_list = any_list or not shared
        out[part] = [base[0][part]] if shared else [b[part] for b in base]
        out[part + "_shared"] = shared
    if not any_list:
        part = rng.choice(PARTS)
        out[part] = [b[part] for b in base]
        out[part + "_shared"] = False
    if same:
        for part in PARTS:
            # the orientations of the first two differ (the terms which compare two views need that)
            fixed = 2 if part == "ori" else 1
            if not out[part + "_shared"] and n > fixed and rng.random() < 0.6:
                out[part + "_same"] = list(range(fixed))
                for i in range(fixed, n):
                    out[part + "_same"].append(rng.choice(sorted(set(out[part + "_same"]))) if rng.random() < 0.6 else i)
    return out


def same_part(spec, part, i):
    """index of the part which member i of the group has"""
    return 0 if spec[part + "_shared"] else spec[part + "_same"][i] if part + "_same" in spec else i


class System:
    def __init__(self, spec, ctx, scratch=None):
        ct = camlib.ct
        self.ctx = ctx
        self.scratch = scratch
        self.group = None
        self.traces = {}
        self.evaluations = 0
        if "n" in spec:
            live = {}
            pm = {}
            for part in PARTS:
                live[part] = [camlib.build_part(part, *s) for s in spec[part]]
                pm[part] = [PartModel(part, *s) for s in spec[part]]
                if part + "_same" in spec:
                    live[part] = [live[part][k] for k in spec[part + "_same"]]
            args = [live[p][0] if spec[p + "_shared"] else live[p] for p in PARTS]
            self.group = ct.CameraGroup(*args)
            self.shared = {p: spec[p + "_shared"] for p in PARTS}
            self.cams = list(self.group.cameras)
            if len(self.cams) != spec["n"] or len(self.group) != spec["n"]:
                raise Violation("group-size", "a group of %d cameras has %d members" % (spec["n"], len(self.cams)))
            self.models = [CamModel(*[pm[p][same_part(spec, p, i)] for p in PARTS]) for i in range(spec["n"])]
            self.part_lists = live
        else:
            self.cams = [camlib.build_live(spec)]
            self.models = [camlib.build_model(spec)]

    # ------------------------------------------------------------------------------------------- names
    def group_names(self):
        """group attribute -> (PartModel, name)"""
        out = {}
        for k, part in enumerate(PARTS):
            if self.shared[part]:
                pm = self.models[0].parts()[k]
                out.update({n: (pm, n) for n in pm.p})
            else:
                for i, m in enumerate(self.models):
                    pm = m.parts()[k]
                    out.update({"C%d_%s" % (i, n): (pm, n) for n in pm.p})
        return out

    def target(self, t):
        if t[0] == "p":
            return (self.cams[t[1]].projection, self.cams[t[1]].orientation)[PARTS.index(t[2])]
        return self.group if t[0] == "g" else self.cams[t[1]]

    def resolve(self, t, name):
        """-> (PartModel, plain name)"""
        if t[0] == "g":
            return self.group_names()[name]
        m = self.models[t[1]]
        if t[0] == "p":
            pm = m.parts()[PARTS.index(t[2])]
            if name not in pm.p:
                raise KeyError(name)
            return pm, name
        return m.owner(name), name

    def names(self, t):
        if t[0] == "p":
            return list(self.models[t[1]].parts()[PARTS.index(t[2])].p)
        return list(self.group_names()) if t[0] == "g" else self.models[t[1]].names()

    def part_object(self, i, pm):
        k = [x is pm for x in self.models[i].parts()].index(True)
        cam = self.cams[i]
        return (cam.projection, cam.orientation, cam.lens, cam)[k]

    def route_object(self, t, route, name):
        o = self.target(t)
        if route == "cam":
            return o
        if route == "params":
            return o.parameters
        if t[0] == "g":
            return o
        part = self.part_object(t[1], self.resolve(t, name)[0])
        return part if route == "part" else part.parameters

    # ------------------------------------------------------------------------------------------- operations
    def apply(self, op):
        self.ctx.ev("op", op["op"], json.dumps(op, sort_keys=True))
        if not self.applicable(op):           # e.g. a parameter of a lens which this camera does not have (any more)
            self.ctx.ev("not applicable")
            return
        getattr(self, "op_" + op["op"])(op)

    def applicable(self, op):
        if "t" not in op:
            return True
        have = set(self.names(op["t"]))
        need = set(filter(None, [op.get("name")])) | set(op.get("names", ()))
        if op["op"] == "setfit":
            need |= set(op["values"])
        elif op["op"] == "search":
            need |= {p["name"] for p in op["params"]}
        elif op["op"] == "rotate":
            need.add("heading_deg")
        elif op["op"] == "partload":
            pm = self.models[op["t"][1]].parts()[PARTS.index(op["part"])]
            need |= set(op["values"])
            have = set(pm.p)
        return need <= have

    def op_nop(self, op):
        pass

    def op_set(self, op):
        v = op["value"]
        v = tuple(v) if isinstance(v, list) else typed(v, op.get("type"))
        pm, n = self.resolve(op["t"], op["name"])
        setattr(self.route_object(op["t"], op["route"], op["name"]), op["name"], v)
        pm.assign(n, tuple(camlib.model_value(x) for x in v) if isinstance(v, tuple) else camlib.model_value(v))

    def op_default(self, op):
        pm, n = self.resolve(op["t"], op["name"])
        o = self.route_object(op["t"], op["route"], op["name"])
        setattr(o.defaults, op["name"], op["value"])
        pm.set_default(n, op["value"])

    def op_setfit(self, op):
        o = self.target(op["t"])
        d = op["values"]
        if op["mode"] == "dict":
            o.parameters.set_fit_parameters(dict(d))
        elif op["mode"] == "array":
            o.parameters.set_fit_parameters(list(d), np.array(list(d.values())))
        else:
            o.parameters.set_fit_parameters(list(d), list(d.values()))
        self.model_setfit(op["t"], d)

    def model_setfit(self, t, d):
        """all values first, then what depends on them"""
        done = []
        for name, v in d.items():
            try:
                pm, n = self.resolve(t, name)
            except KeyError:
                continue
            pm.p[n][0] = camlib.model_value(v)
            done.append((pm, n))
        for pm, n in done:
            pm._fan_out(n)
        for pm, n in done:
            pm.normalise()

    def op_rotate(self, op):
        i = op["t"][1]
        m = self.models[i]
        cam = self.cams[i]
        h, x, y = (float(m.eff(n)) for n in ("heading_deg", "pos_x_m", "pos_y_m"))
        cam.rotateSpace(op["delta"])
        a = np.deg2rad(op["delta"])
        m.ori.assign("heading_deg", h + op["delta"])
        m.ori.assign("pos_x_m", float(np.cos(a) * x + np.sin(a) * y))
        m.ori.assign("pos_y_m", float(-np.sin(a) * x + np.cos(a) * y))
        for n in ("heading_deg", "pos_x_m", "pos_y_m"):
            got = getattr(cam, n)
            if not num_eq(got, m.eff(n), 1e-9):
                raise Violation("parameter-value", "after rotateSpace(%r) %s is %r, should be %r" % (op["delta"], n, got, m.eff(n)))
            m.ori.p[n][0] = camlib.model_value(got)

    def op_scale(self, op):
        self.group.scaleSpace(op["factor"])
        done = []
        for m in self.models:
            if any(m.ori is o for o in done):
                continue
            done.append(m.ori)
            for n in ("pos_x_m", "pos_y_m", "elevation_m"):
                m.ori.assign(n, float(m.eff(n)) * op["factor"])

    def op_correspond(self, op):
        """the orientation of the second camera from corresponding points (real OpenCV), the first looks straight down"""
        if not all("heading_deg" in self.models[i].ori.p for i in (0, 1)):
            self.ctx.ev("not applicable")
            return
        import cv2
        cv2.setRNGSeed(op["seed"] % 1000)
        try:
            self.group.setCameraParametersByPointCorrespondence(np.array(op["c1"]), np.array(op["c2"]), op["baseline"])
        except (cv2.error, ValueError, TypeError, AttributeError) as e:
            self.ctx.probe("correspondence fails " + type(e).__name__)
        else:
            names = ("roll_deg", "tilt_deg", "heading_deg", "pos_x_m", "pos_y_m", "elevation_m")
            for n in names[:3]:
                self.models[0].ori.assign(n, 0)
            pos = [float(self.models[0].eff(n)) for n in names[3:]]
            got = {n: float(getattr(self.cams[1], n)) for n in names}
            away = math.sqrt(sum((got[n] - x) ** 2 for n, x in zip(names[3:], pos)))
            if not num_eq(away, op["baseline"], 1e-6):
                raise Violation("wrong-baseline", "the second camera is %r m away from the first, the baseline is %r" % (away, op["baseline"]))
            self.model_setfit(["c", 1], got)
            self.ctx.probe("orientation from correspondences")

    def op_gps(self, op):
        i = op["t"][1]
        cam, m = self.cams[i], self.models[i]
        lat, lon, el = op["lat"], op["lon"], op["elev"]
        form = op["form"]
        if form == "num":
            cam.setGPSpos(lat, lon) if el is None else cam.setGPSpos(lat, lon, el)
        elif form == "tuple":
            cam.setGPSpos((lat, lon)) if el is None else cam.setGPSpos((lat, lon), elevation=el)
        elif form == "tuple3":
            el = 17.5 if el is None else el
            cam.setGPSpos((lat, lon, el))
        elif form == "string":
            s = "%.5f° %s, %.5f° %s" % (abs(lat), "S" if lat < 0 else "N", abs(lon), "W" if lon < 0 else "E")
            cam.setGPSpos(s) if el is None else cam.setGPSpos(s, elevation=el)
        m.gps.assign("gps_lat", lat)
        m.gps.assign("gps_lon", lon)
        if el is not None:
            m.ori.assign("elevation_m", el)
        for n in ("gps_lat", "gps_lon"):
            got = getattr(cam, n)
            if not num_eq(got, m.eff(n), 1e-9):
                raise Violation("parameter-value", "after setGPSpos (%s) %s is %r, should be %r" % (form, n, got, m.eff(n)))
            m.gps.p[n][0] = float(got)

    # --- searches
    def landscape(self, t, land, abort_at=None, exc=None, every=0, level=0, offset=0.0):
        """quadratic log-probability over some parameters, evaluated through the camera itself"""
        o = self.target(t)
        self.evaluations = 0
        self.eval_log = []

        def logprob():
            self.evaluations += 1
            pos = {n: float(getattr(o, n)) for n in land}
            self.eval_log.append(pos)
            if abort_at is not None and self.evaluations == abort_at:
                self.ctx.fault("abort:" + exc)
                raise ABORTS[exc]("injected")
            if every and self.evaluations % every == 0:
                self.check_live(t, "inside evaluation %d of a search" % self.evaluations, list(land), level)
            return offset - sum(((pos[n] - c) / s) ** 2 for n, (c, s) in land.items())

        return logprob

    @staticmethod
    def land_value(land, pos):
        return -sum(((pos[n] - c) / s) ** 2 for n, (c, s) in land.items())

    def check_live(self, t, where, names, level):
        """during a search: the camera is coherent with the values it holds now"""
        for i, (cam, m) in enumerate(zip(self.cams, self.models)):
            q = m.copy()
            for p, src in zip(q.parts(), m.parts()):
                for n in p.p:
                    p.p[n][0] = camlib.model_value(getattr(cam, n))
            camlib.check_twin(cam, q, "%s, camera %d" % (where, i), self.ctx, level)

    def fit_parameters(self, params):
        ct = camlib.ct
        out = []
        for p in params:
            if p.get("dist") == "normal":
                import scipy.stats
                out.append(ct.FitParameter(p["name"], distribution=scipy.stats.norm(p["value"], p["step"]), value=p["value"], step=p["step"]))
            elif p.get("dist") == "meanstd":
                out.append(ct.FitParameter(p["name"], mean=p["value"], std=p["step"], value=p["value"], step=p["step"]))
            else:
                out.append(ct.FitParameter(p["name"], lower=p["lower"], upper=p["upper"], value=p["value"], step=p["step"]))
        return out

    def op_search(self, op):
        """fit or metropolis; may be cut short by an exception of the log-probability"""
        t, o = op["t"], self.target(op["t"])
        land = {n: tuple(v) for n, v in op["land"].items()}
        f = self.landscape(t, land, op.get("abort_at"), op.get("exc"), op.get("every", 0), op.get("level", 0))
        o.addCustomoLogProbability(f)
        before = o.parameters.trace
        names = [p["name"] for p in op["params"]]
        if op.get("seed") is not None:
            np.random.seed(op["seed"])
        try:
            if op["kind"] == "fit":
                kw = dict(method=op["method"]) if op.get("method") else {}
                res = o.fit(self.fit_parameters(op["params"]), options=dict(maxiter=op["iterations"]), **kw)
                d = dict(zip(names, res["x"]))
                self.last = dict(result=res, values=d)
                for n in names:
                    if not self._is_row(t, o, n, d[n]):
                        raise Violation("not-the-optimum", "after fit %s is %r, the returned optimum has %r" % (n, getattr(o, n), d[n]))
                start, end = self.land_value(land, self.eval_log[0]), self.land_value(land, {n: float(getattr(o, n)) for n in land})
                if not end >= start - 1e-9 * max(1, abs(start)):
                    raise Violation("worse-than-start", "fit ended at log-probability %r, it started at %r" % (end, start))
            else:
                res = o.metropolis(self.fit_parameters(op["params"]), step=op.get("step", 1), iterations=op["iterations"],
                                   burn=op.get("burn", 0.1), disable_bar=True, print_trace=False)
                self.traces[json.dumps(t)] = [res[n].tolist() for n in names], res["probability"].tolist(), names
                d = self.most_probable(t, o, self.traces[json.dumps(t)])
                self.last = dict(result=res, values=d)
            self.ctx.probe("search:" + op["kind"])
            aborted = False
        except tuple(ABORTS.values()) as e:
            if op.get("abort_at") is None or self.evaluations != op["abort_at"]:
                raise
            if type(e).__name__ != op["exc"]:
                raise Violation("wrong-exception", "an evaluation raised %s, the search raised %r" % (op["exc"], e))
            aborted = True
            self.ctx.probe("search aborted:" + op["kind"])
            if o.parameters.trace is not before:
                raise Violation("trace-changed", "an aborted %s changed the trace" % op["kind"])
            d = {n: float(getattr(o, n)) for n in names}
            if not any(all(num_eq(pos.get(n, d[n]), d[n]) for n in names) for pos in self.eval_log):
                raise Violation("not-an-evaluated-position", "after an aborted %s the camera holds %r, which was never evaluated" % (op["kind"], d))
        finally:
            o.clearLogProbability()
        if not aborted and op.get("abort_at") is not None and self.evaluations >= op["abort_at"]:
            raise Violation("exception-swallowed", "the %s raised at evaluation %d, the search returned normally" % (op["exc"], op["abort_at"]))
        self.model_setfit(t, d)

    def most_probable(self, t, o, tr):
        """the most probable row of the trace (if several are, the one the camera holds)"""
        cols, prob, names = tr
        best = np.flatnonzero(np.asarray(prob) == np.nanmax(prob))
        for b in best:
            if all(self._is_row(t, o, n, c[b]) for n, c in zip(names, cols)):
                return {n: c[b] for n, c in zip(names, cols)}
        raise Violation("not-the-most-probable", "the camera holds %r, the most probable row of the trace is %r" % (
            {n: getattr(o, n, None) for n in names}, {n: c[best[0]] for n, c in zip(names, cols)}))

    def op_settrace(self, op):
        import pandas as pd
        t, o = op["t"], self.target(op["t"])
        if op["rows"] is None:
            o.set_trace(None)
            self.traces.pop(json.dumps(t), None)
            return
        names = op["names"]
        df = pd.DataFrame(op["rows"], columns=names + ["probability"])
        if op.get("index") == "shifted":
            df.index = np.arange(len(df)) + 1000
        elif op.get("index") == "duplicate":
            df.index = [0] * len(df)
        o.set_trace(df)
        self.traces[json.dumps(t)] = [df[n].tolist() for n in names], df["probability"].tolist(), names

    def op_sample(self, op):
        t, o = op["t"], self.target(op["t"])
        np.random.seed(op["seed"])
        tr = self.traces.get(json.dumps(t))
        ret = o.sample()
        if tr is not None:
            cols, prob, names = tr
            self.ctx.probe("sample from a trace")
            rows = [r for r in range(len(prob)) if all(self._is_row(t, o, n, c[r]) for n, c in zip(names, cols))]
            if not rows:
                raise Violation("not-a-trace-row", "sample() left %r, which is no row of the trace" % {n: getattr(o, n) for n in names})
            if not any(num_eq(ret, prob[r]) for r in rows):
                raise Violation("wrong-probability", "sample() returned %r, the row has %r" % (ret, [prob[r] for r in rows]))
            self.model_setfit(t, {n: c[rows[0]] for n, c in zip(names, cols)})
            return
        self.ctx.probe("sample of uncertain parameters")
        done = set()
        adopt = []
        for name in self.names(t):
            pm, n = self.resolve(t, name)
            if (id(pm), n) in done:
                continue
            done.add((id(pm), n))
            if pm.p[n][2] is not None:
                adopt.append((pm, n, getattr(o, name)))
        for pm, n, v in adopt:
            mean, std = pm.p[n][2], pm.p[n][3]
            wraps = pm.what == "ori" and n == camlib.WRAP[pm.kind]
            if not wraps and not abs(v - mean) <= 9 * std:
                raise Violation("not-a-sample", "%s is %r after sample(), given as %r +- %r" % (n, v, mean, std))
            pm.p[n][0] = camlib.model_value(v)
        for pm, n, v in adopt:
            pm._fan_out(n)
        for pm, n, v in adopt:
            pm.normalise()
        self.sampled = adopt

    def _is_row(self, t, o, name, v):
        try:
            pm, n = self.resolve(t, name)
        except KeyError:
            return True          # a column that is no parameter of this camera
        if pm.what == "ori" and n == camlib.WRAP[pm.kind] and (v < -360 or v > 360):
            v = v % 360
        return num_eq(getattr(o, name), v, 1e-12)

    def op_mean(self, op):
        t, o = op["t"], self.target(op["t"])
        tr = self.traces.get(json.dumps(t))
        o.set_to_mean()
        if tr is not None:
            self.model_setfit(t, self.most_probable(t, o, tr))
            return
        done = set()
        parts = []
        for name in self.names(t):
            pm, n = self.resolve(t, name)
            if id(pm) not in done:
                done.add(id(pm))
                parts.append(pm)
        for pm in parts:
            pm.set_to_mean()

    # --- files
    def path(self, name):
        return os.path.join(self.scratch, name)

    def op_load(self, op):
        """load a camera file which another camera wrote; fault: None, "missing", "truncated", "wrong"""
        i = op["t"][1]
        cam = self.cams[i]
        src, srcm = camlib.build_live(op["spec"]), camlib.build_model(op["spec"])
        for n, v in op.get("more", {}).items():
            v = tuple(v) if isinstance(v, list) else v
            setattr(src, n, v)
            srcm.owner(n).assign(n, v)
        fn = self.path("cam.json")
        src.save(fn)
        fault = op.get("fault")
        if fault == "missing":
            os.remove(fn)
        elif fault == "truncated":
            data = open(fn).read()
            open(fn, "w").write(data[:int(op["at"] * (len(data) - 1))])
        elif fault == "wrong":
            open(fn, "w").write("[1, 2, 3]")
        if fault:
            self.ctx.fault("load:" + fault)
            try:
                cam.load(fn)
            except Exception:
                return
            raise Violation("load-accepted", "loading a %s file raised nothing" % fault)
        cam.load(fn)
        self.traces.pop(json.dumps(op["t"]), None)
        self.models[i] = loaded_model(srcm)
        if camlib.part_kinds(cam) != camlib.model_kinds(self.models[i]):
            raise Violation("wrong-kind", "loaded parts %r, saved parts %r" % (camlib.part_kinds(cam), camlib.model_kinds(self.models[i])))

    def op_partload(self, op):
        """load the projection, orientation or (stand-alone) lens from a file of the same kind"""
        i = op["t"][1]
        k = PARTS.index(op["part"])
        pm = self.models[i].parts()[k]
        src = PartModel(op["part"], pm.kind, op["values"])
        fn = self.path("part.json")
        camlib.build_part(op["part"], pm.kind, op["values"]).save(fn)
        self.part_object(i, pm).load(fn)
        for n in pm.p:
            v = src.eff(n)
            pm.p[n][0], pm.p[n][2] = v, None
        pm.normalise()

    def op_bad(self, op):
        """a call that is refused; nothing may change"""
        cam = self.cams[op["t"][1]]
        self.ctx.fault("refused call:" + op["kind"])
        try:
            if op["kind"] == "shape":
                cam.imageFromSpace(np.zeros((3, 2)))
            elif op["kind"] == "shape2":
                cam.spaceFromImage(np.zeros((3, 3)))
            elif op["kind"] == "gps":
                cam.setGPSpos("no position")
            elif op["kind"] == "size":
                cam.undistortImage(np.zeros((5, 5), dtype="uint8"))
            elif op["kind"] == "topsize":
                cam.getTopViewOfImage(np.zeros((5, 5), dtype="uint8"), extent=[-5, 5, 5, 15], scaling=1)
            elif op["kind"] == "save":
                cam.save(self.path("no/such/directory/cam.json"))
        except Exception:
            return

    def op_use(self, op):
        """the camera is used (whatever it caches is filled)"""
        for cam in self.cams:
            camlib.observe(cam, op.get("level", 1))

    # ------------------------------------------------------------------------------------------- checks
    def check(self, where, level, pristine=None, rtol=1e-6, route="ctor"):
        for i, (cam, m) in enumerate(zip(self.cams, self.models)):
            w = "%s, camera %d" % (where, i) if len(self.cams) > 1 else where
            camlib.check_params(cam, m, w, self.ctx)
            camlib.check_twin(cam, m, w, self.ctx, level, rtol, route)
            if pristine is not None:
                kind, val = pristine.call((m.spec(), level))
                if kind != "ok":
                    raise Violation("fresh-camera-fails", "%s: building a camera with the same values in a fresh process fails: %s" % (w, val[-300:]))
                d = camlib.first_difference(camlib.observe(cam, level), val, rtol, rtol)
                if d:
                    raise Violation("stale-transform", "%s (fresh process): %s" % (w, d))
        if self.group is not None:
            self.ctx.check()
            for name, (pm, n) in self.group_names().items():
                for r, o in (("group", self.group), ("group.parameters", self.group.parameters)):
                    got = getattr(o, name)
                    if not num_eq(got, pm.eff(n), 1e-12):
                        raise Violation("parameter-value", "%s: %s.%s reads %r, should be %r" % (where, r, name, got, pm.eff(n)))
            if level:
                self.check_group(where)

    def check_group(self, where):
        """the measurements with two cameras are those of a group which shares nothing, but has the same values"""
        self.ctx.check()
        built = [m.build() for m in self.models]
        ref = camlib.ct.CameraGroup([c.projection for c in built], [c.orientation for c in built], [c.lens for c in built])
        for i, c in enumerate(self.cams):
            if self.group[i] is not c:
                raise Violation("member-replaced", "%s: member %d of the group is another camera" % (where, i))
        d = camlib.first_difference(camlib.observe_group(self.group), camlib.observe_group(ref))
        if d:
            raise Violation("stale-group", "%s: %s" % (where, d))


def loaded_model(m):
    """what a camera loaded from a file of this camera should be: the effective values, nothing uncertain"""
    q = m.copy()
    for p in q.parts():
        fresh = PartModel(p.what, p.kind, {n: m.eff(n) for n in p.p})
        p.p = {n: [m.eff(n), fresh.p[n][1], None, None] for n in p.p}
    q.proj.p["focallength_px"][0] = q.proj.p["focallength_x_px"][0]
    return q


# ------------------------------------------------------------------------------------------------ generation
class GenState:
    """what the generator needs to know about the history so far (kinds of parts, which names exist)"""

    def __init__(self, spec):
        self.spec = spec
        if "n" in spec:
            self.n = spec["n"]
            self.kinds = [{p: spec[p][same_part(spec, p, i)][0] for p in PARTS} for i in range(self.n)]
            self.shared = {p: spec[p + "_shared"] for p in PARTS}
        else:
            self.n = 1
            self.kinds = [{p: spec[p][0] for p in PARTS}]
            self.shared = None
        self.focal = None          # which focal lengths may be uncertain in this history: the common one or those in x and y
        self.hot = None            # the few parameters this history is mostly about (None: any)
        self.seen = {}             # plain name -> values used before (assigning an old value again is a case of its own)
        self.pairs = {}            # the same for (mean, std)
        for p in PARTS:
            for part in (spec[p] if "n" in spec else [spec[p]]):
                for n, v in part[1].items():
                    if v is not None:
                        self.seen.setdefault(n, []).append(v)

    def begin(self, rng):
        if self.focal is not None:
            return
        self.focal = rng.choice([("focallength_px",), ("focallength_x_px", "focallength_y_px")])
        if rng.random() < 0.5:
            plain = sorted({n for i in range(self.n) for p in PARTS for n in self.part_names(i, p)})
            self.hot = rng.sample(plain, rng.randint(1, 3))
            if rng.random() < 0.6:
                self.hot.append(rng.choice(["tilt_deg", "heading_deg", "pitch_deg", "elevation_m", "roll_deg"]))

    def narrow(self, rng, pool):
        if self.hot is None or rng.random() < 0.15:
            return pool
        return [x for x in pool if x[1] in self.hot] or pool

    def value(self, rng, n):
        old = self.seen.setdefault(n, [])
        if rng.random() < 0.3:
            pool = old + ([camlib.DEFAULTS[n]] if n in camlib.DEFAULTS and n != "elevation_m" else [])
            if pool:
                return rng.choice(pool)
        v = gen_value(rng, n)
        old.append(v)
        del old[:-4]
        return v

    def pair(self, rng, n):
        old = self.pairs.setdefault(n, [])
        if old and rng.random() < 0.5:
            v, std = rng.choice(old)
            return [v, std if rng.random() < 0.7 else round(std * 2, 4)]
        v = self.value(rng, n)
        old.append([v, round(abs(v) * 0.03 + 0.01, 4)])
        del old[:-3]
        return list(old[-1])

    def part_names(self, i, part):
        k = self.kinds[i][part]
        return camlib.PROJ_PARAMS if part == "proj" else camlib.ORI_PARAMS[k] if part == "ori" else camlib.LENS_PARAMS[k]

    def names(self, t, gps=True):
        """[(attribute name, plain name)]"""
        out = []
        if t[0] == "g":
            for part in PARTS:
                if self.shared[part]:
                    out += [(n, n) for n in self.part_names(0, part)]
                else:
                    for i in range(self.n):
                        # one name for each parameter
                        if same_part(self.spec, part, i) == i:
                            out += [("C%d_%s" % (i, n), n) for n in self.part_names(i, part)]
        else:
            for part in PARTS:
                out += [(n, n) for n in self.part_names(t[1], part)]
            if gps:
                out += [("gps_lat", "gps_lat"), ("gps_lon", "gps_lon")]
        return out

    def pick_target(self, rng, group=0.45):
        if self.shared is not None and rng.random() < group:
            return ["g"]
        return ["c", rng.randrange(self.n)]

    def weighted(self, rng, names):
        # image size and the rarely used ones less often
        pool = [x for x in names if x[1] not in ("image_width_px", "image_height_px") or rng.random() < 0.3]
        return rng.choice(pool or names)


TYPES = [None, None, None, "f64", "int", "i64"]
# parameters whose steep effect makes them unfit for random distances in searches
FITABLE = {"elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m", "yaw_deg", "pitch_deg", "k1", "k2", "a", "b",
           "center_x_px", "center_y_px", "focallength_px", "focallength_x_px", "focallength_y_px", "gps_lat"}
BOUNDS = dict(elevation_m=(0, 600), tilt_deg=(-90, 130), roll_deg=(-180, 180), heading_deg=(-360, 360), pos_x_m=(-60, 60), pos_y_m=(-60, 60),
              yaw_deg=(-200, 200), pitch_deg=(-360, 360), k1=(-0.1, 0.4), k2=(-0.1, 0.4), a=(-0.1, 0.4), b=(-0.1, 0.4), center_x_px=(0, 96),
              center_y_px=(0, 72), focallength_px=(10, 400), focallength_x_px=(10, 400), focallength_y_px=(10, 400), gps_lat=(-80, 80))


def gen_params(rng, st, t, most=3):
    """fit parameters (with bounds or not), and the landscape over them"""
    pool = st.narrow(rng, [x for x in st.names(t) if x[1] in FITABLE])
    rng.shuffle(pool)
    chosen = []
    for x in pool[:rng.randint(1, most)]:
        plain = {c[1] for c in chosen}
        if x[1] == "focallength_px" and plain & {"focallength_x_px", "focallength_y_px"}:
            continue
        if x[1] in ("focallength_x_px", "focallength_y_px") and "focallength_px" in plain:
            continue
        chosen.append(x)
    params, land = [], {}
    for attr, n in chosen:
        lo, hi = BOUNDS[n]
        v = gen_value(rng, n)
        v = min(max(v, lo), hi)
        kind = rng.random()
        p = dict(name=attr, value=float(v), step=round((hi - lo) / rng.choice([10, 50, 200]), 4))
        if kind < 0.7:
            p.update(lower=lo, upper=hi)
        else:
            p.update(dist="normal" if kind < 0.85 else "meanstd")
        params.append(p)
        land[attr] = [float(min(max(gen_value(rng, n), lo), hi)), round((hi - lo) / 6, 4)]
    return params, land


def gen_op(rng, st, allow):
    """one operation of the given kinds"""
    st.begin(rng)
    kind = rng.choice(allow)
    t = st.pick_target(rng)
    if kind == "set":
        attr, n = st.weighted(rng, st.narrow(rng, st.names(t)))
        r = rng.random()
        routes = ["cam", "params"] if t[0] == "g" else ["cam", "cam", "params", "part", "partparams"]
        route = rng.choice(routes)
        op = dict(op="set", t=t, route=route, name=attr)
        if n in ("gps_lat", "gps_lon"):
            op["value"] = gen_value(rng, n)
        elif n in camlib.WRAPPING and r < 0.3:
            op["value"] = round(rng.choice([-1, 1]) * rng.uniform(361, 2000), 2)
        elif r < 0.2 and n not in camlib.NO_DEFAULT:
            op["value"] = None
        elif r < 0.4 and n not in ("image_width_px", "image_height_px") and (not n.startswith("focal") or n in st.focal):
            op["value"] = st.pair(rng, n)
        else:
            op["value"] = st.value(rng, n)
            op["type"] = rng.choice(TYPES)
            if n in ("k1", "k2", "k3", "a", "b", "c") and op["type"] in ("int", "i64"):
                op["type"] = None
        return op
    if kind == "default":
        pool = [x for x in st.names(t) if x[1] not in camlib.NO_DEFAULT and x[1] not in ("gps_lat", "gps_lon")]
        attr, n = rng.choice(st.narrow(rng, pool))
        v = st.value(rng, n)
        return dict(op="default", t=t, route=rng.choice(["cam", "params"] if t[0] == "g" else ["cam", "params", "part", "partparams"]), name=attr, value=v)
    if kind == "setfit":
        pool = list(st.narrow(rng, st.names(t)))
        rng.shuffle(pool)
        vals = {}
        plain = []
        for attr, n in pool[:rng.randint(1, 5)]:
            if n == "focallength_px" and ("focallength_x_px" in plain or "focallength_y_px" in plain):
                continue
            if n in ("focallength_x_px", "focallength_y_px") and "focallength_px" in plain:
                continue
            vals[attr] = st.value(rng, n) if n not in camlib.WRAPPING or rng.random() < 0.6 else round(rng.choice([-1, 1]) * rng.uniform(361, 1500), 2)
            plain.append(n)
        return dict(op="setfit", t=t, mode=rng.choice(["dict", "list", "array"]), values=vals)
    if kind == "rotate":
        c = [i for i in range(st.n) if st.kinds[i]["ori"] == "hpr"]
        if not c:
            return gen_op(rng, st, ["set"])
        return dict(op="rotate", t=["c", rng.choice(c)], delta=round(rng.choice([rng.uniform(-180, 180), rng.uniform(-1000, 1000)]), 2))
    if kind == "gps":
        return dict(op="gps", t=["c", rng.randrange(st.n)], form=rng.choice(["num", "tuple", "tuple3", "string"]), lat=camlib.gen_round_value(rng, "gps_lat"),
                    lon=camlib.gen_round_value(rng, "gps_lon"), elev=rng.choice([None, round(rng.uniform(1, 90), 1), round(rng.uniform(1, 90), 1), 0, 0.0]))
    if kind == "search":
        params, land = gen_params(rng, st, t)
        what = rng.choice(["fit", "metropolis"])
        op = dict(op="search", t=t, kind=what, params=params, land=land, iterations=rng.choice([3, 8, 20]) if what == "fit" else rng.choice([25, 40, 120]),
                  seed=rng.randrange(1 << 31), every=rng.choice([0, 0, 7, 13]))
        if what == "fit":
            op["method"] = rng.choice([None, None, "Nelder-Mead"])
        else:
            op["burn"] = rng.choice([0.1, 0, 5, 0.5])
            op["step"] = rng.choice([1, 0.2, 3])
        if rng.random() < 0.35:
            op["abort_at"] = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 30)])
            op["exc"] = rng.choice(sorted(ABORTS))
        return op
    if kind in ("sample", "mean"):
        return dict(op=kind, t=t, seed=rng.randrange(1 << 31))
    if kind == "settrace":
        if rng.random() < 0.4:
            return dict(op="settrace", t=t, rows=None)
        pool = st.narrow(rng, [x for x in st.names(t) if x[1] in FITABLE])
        rng.shuffle(pool)
        chosen = []
        for x in pool[:rng.randint(1, 3)]:
            plain = {c[1] for c in chosen}
            if x[1] == "focallength_px" and plain & {"focallength_x_px", "focallength_y_px"}:
                continue
            if x[1] in ("focallength_x_px", "focallength_y_px") and "focallength_px" in plain:
                continue
            chosen.append(x)
        rows = [[gen_value(rng, n) for _, n in chosen] + [round(rng.uniform(-50, 0), 3)] for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.3 and len(rows) > 1:
            rows[rng.randrange(1, len(rows))][-1] = rng.choice([float("-inf"), rows[0][-1]])
        return dict(op="settrace", t=t, names=[a for a, _ in chosen], rows=rows, index=rng.choice(["plain", "shifted", "duplicate"]))
    if kind == "load":
        i = rng.randrange(st.n)
        spec = gen_spec(rng)
        op = dict(op="load", t=["c", i], spec=spec)
        if rng.random() < 0.4:
            op["fault"] = rng.choice(["missing", "truncated", "truncated", "wrong"])
            op["at"] = rng.random()
        else:
            st.kinds[i] = {p: spec[p][0] for p in PARTS}
        return op
    if kind == "partload":
        i = rng.randrange(st.n)
        part = rng.choice(["proj", "ori"])
        spec = gen_spec(rng, proj=st.kinds[i]["proj"], ori=st.kinds[i]["ori"], lens=st.kinds[i]["lens"])
        return dict(op="partload", t=["c", i], part=part, values=spec[part][1])
    if kind == "bad":
        return dict(op="bad", t=["c", rng.randrange(st.n)], kind=rng.choice(["shape", "shape2", "gps", "size", "topsize", "save"]))
    if kind == "scale":
        if st.shared is None:
            return gen_op(rng, st, ["set"])
        return dict(op="scale", factor=round(rng.uniform(0.3, 3), 3))
    if kind == "correspond":
        if st.shared is None or st.n < 2 or any(st.kinds[i]["ori"] != "hpr" for i in (0, 1)):
            return gen_op(rng, st, ["set"])
        # points in front of two cameras which are moved and turned a little
        a = rng.uniform(-0.2, 0.2)
        d = [rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-1, 1)]
        c1, c2 = [], []
        for _ in range(12):
            x, y, z = rng.uniform(-8, 8), rng.uniform(-6, 6), rng.uniform(15, 40)
            c1.append([32 + 60 * x / z, 24 + 60 * y / z])
            X, Y, Z = math.cos(a) * x - math.sin(a) * z + d[0], y + d[1], math.sin(a) * x + math.cos(a) * z + d[2]
            c2.append([32 + 60 * X / Z, 24 + 60 * Y / Z])
        return dict(op="correspond", c1=c1, c2=c2, baseline=round(rng.uniform(1, 20), 2), seed=rng.randrange(1000))
    if kind == "use":
        return dict(op="use", level=rng.choice([0, 1, 2]))
    raise HarnessError(kind)
