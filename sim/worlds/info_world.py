"""C14: the log-probability is the sum of exactly the added information."""
import json
import math

import numpy as np

from .. import camlib, history
from ..kernel import World, Violation, Ctx
from .history_worlds import HistoryWorld
from .search_world import make_fit_parameters


# ------------------------------------------------------------------------------------------------ reference terms
def lognorm(x, loc, scale):
    x, loc, scale = np.asarray(x, float), np.asarray(loc, float), np.asarray(scale, float)
    return float(np.sum(-0.5 * ((x - loc) / scale) ** 2 - np.log(scale) - 0.5 * math.log(2 * math.pi)))


def as_array(x):
    return np.array(x, dtype=float)


def landmark(cam, image, space, unc):
    image, space = np.atleast_2d(as_array(image)), np.atleast_2d(as_array(space))
    unc = as_array(unc)
    off = np.linspace(-2 * unc.max(), 2 * unc.max(), 1000)
    pos = as_array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m])
    rays = np.atleast_2d(cam.getRay(image, normed=True)[1])
    scale = np.broadcast_to(unc if unc.ndim else unc[None], (len(space), 3))
    total = 0.0
    for p, r, s in zip(space, rays, scale):
        t = abs(float(np.dot(p - pos, r)))
        x = pos[:, None] + r[:, None] * (t + off)[None, :]
        total += lognorm(x, p[:, None], s[:, None])
    return total


def line_distance(p1, p2, q):
    d = p2 - p1
    t = np.sum((q - p1) * d, axis=-1) / np.sum(d * d, axis=-1)
    return np.linalg.norm(p1 + t[:, None] * d - q, axis=-1)


def reference(term, cams, k, extra):
    """the value of one term for member k of the (newly built) cameras"""
    a = term["args"]
    kind = term["kind"]
    var = lambda v: float(extra[v["name"]].value) if isinstance(v, dict) else as_array(v)
    if kind == "custom":
        return custom_value(cams[k] if k is not None else cams[0], a)
    if kind == "height":
        return lognorm(cams[k].getObjectHeight(as_array(a["feet"]), as_array(a["head"])), a["height"], var(a["var"]))
    if kind == "length":
        return lognorm(cams[k].getObjectLength(as_array(a["front"]), as_array(a["back"]), a["Z"]), a["length"], var(a["var"]))
    if kind == "landmark":
        return landmark(cams[k], a["image"], a["space"], a["unc"])
    if kind == "landmarkgps":
        return landmark(cams[k], a["image"], cams[k].spaceFromGPS(as_array(a["geo"])), a["unc"])
    if kind == "horizon":
        h = as_array(a["horizon"])
        return lognorm(h[..., 1] - cams[k].getImageHorizon(h[..., 0])[..., 1], 0, as_array(a["unc"]))
    if kind == "baseline":
        d = math.hypot(cams[0].pos_x_m - cams[1].pos_x_m, cams[0].pos_y_m - cams[1].pos_y_m)
        return lognorm(d, a["target"], a["unc"])
    if kind == "correspondence":
        c = [as_array(a["c1"]), as_array(a["c2"])]
        total = 0.0
        for i in (0, 1):
            o, r = cams[i].getRay(c[i])
            total += lognorm(line_distance(cams[1 - i].imageFromSpace(o + r), cams[1 - i].imageFromSpace(o + 2 * r), c[1 - i]), 0, a["unc"])
        return total
    raise KeyError(kind)


def custom_value(cam, a):
    if a["form"] == "nan":
        return float("nan")
    if a["form"] == "-inf":
        return float("-inf")
    if a["form"] == "const":
        return a["c"]
    return -((float(getattr(cam, a["name"])) - a["c"]) / a["s"]) ** 2


def add_term(o, term, extra, raise_now, functions):
    a = term["args"]
    kind = term["kind"]
    op = dict(only_plot=True) if term.get("plot") else {}
    conv = as_array
    if kind == "custom":
        def f():
            if raise_now.get("term") == term["id"]:
                raise history.SimAbort("injected")
            return custom_value(o if hasattr(o, "projection") else o[0], a)
        # information given twice counts twice, also when it is the same function
        f = functions.setdefault(term["id"], f)
        ad = [extra[a["extra"]["name"]]] if a.get("extra") else None
        return o.addCustomoLogProbability(f, ad) if ad is not None else o.addCustomoLogProbability(f)
    var = lambda v: extra[v["name"]] if isinstance(v, dict) else v if np.ndim(v) == 0 else as_array(v)
    if kind == "height":
        return o.addObjectHeightInformation(conv(a["feet"]), conv(a["head"]), a["height"], var(a["var"]), **op)
    if kind == "length":
        return o.addObjectLengthInformation(conv(a["front"]), conv(a["back"]), a["length"], var(a["var"]), Z=a["Z"], **op)
    if kind == "landmark":
        return o.addLandmarkInformation(conv(a["image"]), conv(a["space"]), a["unc"] if term.get("as") != "array" else as_array(a["unc"]), **op)
    if kind == "landmarkgps":
        return o.addLandmarkInformationGPS(conv(a["image"]), conv(a["geo"]), a["unc"], **op)
    if kind == "horizon":
        return o.addHorizonInformation(conv(a["horizon"]) if term.get("as") != "list" else a["horizon"], a["unc"] if np.ndim(a["unc"]) == 0 else as_array(a["unc"]), **op)
    if kind == "baseline":
        return o.addBaselineInformation(a["target"], a["unc"])
    return o.addPointCorrespondenceInformation(conv(a["c1"]), conv(a["c2"]), a["unc"])


def gen_term(rng, tid, target, st, extras):
    """target: ["c", i] or ["g"]"""
    group = target[0] == "g"
    kinds = ["custom", "custom", "height", "height", "length", "landmark", "landmark", "landmarkgps", "horizon"]
    if group:
        kinds = ["custom", "custom", "baseline"]
        if not st.shared["ori"]:           # from one place the epipolar lines are undefined
            kinds += ["correspondence", "correspondence"]
    kind = rng.choice(kinds)
    n = rng.choice([1, 2, 3])
    px = lambda lo, hi: [round(rng.uniform(5, 60), 2), round(rng.uniform(lo, hi), 2)]

    def variation(scale, count):
        r = rng.random()
        if r < 0.3:
            name = rng.choice(["var_a", "var_b"])
            extras[name] = dict(name=name, value=scale, lower=scale * 0.2, upper=scale * 3, step=scale * 0.2)
            return dict(name=name)
        if r < 0.6 and count > 1:
            return [round(scale * rng.uniform(0.5, 2), 3) for _ in range(count)]
        return round(scale * rng.uniform(0.5, 2), 3)
    one = rng.random() < 0.3
    term = dict(id=tid, kind=kind, t=target)
    if kind == "custom":
        names = [x[1] for x in st.names(["c", 0 if group else target[1]]) if x[1] in ("elevation_m", "roll_deg", "pos_x_m", "center_x_px", "heading_deg", "yaw_deg", "k1", "a")]
        form = rng.choice(["quad"] * 7 + ["const", "const", "nan", "-inf"])
        term["args"] = dict(form=form, name=rng.choice(names), c=round(rng.uniform(-20, 20), 2), s=round(rng.uniform(1, 30), 2))
        if rng.random() < 0.2:
            extras["custom_x"] = dict(name="custom_x", value=0.5, lower=0.0, upper=1.0, step=0.1)
            term["args"]["extra"] = dict(name="custom_x")
    elif kind == "height":
        feet = [px(36, 47) for _ in range(n)]
        head = [[x + rng.uniform(-1, 1), y - rng.uniform(1, 9)] for x, y in feet]
        if one:
            feet, head, n = feet[0], head[0], 1
        term["args"] = dict(feet=feet, head=head, height=round(rng.uniform(0.5, 4), 2), var=variation(0.5, n))
    elif kind == "length":
        front = [px(36, 47) for _ in range(n)]
        back = [[x + rng.uniform(-9, 9), y - rng.uniform(1, 3)] for x, y in front]
        if one:
            front, back, n = front[0], back[0], 1
        term["args"] = dict(front=front, back=back, length=round(rng.uniform(0.5, 8), 2), var=variation(1.0, n), Z=rng.choice([0, 0, 0.5, -2]))
    elif kind in ("landmark", "landmarkgps"):
        img = [px(2, 46) for _ in range(n)]
        space = [[round(rng.uniform(-30, 30), 2), round(rng.uniform(20, 90), 2), round(rng.uniform(-2, 8), 2)] for _ in range(n)]
        geo = [[round(rng.uniform(-4e-4, 4e-4), 7), round(rng.uniform(-4e-4, 4e-4), 7), round(rng.uniform(0, 8), 2)] for _ in range(n)]
        unc = rng.choice([3, [3, 3, 5], [1.5, 2.0, 0.5]] + ([[[3, 3, 5], [1, 2, 9], [4, 4, 4]][:n]] if n > 1 else []))
        if one:
            img, space, geo = img[0], space[0], geo[0]
            unc = unc if np.ndim(unc) < 2 else unc[0]
        term["args"] = dict(image=img, unc=unc)
        term["args"]["space" if kind == "landmark" else "geo"] = space if kind == "landmark" else geo
    elif kind == "horizon":
        h = [px(2, 30) for _ in range(n)]
        term["args"] = dict(horizon=h, unc=rng.choice([2, 5.5] + ([[1, 2, 3][:n]] if n > 1 else [])))
    elif kind == "baseline":
        term["args"] = dict(target=round(rng.uniform(1, 50), 2), unc=rng.choice([6, 0.5]))
    else:
        term["args"] = dict(c1=[px(2, 46) for _ in range(n)], c2=[px(2, 46) for _ in range(n)], unc=rng.choice([1, 30]))
    if kind not in ("custom", "baseline") and rng.random() < 0.07:
        # one point that could not be measured: the probability is not a number, which counts as zero
        part = term["args"][rng.choice(sorted(set(term["args"]) & {"feet", "head", "front", "back", "image", "space", "geo", "horizon", "c1", "c2"}))]
        point = rng.choice(part) if np.ndim(part) > 1 else part
        point[rng.randrange(len(point))] = float("nan")
    if kind not in ("custom", "baseline", "correspondence") and rng.random() < 0.25:
        term["plot"] = True
    term["as"] = rng.choice(["array", "list"])
    return term


class C14(HistoryWorld):
    prop = "C14"

    @staticmethod
    def gen_search(rng, st, t, what):
        names = [x for x in st.names(t) if x[1] in ("elevation_m", "heading_deg", "pos_x_m", "yaw_deg")]
        params = []
        for attr, n in rng.sample(names, rng.randint(1, min(2, len(names)))):
            lo, hi = (3, 30) if n == "elevation_m" else history.BOUNDS[n]
            params.append(dict(name=attr, value=float(lo + (hi - lo) * rng.random()), lower=float(lo), upper=float(hi), step=(hi - lo) / 20))
        return dict(op="search", t=t, kind=what, params=params, iterations=3 if what == "fit" else 12, seed=rng.randrange(1 << 31))

    def gen(self, rng, tier):
        group = rng.random() < 0.35
        if group:
            spec = history.gen_group_spec(rng)
        else:
            spec = camlib.gen_spec(rng)
        for part in (spec["ori"] if group else [spec["ori"]]):
            # looking at the ground, so that most terms are finite
            part[1].update({k: v for k, v in dict(elevation_m=round(rng.uniform(3, 30), 2)).items()})
            part[1].update(pos_x_m=round(rng.uniform(-30, 30), 2), pos_y_m=round(rng.uniform(-30, 30), 2))
            if part[0] == "hpr":
                part[1]["tilt_deg"] = round(rng.uniform(30, 75), 2)
                part[1]["roll_deg"] = round(rng.uniform(-5, 5), 2)
            else:
                part[1].update(yaw_deg=round(rng.uniform(-180, 180), 2), pitch_deg=round(rng.uniform(-60, -15), 2), roll_deg=round(rng.uniform(-5, 5), 2))
        st = history.GenState(spec)
        extras = {}
        ops = []
        tid = 0
        for _ in range(rng.randint(4, 12 if tier == "quick" else 25)):
            t = st.pick_target(rng, 0.4)
            kind = rng.choice(["add"] * 6 + ["again", "again", "clear", "set", "set", "setfit", "eval", "fail", "search", "extra", "plot"])
            if kind == "add":
                tid += 1
                ops.append(dict(op="add", t=t, term=gen_term(rng, tid, t, st, extras)))
            elif kind == "again":
                before = [op["term"] for op in ops if op["op"] == "add"]
                if not before:
                    continue
                term = rng.choice(before)
                ops.append(dict(op="add", t=term["t"], term=term))
            elif kind == "clear":
                if rng.random() < 0.5:
                    # a search with what was there, and one with what is there afterwards
                    for form in ("quad", rng.choice(["quad", "const"])):
                        tid += 1
                        term = gen_term(rng, tid, t, st, extras)
                        while term["kind"] != "custom":
                            term = gen_term(rng, tid, t, st, extras)
                        term["args"]["form"] = form
                        ops += [dict(op="add", t=t, term=term), self.gen_search(rng, st, t, "metropolis")]
                        if len(ops) < 3 or ops[-3]["op"] != "clear":
                            ops.append(dict(op="clear", t=t))
                else:
                    ops.append(dict(op="clear", t=t))
            elif kind in ("set", "setfit"):
                names = [x for x in st.names(t) if x[1] in ("elevation_m", "tilt_deg", "heading_deg", "pos_x_m", "pos_y_m", "center_x_px", "k1", "a", "yaw_deg", "pitch_deg", "gps_lat", "focallength_px")]
                attr, n = rng.choice(names)
                v = dict(elevation_m=lambda: round(rng.uniform(3, 30), 2), tilt_deg=lambda: round(rng.uniform(30, 75), 2), pitch_deg=lambda: round(rng.uniform(-60, -15), 2),
                         gps_lat=lambda: round(rng.uniform(-2e-4, 2e-4), 7)).get(n, lambda: camlib.gen_value(rng, n))()
                ops.append(dict(op="set", t=t, route=rng.choice(["cam", "params"]), name=attr, value=v) if kind == "set" else
                           dict(op="setfit", t=t, mode="dict", values={attr: v}))
            elif kind == "extra":
                ops.append(dict(op="extra", name=rng.choice(["var_a", "var_b", "custom_x"]), value=round(rng.uniform(0.3, 2), 3)))
            elif kind == "search":
                ops.append(self.gen_search(rng, st, t, rng.choice(["fit", "metropolis", "metropolis"])))
            else:
                ops.append(dict(op=kind, t=t))
        return dict(spec=spec, other=camlib.gen_spec(rng), ops=ops, extras=extras)

    def execute(self, program, ctx):
        self.run(program, ctx, None, None)

    def run(self, program, ctx, pristine, d):
        s = history.System(program["spec"], ctx)
        other = camlib.build_live(program["other"])
        extra = {p["name"]: camlib.ct.FitParameter(p["name"], lower=p["lower"], upper=p["upper"], value=p["value"], step=p["step"]) for p in program["extras"].values()}
        terms = {json.dumps(["c", i]): [] for i in range(len(s.cams))}
        if s.group is not None:
            terms['["g"]'] = []
        addl = {k: [] for k in terms}
        raise_now = {}
        functions = {}
        finite = 0
        for k, op in enumerate(program["ops"]):
            kind = op["op"]
            where = "after step %d (%s)" % (k, kind)
            ctx.ev("op", json.dumps(op, sort_keys=True))
            if kind == "add":
                o, key = s.target(op["t"]), json.dumps(op["t"])
                term = op["term"]
                add_term(o, term, extra, raise_now, functions)
                if not term.get("plot"):
                    terms[key].append(term)
                    for v in (term["args"].get("var"), term["args"].get("extra")):
                        if isinstance(v, dict):
                            addl[key].append(v["name"])
            elif kind == "clear":
                s.target(op["t"]).clearLogProbability()
                terms[json.dumps(op["t"])] = []
                addl[json.dumps(op["t"])] = []
            elif kind in ("set", "setfit"):
                s.apply(op)
            elif kind == "extra":
                if op["name"] in extra:
                    extra[op["name"]].set_value(op["value"])
            elif kind == "plot":
                self.plot(s, op, ctx)
            elif kind == "fail":
                key = json.dumps(op["t"])
                custom = [t for t in terms[key] if t["kind"] == "custom"]
                if not custom:
                    continue
                raise_now["term"] = custom[k % len(custom)]["id"]
                ctx.fault("term raises")
                try:
                    s.target(op["t"]).getLogProbability()
                except history.SimAbort:
                    pass
                else:
                    raise Violation("exception-swallowed", "%s: a term raised, getLogProbability returned normally" % where)
                finally:
                    raise_now.clear()
            elif kind == "search":
                self.search(s, op, terms, addl, extra, ctx, where)
            finite += self.check(s, terms, extra, where, ctx)
            ctx.check()
            if len(other.log_prob) or other.getLogProbability() != 0:
                raise Violation("leaked-term", "%s: another camera has log-probability %r" % (where, other.getLogProbability()))
            ctx.state([x["kind"] for x in terms[json.dumps(op["t"])]][-3:] if "t" in op else "", kind, s.group is not None)
        ctx.interesting = finite > 0
        ctx.probe("finite sums", finite)
        ctx.ev("end", finite)

    def expected(self, s, terms, extra, key, cams):
        """-> list of term values that make up the sum of this object"""
        out = []
        if key == '["g"]':
            out += [reference(t, cams, None, extra) for t in terms[key]]
            for i in range(len(s.cams)):
                out += [reference(t, cams, i, extra) for t in terms[json.dumps(["c", i])]]
        else:
            out += [reference(t, cams, json.loads(key)[1], extra) for t in terms[key]]
        return out

    @staticmethod
    def agree(got, parts, slack=1.0):
        want = float(np.sum(parts)) if parts else 0.0
        if math.isnan(want):
            want = float("-inf")
        if math.isinf(want) or math.isinf(got) or math.isnan(got):
            return got == want, want
        return abs(got - want) <= slack * (1e-7 * sum(abs(p) for p in parts) + 1e-7), want

    def check(self, s, terms, extra, where, ctx):
        cams = [m.build() for m in s.models]
        finite = 0
        for key in terms:
            got = s.target(json.loads(key)).getLogProbability()
            parts = self.expected(s, terms, extra, key, cams)
            ok, want = self.agree(float(got), parts)
            ctx.check()
            if not ok:
                raise Violation("wrong-sum", "%s: the log-probability of %s is %r, its terms %s sum up to %r" % (
                    where, key, float(got), [(t["kind"], t["t"]) for t in terms[key]], want))
            if parts and math.isfinite(want):
                finite += 1
        return finite

    def search(self, s, op, terms, addl, extra, ctx, where):
        """the search sees the same sum, and the additional parameters of exactly the terms that are there"""
        o, key = s.target(op["t"]), json.dumps(op["t"])
        names = [p["name"] for p in op["params"]]
        start = {p["name"]: p["value"] for p in op["params"]}
        if addl[key] and len(set(addl[key])) != len(addl[key]):
            return               # the same additional parameter in two terms occurs twice in the trace
        for n in addl[key]:
            p = [q for q in self_extras(extra) if q[0] == n][0]
            if not p[1] <= float(extra[n].value) <= p[2]:
                return
        np.random.seed(op["seed"])
        s.model_setfit(op["t"], start)
        parts = self.expected(s, terms, extra, key, [m.build() for m in s.models])
        want = np.sum(parts) if parts else 0.0
        if not math.isfinite(want):
            # put the start values in: the search would look for another start
            o.parameters.set_fit_parameters(start)
            return
        if op["kind"] == "metropolis":
            tr = o.metropolis(make_fit_parameters(op["params"]), iterations=op["iterations"], burn=0, disable_bar=True, print_trace=False)
            ctx.check()
            if list(tr.columns) != names + addl[key] + ["probability"]:
                raise Violation("wrong-additional-parameters", "%s: the trace has the columns %r, sampled are %r and the additional parameters %r" % (
                    where, list(tr.columns), names, addl[key]))
            rows = [dict(r) for _, r in tr.iterrows()]
            hold = {n: float(extra[n].value) for n in addl[key]}
            for r in rows[:: max(1, len(rows) // 3)]:
                s.model_setfit(op["t"], {n: float(r[n]) for n in names})
                for n in addl[key]:
                    extra[n].set_value(float(r[n]))
                ok, want = self.agree(float(r["probability"]), self.expected(s, terms, extra, key, [m.build() for m in s.models]))
                ctx.check()
                if not ok:
                    raise Violation("wrong-sum", "%s: a row of the trace has log-probability %r, the terms sum up to %r there" % (where, float(r["probability"]), want))
            for n in addl[key]:
                extra[n].set_value(hold[n])
            s.model_setfit(op["t"], {n: float(getattr(o, n)) for n in names})
            o.set_trace(None)
        else:
            res = o.fit(make_fit_parameters(op["params"]), options=dict(maxiter=op["iterations"]))
            s.model_setfit(op["t"], {n: float(getattr(o, n)) for n in names})
            ok, want = self.agree(-float(np.ravel(res["fun"])[0]), self.expected(s, terms, extra, key, [m.build() for m in s.models]))
            ctx.check()
            if not ok:
                raise Violation("wrong-sum", "%s: fit reports log-probability %r, the terms sum up to %r" % (where, -float(np.ravel(res["fun"])[0]), want))

    def plot(self, s, op, ctx):
        """plotting the information changes nothing"""
        if op["t"][0] == "g":
            return
        import matplotlib.pyplot as plt
        try:
            s.target(op["t"]).plotFitInformation()
        except Exception as e:
            ctx.probe("plot raises " + type(e).__name__)
        plt.close("all")


def self_extras(extra):
    return [(n, p.parents["lower"], p.parents["upper"]) for n, p in extra.items()]
