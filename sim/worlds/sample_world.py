"""C13: sampling of uncertain parameters."""
import numpy as np

from .. import camlib, history
from ..camlib import num_eq
from ..kernel import Violation
from .history_worlds import HistoryWorld


class C13(HistoryWorld):
    prop = "C13"

    def gen(self, rng, tier):
        spec = camlib.gen_spec(rng) if rng.random() < 0.7 else history.gen_group_spec(rng)
        st = history.GenState(spec)
        st.focal = rng.choice([("focallength_px",), ("focallength_x_px", "focallength_y_px")])
        ops = []
        for _ in range(rng.randint(3, 10 if tier == "quick" else 25)):
            kind = rng.choice(["uncertain"] * 5 + ["set", "set", "plain", "sample", "sample", "mean", "mean", "setfit", "fit", "default", "gps", "load", "use", "trace", "rotate", "scale"])
            if kind == "load" and st.shared is not None:
                continue                    # a member that loads leaves the parts of its group
            if kind in ("uncertain", "plain"):
                t = st.pick_target(rng)
                attr, n = st.weighted(rng, st.names(t))
                if n in ("image_width_px", "image_height_px") or (n.startswith("focal") and n not in st.focal):
                    continue
                v = camlib.gen_value(rng, n)
                op = dict(op="set", t=t, route=rng.choice(["cam", "params"] if t[0] == "g" else ["cam", "params", "part", "partparams"]), name=attr, value=v)
                if kind == "uncertain":
                    op["value"] = [v, rng.choice([0.0, round(abs(v) * 0.02 + 0.01, 4), round(abs(v) * 0.05 + 0.01, 4), 1e-6])]
                ops.append(op)
            elif kind == "fit":
                op = history.gen_op(rng, st, ["search"])
                op["kind"] = "fit"
                op["iterations"] = min(op["iterations"], 10)
                op.pop("method", None)
                ops.append(op)
            elif kind in ("sample", "mean"):
                t = st.pick_target(rng)
                if t[0] == "c" and rng.random() < 0.25:
                    t = ["p", t[1], rng.choice(["proj", "ori"])]
                ops.append(dict(op=kind, t=t, seed=rng.randrange(1 << 31)))
            elif kind == "trace":
                # a trace that is taken away again leaves the uncertain parameters uncertain
                a = history.gen_op(rng, st, ["settrace"])
                if a["rows"] is None:
                    continue
                ops += [a, dict(op=rng.choice(["sample", "mean"]), t=a["t"], seed=rng.randrange(1 << 31)), dict(op="settrace", t=a["t"], rows=None)]
            else:
                ops.append(history.gen_op(rng, st, [kind]))
                if ops[-1]["op"] in ("rotate", "scale", "gps") and rng.random() < 0.7:
                    # what was uncertain before, and what comes out of it
                    last = ops.pop()
                    i = last["t"][1] if "t" in last else rng.randrange(st.n)
                    for n in dict(rotate=["heading_deg", "pos_x_m", "pos_y_m"], scale=["pos_x_m", "pos_y_m", "elevation_m"], gps=["gps_lat", "gps_lon", "elevation_m"])[last["op"]]:
                        if rng.random() < 0.6:
                            v = camlib.gen_value(rng, n)
                            ops.append(dict(op="set", t=["c", i], route=rng.choice(["cam", "params"]), name=n, value=[v, round(abs(v) * 0.05 + 0.01, 4)]))
                    ops += [last, dict(op=rng.choice(["sample", "mean"]), t=["c", i], seed=rng.randrange(1 << 31))]
        for op in ops:
            op["chk"] = rng.choice([None, None, 0, 0, 1]) if op["op"] not in ("sample", "mean") else rng.choice([0, 0, 1])
        t = st.pick_target(rng)
        many = dict(t=t, n=rng.choice([120, 400]) if tier == "quick" else rng.choice([120, 400, 3000]), seed=rng.randrange(1 << 31))
        return dict(spec=spec, ops=ops, many=many)

    def run(self, program, ctx, pristine, d):
        s = history.System(program["spec"], ctx, d)
        sig = []
        for k, op in enumerate(program["ops"]):
            if op["op"] == "mean":
                before = {(i, n): m.eff(n) for i, m in enumerate(s.models) for n in m.names()}
            s.apply(op)
            sig = (sig + [(op["op"], op.get("name", op.get("kind", "")), op.get("route"), isinstance(op.get("value"), list), op.get("t"))])[-3:]
            ctx.state(*sig)
            if op.get("chk") is not None:
                s.check("after step %d (%s)" % (k, op["op"]), op["chk"])
        # the number of samples
        op = program["many"]
        t, o = op["t"], s.target(op["t"])
        if s.traces:
            o.set_trace(None)
            s.traces = {}
        unc = {}
        for name in s.names(t):
            pm, n = s.resolve(t, name)
            if pm.p[n][2] is not None:
                unc[(id(pm), n)] = (name, pm, n)
        unc = list(unc.values())
        all_names = [(i, n) for i, m in enumerate(s.models) for n in m.names()]
        derived = {(id(pm), x) for _, pm, n in unc for x in (["focallength_x_px", "focallength_y_px"] if n == "focallength_px" else [])}
        fixed = [(i, n) for i, n in all_names if not any(s.models[i].owner(n) is pm and n == m for _, pm, m in unc)
                 and (id(s.models[i].owner(n)), n) not in derived]
        ref = {(i, n): getattr(s.cams[i], n) for i, n in fixed}
        np.random.seed(op["seed"])
        data = []
        count = op["n"] if unc else 3
        for j in range(count):
            o.sample()
            data.append([float(getattr(o, name)) for name, _, _ in unc])
            for (i, n), v in ref.items():
                if getattr(s.cams[i], n) != v:
                    raise Violation("touched-another", "sample %d changed %s of camera %d from %r to %r (uncertain: %r)" % (j, n, i, v, getattr(s.cams[i], n), [x[0] for x in unc]))
            for _, pm, n in unc:
                if n == "focallength_px":
                    for i, m in enumerate(s.models):
                        if m.proj is pm and not (s.cams[i].focallength_x_px == s.cams[i].focallength_y_px == s.cams[i].focallength_px):
                            raise Violation("focal-length", "after a sample of focallength_px the camera has %r, %r, %r" % (
                                s.cams[i].focallength_px, s.cams[i].focallength_x_px, s.cams[i].focallength_y_px))
        ctx.check(count)
        data = np.array(data).reshape(count, len(unc))
        self.statistics(data, unc, ctx)
        # coherent after the last one
        for k, (name, pm, n) in enumerate(unc):
            pm.p[n][0] = float(data[-1, k])
        for _, pm, n in unc:
            pm._fan_out(n)
        s.check("after %d samples" % count, 1)
        o.set_to_mean()
        for name, pm, n in unc:
            pm.p[n][0] = pm.p[n][2]
        for _, pm, n in unc:
            pm._fan_out(n)
            pm.normalise()
        s.check("after set_to_mean", 1)
        ctx.interesting = len(unc) > 0
        ctx.ev("end", count, [x[0] for x in unc], repr(data[-1].tolist()))

    def statistics(self, data, unc, ctx):
        n = len(data)
        ok, z = [], []
        for k, (name, pm, m) in enumerate(unc):
            mean, std = pm.p[m][2], pm.p[m][3]
            x = data[:, k]
            if std == 0:
                if not all(num_eq(v, mean, 1e-12) for v in x):
                    raise Violation("not-a-sample", "%s given as %r +- 0 is sampled as %r" % (name, mean, x[:3].tolist()))
                continue
            if pm.what == "ori" and m == camlib.WRAP[pm.kind] and abs(mean) + 9 * std > 360:
                continue
            y = (x - mean) / std
            ok.append(name)
            z.append(y)
            if not np.all(np.abs(y) < 9):
                raise Violation("not-a-sample", "%s given as %r +- %r is sampled as %r" % (name, mean, std, x[np.argmax(np.abs(y))]))
            if n < 100:
                continue
            tests = [("mean", np.sum(y) / np.sqrt(n)), ("variance", np.sum(y ** 2 - 1) / np.sqrt(2 * n)),
                     ("share within one sigma", (np.mean(np.abs(y) < 1) - 0.6826895) * np.sqrt(n) / np.sqrt(0.6826895 * 0.3173105)),
                     ("successive correlation", np.sum(y[1:] * y[:-1]) / np.sqrt(n - 1))]
            for what, v in tests:
                ctx.check()
                if abs(v) > 6.5:
                    raise Violation("wrong-distribution", "%d samples of %s given as %r +- %r: %s off by %.1f sigma (mean %r, std %r)" % (
                        n, name, mean, std, what, v, float(np.mean(x)), float(np.std(x))))
        if n >= 100:
            for i in range(len(z)):
                for j in range(i):
                    v = np.sum(z[i] * z[j]) / np.sqrt(n)
                    ctx.check()
                    if abs(v) > 6.5:
                        raise Violation("not-independent", "%d samples of %s and %s correlate by %.1f sigma" % (n, ok[i], ok[j], v))
