"""C08, C09, C10, C11, C12: fits and samplings."""
import json
import os
import shutil

import numpy as np

from .. import camlib, history
from ..camlib import num_eq
from ..kernel import World, Violation, Pristine
from .history_worlds import HistoryWorld, scratch_dir

# parameters whose value is stored as given (heading and pitch may be reduced modulo 360)
PLAIN = ["elevation_m", "tilt_deg", "roll_deg", "pos_x_m", "pos_y_m", "yaw_deg", "k1", "k2", "a", "b", "center_x_px", "center_y_px", "focallength_x_px",
         "focallength_y_px"]


# ------------------------------------------------------------------------------------------------ landscapes
def gen_land(rng, names):
    """a log-probability over the named quantities; names: {name: (lo, hi)}"""
    kind = rng.choice(["quad", "quad", "quad", "steep", "flat", "two", "hole", "nanhole", "steps", "edge"])
    land = dict(kind=kind, c={}, s={}, off=round(rng.uniform(-20, 20), 2))
    for n, (lo, hi) in names.items():
        w = hi - lo
        land["c"][n] = round(lo + w * rng.random(), 5) if kind != "edge" else rng.choice([lo - w, hi + w, lo, hi])
        land["s"][n] = w * rng.choice([0.05, 0.2, 0.2, 1.0]) * (0.02 if kind == "steep" else 1)
        if kind == "edge":
            land["s"][n] = w * 0.3
    land["amp"] = rng.choice([0.5, 2, 5, 20])
    return land


def land_value(land, pos):
    q = 0.0
    for n, c in land["c"].items():
        q += ((pos[n] - c) / land["s"][n]) ** 2
    k = land["kind"]
    if k == "flat":
        return land["off"]
    if k == "two":
        return land["off"] - min(q, 3 + (sum((pos[n] - c) / land["s"][n] for n, c in land["c"].items()) - 4) ** 2)
    if k == "hole" and q > 9:
        return float("-inf")
    if k == "nanhole" and q > 9:
        return float("nan")
    if k == "steps":
        return land["off"] - land["amp"] * (int(abs(q) * 3) % 2)
    return land["off"] - q


class Recorder:
    """the log-probability given to the camera; records every evaluation"""

    def __init__(self, o, params, additional, land, abort_at=None, exc=None, ctx=None):
        self.o, self.land, self.log = o, land, []
        self.names = [p["name"] for p in params]
        self.additional = additional
        self.abort_at, self.exc, self.ctx = abort_at, exc, ctx

    def __call__(self):
        pos = {n: float(getattr(self.o, n)) for n in self.names}
        for f in self.additional:
            pos[f.__name__] = float(f.value)
        if self.abort_at is not None and len(self.log) + 1 == self.abort_at:
            self.log.append((pos, None))
            self.ctx.fault("abort:" + self.exc)
            raise history.ABORTS[self.exc]("injected at evaluation %d" % self.abort_at)
        v = land_value(self.land, pos)
        self.log.append((pos, v if v == v else float("-inf")))
        return v


def gen_search_params(rng, spec, most=3, additional=True, bounded=0.8, names=PLAIN):
    st = history.GenState(spec)
    pool = [x for x in st.names(["g"] if "n" in spec else ["c", 0]) if x[1] in names]
    rng.shuffle(pool)
    out, ranges = [], {}
    for n, plain in pool[:rng.randint(1, most)]:
        lo, hi = history.BOUNDS[plain]
        r = rng.random()
        if r < 0.25:           # a narrow range
            c = lo + (hi - lo) * rng.uniform(0.2, 0.8)
            w = (hi - lo) * rng.choice([0.1, 0.01, 1e-4])
            lo, hi = c - w, c + w
        v = rng.choice([lo + (hi - lo) * rng.random(), lo + (hi - lo) * rng.random(), lo, hi])
        p = dict(name=n, value=float(v), step=float((hi - lo) * rng.choice([1e-3, 0.02, 0.1, 0.5, 3.0, 100.0])))
        r = rng.random()
        if r < bounded:
            p.update(lower=float(lo), upper=float(hi))
        else:
            p.update(dist=rng.choice(["normal", "meanstd"]))
            p["step"] = float((hi - lo) * rng.choice([1e-3, 0.02, 0.1]))
        out.append(p)
        ranges[n] = (lo, hi)
    extra = []
    if additional and rng.random() < 0.35:
        for n in rng.sample(["extra", "zeta", "alpha", "Height", "b_extra"], rng.choice([1, 1, 2, 3])):
            lo, hi = rng.choice([(0, 1), (-5, 5), (100, 200)])
            extra.append(dict(name=n, value=float(lo + (hi - lo) * rng.random()), lower=float(lo), upper=float(hi), step=float((hi - lo) * rng.choice([0.02, 0.2, 2]))))
            ranges[n] = (lo, hi)
    return out, extra, ranges


def gen_search_spec(rng):
    return camlib.gen_spec(rng) if rng.random() < 0.75 else history.gen_group_spec(rng, n=rng.choice([2, 2, 3]), same=rng.random() < 0.3)


def add_terms(o, rec, extra, program):
    """the recorder and, before it, other terms of probability one, which do not matter, possibly with some of the additional parameters"""
    rest = list(extra)
    for k in range(program.get("before", 0)):
        some, rest = (rest[:1], rest[1:]) if program.get("spread") else ([], rest)
        term = o
        if program.get("members") and not some and "n" in program["spec"]:
            term = o[k % len(o)]            # a term of one camera counts for the group
        term.addCustomoLogProbability(lambda: 0.0, some if some else None)
    o.addCustomoLogProbability(rec, rest if rest else None)


def build_target(spec, ctx):
    s = history.System(spec, type(ctx)())
    return s.cams[0] if s.group is None else s.group


def make_fit_parameters(params):
    return history.System.fit_parameters(None, params)


def burn_rows(iterations, burn):
    return int(iterations * burn) if burn < 1 else int(burn)


class SearchWorld(World):
    def setup(self):
        camlib.setup()

    def shrink_lists(self, program):
        return [["params"], ["extra"]] if program.get("params") and len(program["params"]) > 1 else [["extra"]]

    def simplifications(self, program):
        it = program.get("iterations", 0)
        for smaller in (10, 20, 40, 80, 150, it // 2):
            if 5 < smaller < it:
                yield dict(json.loads(json.dumps(program)), iterations=smaller)


class C08(SearchWorld):
    prop = "C08"

    def gen(self, rng, tier):
        spec = gen_search_spec(rng)
        params, extra, ranges = gen_search_params(rng, spec)
        it, burn = rng.choice([20, 50, 150, 350, 350]), rng.choice([0, 0.1, 0.1, 0.5, 7])
        if tier != "quick" and rng.random() < 0.2:
            it = 2500
        if rng.random() < 0.1:
            # the step size is tuned several times before the trace starts
            it, burn = (rng.choice([1000, 1500]), rng.choice([0.4, 0.6])) if tier == "quick" else (rng.choice([2000, 4000]), rng.choice([0.3, 0.7]))
        return dict(spec=spec, params=params, extra=extra, land=gen_land(rng, ranges), iterations=it, burn=burn,
                    step=rng.choice([1, 1, 0.3, 2]), seed=rng.randrange(1 << 31), before=rng.randrange(3), spread=rng.random() < 0.5, members=rng.random() < 0.5)

    def execute(self, program, ctx):
        cam = build_target(program["spec"], ctx)
        params = make_fit_parameters(program["params"])
        extra = make_fit_parameters(program["extra"])
        rec = Recorder(cam, program["params"], extra, program["land"])
        add_terms(cam, rec, extra, program)
        np.random.seed(program["seed"])
        n_it = program["iterations"]
        try:
            trace = cam.metropolis(params, step=program["step"], iterations=n_it, burn=program["burn"], disable_bar=True, print_trace=False)
        except ValueError as e:
            if "starting position" not in str(e):
                raise
            ctx.probe("no start found")
            if any(np.isfinite(v) for _, v in rec.log):
                raise Violation("start-refused", "the search for a start evaluated a position of non-zero probability and refused")
            ctx.ev("no start", len(rec.log))
            return
        self.check_trace(program, ctx, rec, trace)

    def check_trace(self, program, ctx, rec, trace):
        extras = [p["name"] for p in program["extra"]]
        names = [p["name"] for p in program["params"]] + extras
        if list(trace.columns) != names + ["probability"]:
            raise Violation("wrong-columns", "the trace has the columns %r" % (list(trace.columns),))
        n_it, burn = program["iterations"], burn_rows(program["iterations"], program["burn"])
        n = len(trace)
        ctx.check()
        if not n_it - burn - 2 <= n <= n_it - burn:
            raise Violation("wrong-length", "%d iterations with burn-in %d gave %d rows" % (n_it, burn, n))
        rows = [[float(x) for x in r] for r in trace[names].to_numpy()]
        prob = [float(x) for x in trace["probability"].to_numpy()]
        log = rec.log
        pos = [[p[m] for m in names] for p, _ in log]
        val = [v for _, v in log]
        if len(log) < n_it + 1:
            raise Violation("evaluations-missing", "%d evaluations for %d iterations" % (len(log), n_it))
        # the last n_it evaluations are the proposals
        first = len(log) - n_it
        cur = None              # evaluation that is the current position; unknown during the burn-in
        start_row = n_it - n    # row j belongs to proposal start_row + j
        worse = []
        for j in range(n):
            ctx.check()
            i = first + start_row + j
            here = rows[j]
            if here == pos[i] and num_eq(prob[j], val[i]):
                new = i
            elif cur is None:
                back = [k for k in range(i - 1, -1, -1) if pos[k] == here]
                if not back:
                    raise Violation("not-evaluated", "row %d %r was never evaluated before" % (j, here))
                new = back[0]
            else:
                new = cur
            if here != pos[new]:
                raise Violation("not-a-proposal", "row %d %r is neither the row before nor the evaluated proposal %r" % (j, here, pos[i]))
            if not num_eq(prob[j], val[new]):
                raise Violation("wrong-probability", "row %d carries log-probability %r, evaluated at its position was %r" % (j, prob[j], val[new]))
            if not np.isfinite(prob[j]):
                raise Violation("zero-probability-row", "row %d has log-probability %r" % (j, prob[j]))
            if cur is not None:
                moved = new == i and not (pos[i] == rows[j - 1])
                same_place = pos[i] == rows[j - 1]
                if not same_place:
                    if val[i] >= val[cur] and not moved:
                        raise Violation("better-proposal-refused", "row %d: a proposal with log-probability %r was refused, current %r" % (j, val[i], val[cur]))
                    if val[i] == float("-inf") and moved:
                        raise Violation("impossible-proposal-taken", "row %d" % j)
                    if val[i] < val[cur] and np.isfinite(val[i]):
                        worse.append((float(np.exp(val[i] - val[cur])), moved))
            cur = new
        for lo, hi in ((0, 1), (0, 0.3), (0.3, 0.7), (0.7, 1)):
            sel = [(p, m) for p, m in worse if lo <= p <= hi]
            var = sum(p * (1 - p) for p, _ in sel)
            if var < 3:
                # impossible outcomes stand out even when few
                continue
            z = (sum(m for _, m in sel) - sum(p for p, _ in sel)) / np.sqrt(var)
            ctx.probe("acceptance tests")
            if abs(z) > 6.5:
                raise Violation("wrong-acceptance", "of %d less probable proposals with exp(difference) in [%.1f, %.1f] %d were accepted, expected %.1f (%.1f sigma)" % (
                    len(sel), lo, hi, sum(m for _, m in sel), sum(p for p, _ in sel), z))
        for p, m in worse:
            if p < 1e-13 and m:
                raise Violation("wrong-acceptance", "a proposal with exp(difference) = %g was accepted" % p)
        ctx.state(program["land"]["kind"], len(program["params"]), len(program["extra"]), n_it, program["burn"], program["step"])
        ctx.interesting = len(set(map(tuple, rows))) > 1
        ctx.ev("trace", n, [repr(x) for x in prob[-3:]], len(log))


class C09(SearchWorld):
    prop = "C09"

    def gen(self, rng, tier):
        spec = gen_search_spec(rng)
        kind = rng.choice(["metropolis", "metropolis", "fit"])
        names = PLAIN + ["heading_deg", "pitch_deg", "focallength_px"]
        params, extra, ranges = gen_search_params(rng, spec, additional=kind == "metropolis", bounded=0.9, names=names)
        for common in [p["name"] for p in params if p["name"].endswith("focallength_px")]:
            other = [common.replace("_px", "_x_px"), common.replace("_px", "_y_px")]
            params = [p for p in params if p["name"] not in other]
            ranges = {n: r for n, r in ranges.items() if n not in other}
        p = dict(spec=spec, kind=kind, params=params, extra=extra, land=gen_land(rng, ranges), seed=rng.randrange(1 << 31),
                 before=rng.randrange(3), spread=rng.random() < 0.5, members=rng.random() < 0.5)
        if rng.random() < 0.4:
            p["land"]["kind"] = "edge"
            for n, (lo, hi) in ranges.items():
                p["land"]["c"][n] = rng.choice([lo - (hi - lo), hi + (hi - lo), lo, hi])
                p["land"]["s"][n] = (hi - lo) * 0.3
        if kind == "metropolis":
            p.update(iterations=rng.choice([30, 60, 250, 600] + ([3000] if tier != "quick" else [])), burn=rng.choice([0, 0.1, 0.9, 0.95]), step=rng.choice([1, 1, 0.1, 30]))
        else:
            p.update(iterations=rng.choice([2, 10, 50]), method=rng.choice([None, None, None, "Nelder-Mead", "Powell", "TNC", "SLSQP"]))
            if p["method"] != "Nelder-Mead" and p["land"]["kind"] in ("hole", "nanhole"):
                # finite differences across an infinite step are undefined: scipy itself then proposes nan
                p["land"]["kind"] = "quad"
            if p["method"] == "Powell":
                # scipy's line search needs finite bounds for all parameters
                for q in params:
                    if q.get("dist"):
                        lo, hi = ranges[q["name"]]
                        q.pop("dist")
                        q.update(lower=float(lo), upper=float(hi))
        return p

    def execute(self, program, ctx):
        cam = build_target(program["spec"], ctx)
        params, extra = make_fit_parameters(program["params"]), make_fit_parameters(program["extra"])
        rec = Recorder(cam, program["params"], extra, program["land"])
        add_terms(cam, rec, extra, program)
        np.random.seed(program["seed"])
        bounds = {p["name"]: (p["lower"], p["upper"]) for p in program["params"] + program["extra"] if "lower" in p}
        rows = []
        try:
            if program["kind"] == "metropolis":
                tr = cam.metropolis(params, step=program["step"], iterations=program["iterations"], burn=program["burn"], disable_bar=True, print_trace=False)
                rows = [dict(r) for _, r in tr.iterrows()]
            else:
                kw = dict(method=program["method"]) if program.get("method") else {}
                res = cam.fit(params, options=dict(maxiter=program["iterations"]), **kw)
                rows = [dict(zip([p["name"] for p in program["params"]], res["x"]))]
        except ValueError as e:
            if "starting position" not in str(e):
                raise
            ctx.probe("no start found")
        finally:
            out = None
            for k, (pos, v) in enumerate(rec.log):
                out = out or self.outside(bounds, pos, "evaluation %d of %d" % (k + 1, len(rec.log)))
        if out:
            raise Violation("out-of-bounds", out)
        for k, r in enumerate(rows):
            out = self.outside(bounds, r, "row %d of the result" % k)
            if out:
                raise Violation("out-of-bounds", out)
        final = {p["name"]: float(getattr(cam, p["name"])) for p in program["params"]}
        out = self.outside(bounds, final, "the final camera")
        if out:
            raise Violation("out-of-bounds", out)
        ctx.check(len(rec.log) + len(rows) + 1)
        ctx.state(program["kind"], program["land"]["kind"], program.get("method"), tuple(sorted(bounds)), program["iterations"])
        ctx.interesting = len(bounds) > 0 and len(rec.log) > 3
        ctx.ev("end", len(rec.log), repr(sorted(final.items())))

    def outside(self, bounds, pos, where):
        for n, (lo, hi) in bounds.items():
            if n in pos:
                tol = 1e-9 * (hi - lo) + 1e-12 * max(abs(lo), abs(hi))
                if not lo - tol <= pos[n] <= hi + tol:
                    return "%s: %s = %r is outside [%r, %r]" % (where, n, pos[n], lo, hi)
        return None


class C10(HistoryWorld):
    prop = "C10"
    allow = ["search"] * 4 + ["sample", "sample", "mean", "settrace", "settrace", "set", "set", "setfit"]

    def gen(self, rng, tier):
        spec = camlib.gen_spec(rng) if rng.random() < 0.75 else history.gen_group_spec(rng)
        st = history.GenState(spec)
        ops = [history.gen_op(rng, st, self.allow) for _ in range(rng.randint(2, 7 if tier == "quick" else 14))]
        for op in ops:
            if op["op"] == "search" and rng.random() < 0.8:
                op.pop("abort_at", None)
                op.pop("exc", None)
            op["chk"] = rng.choice([0, 1, 1, 2])
        return dict(spec=spec, ops=ops)


# ------------------------------------------------------------------------------------------------ C11
class C11(SearchWorld):
    prop = "C11"

    def gen(self, rng, tier):
        spec = camlib.gen_spec(rng)
        # one term for all the searches, possibly with a parameter of its own, or a new one each time
        keep = rng.random() < 0.5
        params, extra, ranges = gen_search_params(rng, spec, additional=keep, most=2)
        land = gen_land(rng, ranges)
        land2 = gen_land(rng, ranges)
        land2["kind"] = rng.choice(["quad", "two", "flat"])
        if rng.random() < 0.3:
            # a start that must be searched for
            land["kind"] = rng.choice(["hole", "nanhole"])
            for n, (lo, hi) in ranges.items():
                land["s"][n] = (hi - lo) * 0.08
        ops = []
        for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
            kind = rng.choice(["fit", "metropolis"])
            ops.append(dict(kind=kind if not extra else "metropolis", abort_at=rng.choice([1, 2, 3, rng.randint(1, 15), rng.randint(1, 60)]), exc=rng.choice(sorted(history.ABORTS)),
                            seed=rng.randrange(1 << 31), iterations=rng.choice([10, 40]), method=rng.choice([None, None, "Nelder-Mead"])))
        return dict(spec=spec, params=params, extra=extra, land=land, land2=land2, ops=ops, trace=rng.random() < 0.5, warm=rng.random() < 0.5, keep=keep,
                    last=dict(kind=rng.choice(["fit", "metropolis"] if not extra else ["metropolis"]), seed=rng.randrange(1 << 31), iterations=30, method=rng.choice([None, "Nelder-Mead"])))

    def shrink_lists(self, program):
        return [["ops"]] + ([["params"]] if len(program["params"]) > 1 else [])

    def search(self, cam, params, op):
        np.random.seed(op["seed"])
        if op["kind"] == "fit":
            kw = dict(method=op["method"]) if op.get("method") else {}
            return cam.fit(params, options=dict(maxiter=op["iterations"]), **kw)["x"]
        return cam.metropolis(params, iterations=op["iterations"], disable_bar=True, print_trace=False).to_numpy()

    def execute(self, program, ctx):
        import pandas as pd
        s = history.System(program["spec"], ctx)
        cam, model = s.cams[0], s.models[0]
        names = [p["name"] for p in program["params"]]
        trace = None
        if program["trace"]:
            trace = pd.DataFrame([[p["value"] for p in program["params"]] + [-1.0]] * 3, columns=names + ["probability"])
            cam.set_trace(trace)
        if program["warm"]:
            camlib.observe(cam, 1)
        aborted = 0
        extra = make_fit_parameters(program["extra"])
        if program["keep"]:
            rec = Recorder(cam, program["params"], extra, program["land"], ctx=ctx)
            cam.addCustomoLogProbability(rec, extra if extra else None)
        for k, op in enumerate(program["ops"]):
            where = "aborted %s %d" % (op["kind"], k)
            if program["keep"]:
                rec.log, rec.abort_at, rec.exc = [], op["abort_at"], op["exc"]
            else:
                rec = Recorder(cam, program["params"], [], program["land"], op["abort_at"], op["exc"], ctx)
                cam.addCustomoLogProbability(rec)
            backup = None if trace is None else trace.copy()
            err = None
            try:
                self.search(cam, make_fit_parameters(program["params"]), op)
            except tuple(history.ABORTS.values()) as e:
                err = e
            struck = len(rec.log) >= op["abort_at"]
            ctx.ev("search", k, op["kind"], type(err).__name__, len(rec.log))
            ctx.check()
            if struck:
                aborted += 1
                if err is None:
                    raise Violation("exception-swallowed", "%s: evaluation %d raised %s, the search returned normally" % (where, op["abort_at"], op["exc"]))
                if type(err).__name__ != op["exc"] or "injected" not in str(err):
                    raise Violation("wrong-exception", "%s: evaluation %d raised %s, the caller got %r" % (where, op["abort_at"], op["exc"], err))
                if cam.parameters.trace is not trace:
                    raise Violation("trace-changed", "%s: the trace is not the one set before" % where)
                if trace is not None and not trace.equals(backup):
                    raise Violation("trace-changed", "%s: the values of the trace changed" % where)
            elif err is not None:
                if isinstance(err, ValueError) and "starting position" in str(err):
                    ctx.probe("no start found")
                    if cam.parameters.trace is not trace:
                        raise Violation("trace-changed", "%s: no start was found, the trace is not the one set before" % where)
                else:
                    raise err
            elif op["kind"] == "metropolis":
                trace = cam.parameters.trace
            if not program["keep"]:
                cam.clearLogProbability()
            held = {n: float(getattr(cam, n)) for n in names}
            if err is not None:
                if not any(all(num_eq(p[n], held[n]) for n in names) for p, _ in rec.log):
                    raise Violation("not-an-evaluated-position", "%s: the camera holds %r, which was never evaluated" % (where, held))
            for n in names:
                model.owner(n).setfit(n, held[n])
            s.check(where, 1)            # everything else unchanged, all transforms follow
            ctx.state(op["kind"], op["exc"], min(op["abort_at"], 6), program["land"]["kind"], struck)
        # the next search works as if the aborted ones had not happened
        op = program["last"]
        # (a parameter of the term itself starts where it is now)
        extra2 = make_fit_parameters([dict(p, value=float(f.value)) for p, f in zip(program["extra"], extra)])
        if program["keep"]:
            rec.log, rec.abort_at, rec.land = [], None, program["land2"]
        else:
            rec = Recorder(cam, program["params"], [], program["land2"])
            cam.addCustomoLogProbability(rec)
        got = self.search(cam, make_fit_parameters(program["params"]), op)
        twin = history.System(program["spec"], type(ctx)())
        rec2 = Recorder(twin.cams[0], program["params"], extra2, program["land2"])
        twin.cams[0].addCustomoLogProbability(rec2, extra2 if extra2 else None)
        want = self.search(twin.cams[0], make_fit_parameters(program["params"]), op)
        ctx.check()
        if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-12, atol=0, equal_nan=True):
            raise Violation("next-search-differs", "the search after the aborted ones gave %s, on a camera without them %s" % (camlib.short(got), camlib.short(want)))
        for n in names:
            model.owner(n).setfit(n, float(getattr(cam, n)))
            if not num_eq(getattr(cam, n), getattr(twin.cams[0], n), 1e-12):
                raise Violation("next-search-differs", "%s is %r after it, %r without the aborted searches" % (n, getattr(cam, n), getattr(twin.cams[0], n)))
        s.check("after the last search", 1)
        ctx.interesting = aborted > 0
        ctx.ev("end", aborted, repr([float(getattr(cam, n)) for n in names]))
