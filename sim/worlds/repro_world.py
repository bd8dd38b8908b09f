"""C12: one seeded scenario in differently conditioned processes gives the same bits."""
import hashlib
import json
import os
import random
import subprocess
import sys
import time

import numpy as np

from .. import camlib, history, server
from ..kernel import World, Violation, HarnessError, Ctx
from .search_world import gen_land, gen_search_params, make_fit_parameters, Recorder, PLAIN

HASHSEEDS = ["1", "4242"]


def server_setup():
    camlib.setup()
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import gc
    gc.collect()
    gc.freeze()


class SimClock:
    """the clock of one variant: steady, frozen, jumping back and forth, or racing"""

    def __init__(self, kind):
        self.kind, self.n = kind, 0

    def __call__(self):
        self.n += 1
        if self.kind == "frozen":
            return 1.6e9
        if self.kind == "jumps":
            return 1.6e9 + self.n * 0.01 + (3600 if self.n % 7 == 3 else 0) - (86400 if self.n % 11 == 5 else 0)
        if self.kind == "racing":
            return 1.6e9 + self.n * 1000.0
        return 1.6e9 + self.n * 1e-4


def condition(variant):
    """make this process one of the given kind"""
    import tqdm.std
    clock = SimClock(variant["clock"])
    time.time = time.monotonic = time.perf_counter = tqdm.std.time = clock
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(clock() * 1e9)
    # entropy of the operating system, python's own generator
    r = random.Random(variant["entropy"])
    random._urandom = lambda n: r.randbytes(n)
    random.seed(variant["entropy"])
    keep = []
    q = random.Random(variant["junk"])
    for _ in range(variant["junk"] % 4096):
        keep.append([None] * q.randrange(40) if q.random() < 0.5 else bytearray(q.randrange(600)))
    del keep[::3]
    np.random.seed(variant["entropy"] % 1000)
    others = []
    for k in range(variant["activity"]):
        o = camlib.build_live(camlib.gen_spec(q))
        camlib.observe(o, 1)
        if k % 2:
            o.elevation_m = (20, 3)
            o.addCustomoLogProbability(lambda o=o: -float(o.elevation_m - 7) ** 2)
            p = [camlib.ct.FitParameter("elevation_m", lower=0, upper=50, value=9), camlib.ct.FitParameter("pos_x_m", lower=-9, upper=9, value=1),
                 camlib.ct.FitParameter("pos_y_m", lower=-9, upper=9, value=1)][:q.randint(1, 3)]
            if variant.get("tuned"):
                # long enough that its step size is tuned
                o.metropolis(p, iterations=400, burn=0.8, disable_bar=True, print_trace=False)
            else:
                o.metropolis(p, iterations=15, disable_bar=True, print_trace=False) if k % 3 else o.fit(p)
            o.sample()
        others.append(o)
    return keep, others


def digest(*what):
    return hashlib.sha1(b"|".join(w if isinstance(w, bytes) else repr(w).encode() for w in what)).hexdigest()[:16]


def scenario(arg):
    """-> dict(log=[...], draws=[...], reseeded=bool, pystate=bool)"""
    program, variant, seed = arg
    keep, others = condition(variant)
    s = history.System(program["spec"], Ctx())
    o = s.group if s.group is not None else s.cams[0]
    out, draws = [], []
    flags = dict(reseeded=None)
    real_seed, real_set = np.random.seed, np.random.set_state
    real_seed(seed)

    def guard(name):
        def f(*a, **kw):
            flags["reseeded"] = name
            return (real_seed if name == "seed" else real_set)(*a, **kw)
        return f
    np.random.seed, np.random.set_state = guard("seed"), guard("set_state")
    py = digest(random.getstate())
    start_state = digest(repr(np.random.get_state()))

    def values():
        return [(n, repr(float(getattr(o, n)))) for n in s.names(["g"] if s.group is not None else ["c", 0])]

    for k, op in enumerate(program["ops"]):
        if others and variant.get("between"):
            other = others[k % len(others)]
            other.roll_deg = k
            camlib.observe(other, 1)
        if op["op"] == "set":
            v = op["value"]
            setattr(o, op["name"], tuple(v) if isinstance(v, list) else v)
            res = "set"
        elif op["op"] == "search":
            extra = make_fit_parameters(op["extra"])
            rec = Recorder(o, op["params"], extra, op["land"])
            o.addCustomoLogProbability(rec, extra if extra else None)
            try:
                if op["kind"] == "metropolis":
                    tr = o.metropolis(make_fit_parameters(op["params"]), step=op["step"], iterations=op["iterations"], burn=op["burn"],
                                      disable_bar=op["nobar"], print_trace=False)
                    res = ("trace", list(tr.columns), tr.shape, digest(np.ascontiguousarray(tr.to_numpy()).tobytes()), repr(tr.to_numpy()[-1].tolist()))
                else:
                    kw = dict(method=op["method"]) if op.get("method") else {}
                    r = o.fit(make_fit_parameters(op["params"]), options=dict(maxiter=op["iterations"]), **kw)
                    res = ("fit", digest(np.ascontiguousarray(r["x"]).tobytes()), repr(np.asarray(r["x"]).tolist()))
            except ValueError as e:
                if "starting position" not in str(e):
                    raise
                res = "no start"
            o.clearLogProbability()
            evals = digest([sorted((n, repr(v)) for n, v in p.items()) for p, _ in rec.log])
            if op["kind"] == "metropolis":
                draws.append(("metropolis", k, evals))
            res = (res, len(rec.log), evals)
        elif op["op"] == "sample":
            got = []
            for _ in range(op["n"]):
                r = o.sample()
                got.append((repr(r) if r is None else repr(float(r)), values()))
            res = ("sample", digest(got), got[-1])
            if len(set(map(repr, got))) > 2:
                draws.append(("sample", k, digest(got)))
        elif op["op"] == "mean":
            o.set_to_mean()
            res = "mean"
        elif op["op"] == "notrace":
            o.set_trace(None)
            res = "notrace"
        out.append((k, op["op"], res, values(), digest(repr(np.random.get_state()))))
    obs = [{n: (v if isinstance(v, str) else digest(v.tobytes())) for n, v in camlib.observe(c, 1).items()} for c in s.cams]
    np.random.seed, np.random.set_state = real_seed, real_set
    return dict(log=out, draws=draws, reseeded=flags["reseeded"], python_random=digest(random.getstate()) != py, obs=obs,
                end=digest(repr(np.random.get_state())), drew=digest(repr(np.random.get_state())) != start_state)


class C12(World):
    prop = "C12"

    def setup(self):
        server_setup()
        self.paths = []
        self.procs = []
        from ..runner import PY, fixed_layout
        for h in HASHSEEDS:
            path = os.path.join(os.environ["SIM_SCRATCH"], "srv-%d-%s" % (os.getpid(), h))
            env = dict(os.environ, PYTHONHASHSEED=h)
            self.procs.append(subprocess.Popen([PY, "-m", "sim.server", path, "sim.worlds.repro_world", "scenario"], env=env, stdin=subprocess.PIPE,
                                               preexec_fn=fixed_layout))
            self.paths.append(path)
        t = time.monotonic()
        while not all(os.path.exists(p) for p in self.paths):
            time.sleep(0.05)
            if time.monotonic() - t > 120 or any(p.poll() is not None for p in self.procs):
                raise HarnessError("the helper processes did not start")

    def gen(self, rng, tier):
        group = rng.random() < 0.25
        spec = history.gen_group_spec(rng) if group else camlib.gen_spec(rng)
        st = history.GenState(spec)
        t = ["g"] if group else ["c", 0]
        names = [x for x in st.names(t, gps=False) if x[1] in PLAIN and not x[1].startswith("focal")]
        ops = []
        if rng.random() < 0.6:
            attr, n = rng.choice(names)
            ops += [dict(op="set", name=attr, value=[camlib.gen_value(rng, n), 0.02]), dict(op="sample", n=25)]
        for _ in range(rng.randint(2, 6 if tier == "quick" else 12)):
            kind = rng.choice(["set", "set", "search", "search", "search", "sample", "sample", "mean", "notrace"])
            if kind == "set":
                attr, n = rng.choice(names)
                v = camlib.gen_value(rng, n)
                ops.append(dict(op="set", name=attr, value=[v, abs(v) * 0.03 + 0.01] if rng.random() < 0.7 else v))
            elif kind == "search":
                params, ranges = [], {}
                for attr, n in rng.sample(names, rng.randint(1, min(3, len(names)))):
                    lo, hi = history.BOUNDS[n] if n in history.BOUNDS else (-1, 1)
                    p = dict(name=attr, value=float(lo + (hi - lo) * rng.random()), step=float((hi - lo) * rng.choice([0.02, 0.1, 0.5])))
                    if rng.random() < 0.7:
                        p.update(lower=float(lo), upper=float(hi))
                    else:
                        p.update(dist=rng.choice(["normal", "meanstd"]))
                    params.append(p)
                    ranges[attr] = (lo, hi)
                extra = []
                what = rng.choice(["metropolis", "metropolis", "fit"])
                if what == "metropolis" and rng.random() < 0.3:
                    extra = [dict(name="extra", value=0.5, lower=0.0, upper=1.0, step=0.2)]
                    ranges["extra"] = (0, 1)
                land = gen_land(rng, ranges)
                if rng.random() < 0.3:
                    land["kind"] = "hole"
                    for n, (lo, hi) in ranges.items():
                        land["s"][n] = (hi - lo) * 0.1
                op = dict(op="search", kind=what, params=params, extra=extra, land=land, step=rng.choice([1, 0.3]), burn=rng.choice([0, 0.1, 0.5]),
                          nobar=rng.random() < 0.3, iterations=rng.choice([10, 30, 120, 320]) if what == "metropolis" else rng.choice([3, 20]))
                if what == "metropolis" and rng.random() < 0.2:
                    # long enough that the step size is tuned
                    op.update(iterations=rng.choice([400, 600]), burn=rng.choice([0.6, 0.8]))
                if what == "fit":
                    op["method"] = rng.choice([None, None, "Nelder-Mead"])
                    if not op["method"] and land["kind"] in ("hole", "nanhole"):
                        op["method"] = "Nelder-Mead"
                ops.append(op)
            elif kind == "sample":
                ops.append(dict(op="sample", n=25))
            else:
                ops.append(dict(op=kind))

        def variant(server=None):
            return dict(clock=rng.choice(["steady", "frozen", "jumps", "racing"]), entropy=rng.randrange(1 << 30), junk=rng.randrange(1 << 30),
                        activity=rng.choice([0, 1, 2, 3]), between=rng.random() < 0.5, tuned=rng.random() < 0.35, server=server)
        return dict(spec=spec, ops=ops, seed=rng.randrange(1 << 31), seed2=rng.randrange(1 << 31), variants=[variant(i) for i in (0, 1)])

    def ask(self, i, arg):
        kind, val = server.call(self.paths[i], arg)
        return kind, val

    def execute(self, program, ctx):
        plain = dict(clock="steady", entropy=1, junk=0, activity=0, between=False)
        pid_results = []
        from ..kernel import Pristine
        here = Pristine(scenario)
        kind, want = here.call((program, plain, program["seed"]))
        if kind == "err":
            if "/cameratransform/" in want:
                raise Violation("exception", "the scenario fails: %s" % want[-600:])
            raise HarnessError(want)
        for k, line in enumerate(want["log"]):
            ctx.ev(line)
        self.judge_draws(want, "reference", ctx)
        for i, v in enumerate(program["variants"]):
            kind, got = self.ask(v["server"], (program, v, program["seed"]))
            where = "process %d (PYTHONHASHSEED=%s, clock %s, %d other cameras used%s, other memory layout)" % (
                i + 1, HASHSEEDS[v["server"]], v["clock"], v["activity"], " also in between" if v["between"] else "")
            if kind == "err":
                raise Violation("fails-elsewhere", "%s: %s" % (where, got[-600:]))
            ctx.check(len(want["log"]))
            ctx.fault("clock:" + v["clock"])
            ctx.fault("hash seed:" + HASHSEEDS[v["server"]])
            for a, b in zip(want["log"], got["log"]):
                if a != b:
                    raise Violation("not-reproducible", "%s: step %d (%s) gives %s, the plain process %s" % (where, a[0], a[1], repr(b[2:])[:400], repr(a[2:])[:400]))
            if want["obs"] != got["obs"] or want["end"] != got["end"]:
                raise Violation("not-reproducible", "%s: transforms or generator state differ at the end" % where)
            self.judge_draws(got, where, ctx)
        # another seed gives other random numbers
        kind, other = here.call((program, plain, program["seed2"]))
        if kind == "err":
            raise Violation("exception", "the scenario fails with another seed: %s" % other[-600:])
        first = {(a, b): c for a, b, c in want["draws"]}
        for a, b, c in other["draws"]:
            ctx.check()
            if first.get((a, b)) == c:
                raise Violation("seed-ignored", "step %d (%s) gives the same values for two different seeds of numpy's generator" % (b, a))
        if want["drew"] and want["end"] == other["end"]:
            raise Violation("reseeded", "numpy's generator ends in the same state for two different seeds")
        for op in program["ops"]:
            ctx.state(op["op"], op.get("kind"), op.get("land", {}).get("kind"), [(v["clock"], v["activity"]) for v in program["variants"]])
        ctx.interesting = len(want["draws"]) > 0
        ctx.ev("end", want["end"])

    def judge_draws(self, r, where, ctx):
        ctx.check(2)
        if r["reseeded"]:
            raise Violation("reseeded", "%s: the library called numpy.random.%s" % (where, r["reseeded"]))
        if r["python_random"]:
            raise Violation("other-generator", "%s: python's own random generator was used" % where)
