"""Runs the seeded search for one property, minimises and confirms a violation, writes the evidence.

    run.py check C01 [--tier quick|thorough] [--runs N] [--workers N] [--seed N]
    run.py replay FILE [--verbose]
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import kernel

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SHIM_SRC = os.path.join(VERIF, "shim", "simdisk.c")
SHIM = os.path.join(VERIF, "build", "libsimdisk.so")

WORLDS = {}


def registry():
    from .worlds import REGISTRY
    return REGISTRY


def load_world(prop):
    mod, cls = registry()[prop]
    return getattr(importlib.import_module("sim.worlds." + mod), cls)()


def build_shim():
    """Build the disk interposer (atomically, so that concurrent checks do not disturb each other)."""
    if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(SHIM_SRC):
        return
    os.makedirs(os.path.dirname(SHIM), exist_ok=True)
    tmp = SHIM + ".%d" % os.getpid()
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-Wall", "-o", tmp, SHIM_SRC, "-ldl"], check=True)
    os.replace(tmp, SHIM)


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def worker_env(scratch, hashseed="0"):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "VERIF_SEED", "VERIF_TIER", "SIM_DEBUG", "SIM_REPO")}
    env.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", QT_QPA_PLATFORM="offscreen", MPLBACKEND="agg",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", LC_ALL="C.UTF-8", TZ="UTC",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), XDG_RUNTIME_DIR=scratch, SIM_SCRATCH=scratch,
               PYTHONPATH=VERIF + os.pathsep + REPO, LD_PRELOAD=SHIM)
    return env


# ------------------------------------------------------------------------------------------------ worker side
def worker_setup(prop):
    """Import the code under test from the working tree and get ready to fork runs."""
    sys.path.insert(0, REPO)
    world = load_world(prop)
    world.setup()
    for name in world.modules:
        m = importlib.import_module(name)
        if not os.path.abspath(m.__file__).startswith(REPO + os.sep):
            raise kernel.HarnessError("%s imported from %s, not from %s" % (name, m.__file__, REPO))
    import gc
    gc.collect()
    gc.freeze()
    return world


def worker_main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--mode", default="search")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--runs", type=int, default=100)
    ap.add_argument("--wall", type=float, default=600)
    ap.add_argument("--out")
    ap.add_argument("--stop")
    ap.add_argument("--program")
    ap.add_argument("--keep-digests", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    world = worker_setup(a.prop)
    world.tier = a.tier
    setup_s = time.monotonic() - t0
    if a.mode == "exec":           # run given programs: list in, list of results out
        programs = json.load(open(a.program))
        out = [kernel.run_forked(world, p["program"], verbose=p.get("verbose", False)) for p in programs]
        json.dump(out, open(a.out, "w"))
        return 0
    if a.mode == "minimise":
        spec = json.load(open(a.program))
        prog, cls = spec["program"], spec["cls"]
        runner = lambda p: kernel.run_forked(world, p)
        r = runner(prog)
        repro = r["ok"] is False and r["cls"] == cls
        if repro:
            q = world.explicit(prog, r)
            if q is not prog:
                r2 = runner(q)
                if r2["ok"] is False and r2["cls"] == cls:
                    prog = q
            small = kernel.minimise(world, prog, cls, runner, wall=spec.get("wall", 60))
            r = kernel.run_forked(world, small, verbose=True)
            if not (r["ok"] is False and r["cls"] == cls):
                small, r = prog, kernel.run_forked(world, prog, verbose=True)
            prog = small
        json.dump(dict(repro=repro, program=prog, result=r), open(a.out, "w"))
        return 0
    # search
    agg = dict(runs=0, faults={}, probes={}, states=set(), events=0, checks=0, interesting=0, nontrivial=set(), samples=[],
               digests=[], viol=None, error=None, switches=0, schedules=set(), setup_s=setup_s, wall_hit=False)
    i = a.first
    while i < a.runs:
        if time.monotonic() - t0 > a.wall:
            agg["wall_hit"] = True
            break
        if a.stop and os.path.exists(a.stop):
            try:
                if int(open(a.stop).read() or -1) < i:
                    break
            except ValueError:
                pass
        seed = kernel.run_seed(a.seed, a.prop, a.tier, i)
        program = world.gen(kernel.rng_for(seed), a.tier)
        program = json.loads(json.dumps(program))
        r = kernel.run_forked(world, program)
        if r["ok"] is None:
            agg["error"] = "run %d (seed %d): %s\nprogram: %s" % (i, seed, r["error"], json.dumps(program)[:3000])
            break
        agg["runs"] += 1
        agg["events"] += r["events"]
        agg["checks"] += r["checks"]
        for k in ("faults", "probes"):
            for n, v in r[k].items():
                agg[k][n] = agg[k].get(n, 0) + v
        agg["states"].update(r["states"])
        if r["interesting"]:
            agg["interesting"] += 1
            agg["nontrivial"].add(r["digest"])
        if r["switches"] is not None:
            agg["switches"] += len(r["switches"])
            agg["schedules"].add(hash(json.dumps([r["switches"], program.get("ops")])))
        if a.keep_digests:
            agg["digests"].append((i, r["digest"], r["ok"]))
        if len(agg["samples"]) < 2 and r["interesting"] and i % 7 == a.first % 7:
            agg["samples"].append(dict(run=i, seed=seed, program=program, digest=r["digest"], faults=r["faults"]))
        if r["ok"] is False:
            agg["viol"] = dict(index=i, seed=seed, program=program, cls=r["cls"], msg=r["msg"], digest=r["digest"])
            if a.stop:
                cur = None
                try:
                    cur = int(open(a.stop).read())
                except (OSError, ValueError):
                    pass
                if cur is None or i < cur:
                    tmp = a.stop + ".%d" % os.getpid()
                    with open(tmp, "w") as fp:
                        fp.write(str(i))
                    os.replace(tmp, a.stop)
            break
        i += a.stride
    for k in ("states", "nontrivial", "schedules"):
        agg[k] = sorted(agg[k])
    with open(a.out + ".tmp", "w") as fp:
        json.dump(agg, fp)
    os.replace(a.out + ".tmp", a.out)
    return 0


# ------------------------------------------------------------------------------------------------ parent side
class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="ctsim.", dir=scratch_base())
        os.makedirs(os.path.join(self.path, "mpl"))
        return self.path

    def __exit__(self, *exc):
        assert os.path.basename(self.path).startswith("ctsim.")
        shutil.rmtree(self.path, ignore_errors=True)


def fixed_layout():
    """no address space randomisation (where the kernel allows it): object addresses are the same in every run"""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def spawn(scratch, args, hashseed="0"):
    return subprocess.Popen([PY, "-m", "sim.worker"] + [str(x) for x in args], cwd=scratch, env=worker_env(scratch, hashseed),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True,
                            preexec_fn=fixed_layout)


def reap(p, timeout):
    try:
        out = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out = (p.communicate()[0] or b"") + b"\n(killed: timeout)"
    return out.decode("utf8", "replace")


def exec_programs(prop, programs, hashseed="0", timeout=300):
    """Run programs in one fresh worker process; used for confirmation and replay."""
    with Scratch() as scratch:
        pin, pout = os.path.join(scratch, "in.json"), os.path.join(scratch, "out.json")
        json.dump(programs, open(pin, "w"))
        p = spawn(scratch, [prop, "--mode", "exec", "--program", pin, "--out", pout], hashseed)
        text = reap(p, timeout)
        if not os.path.exists(pout):
            raise kernel.HarnessError("worker failed:\n" + text[-3000:])
        return json.load(open(pout))


def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def check(prop, tier, seed, runs=None, workers=None, wall=None, keep_digests=False, quiet=False, hashseed="0", write=True):
    t0 = time.time()
    build_shim()
    sys.path.insert(0, VERIF)
    from .worlds import META
    meta = META[prop]
    runs = runs or (meta["quick_runs"] if tier == "quick" else meta["thorough_runs"])
    wall = wall or (meta.get("quick_wall", 240) if tier == "quick" else 3000)
    workers = workers or min(8, os.cpu_count() or 1)
    with Scratch() as scratch:
        stop = os.path.join(scratch, "stop")
        procs = []
        for w in range(workers):
            out = os.path.join(scratch, "out%d.json" % w)
            sub = os.path.join(scratch, "w%d" % w)
            os.makedirs(os.path.join(sub, "mpl"))
            procs.append((spawn(sub, [prop, "--tier", tier, "--seed", seed, "--first", w, "--stride", workers, "--runs", runs,
                                      "--wall", wall, "--out", out, "--stop", stop] + (["--keep-digests"] if keep_digests else []), hashseed), out))
        aggs = []
        for p, out in procs:
            text = reap(p, wall + 300)
            if not os.path.exists(out):
                for q, _ in procs:
                    try:
                        os.killpg(q.pid, signal.SIGKILL)
                    except OSError:
                        pass
                raise kernel.HarnessError("worker failed:\n" + text[-4000:])
            aggs.append(json.load(open(out)))
        errors = [a["error"] for a in aggs if a["error"]]
        viols = sorted((a["viol"] for a in aggs if a["viol"]), key=lambda v: v["index"])
        replay = None
        if viols:
            v = viols[0]
            pin, pout = os.path.join(scratch, "min.json"), os.path.join(scratch, "minout.json")
            json.dump(dict(program=v["program"], cls=v["cls"], wall=60 if tier == "quick" else 240), open(pin, "w"))
            sub = os.path.join(scratch, "wm")
            os.makedirs(os.path.join(sub, "mpl"))
            p = spawn(sub, [prop, "--mode", "minimise", "--program", pin, "--out", pout])
            text = reap(p, 600)
            rec = dict(property=prop, tier=tier, verif_seed=seed, run_index=v["index"], run_seed=v["seed"],
                       violation=dict(cls=v["cls"], msg=v["msg"]), program=v["program"], digest=v["digest"], minimised=False)
            if os.path.exists(pout):
                m = json.load(open(pout))
                rec["original_program"] = v["program"]
                rec["reproduced"] = m["repro"]
                if m["repro"]:
                    rec.update(program=m["program"], minimised=True, digest=m["result"]["digest"], trace=m["result"]["tail"],
                               violation=dict(cls=m["result"]["cls"], msg=m["result"]["msg"]))
            # confirm in two fresh processes
            try:
                conf = [exec_programs(prop, [dict(program=rec["program"])], hashseed=h)[0] for h in ("0", "1")]
                rec["confirmed_in_fresh_process"] = [bool(c["ok"] is False and c.get("cls") == rec["violation"]["cls"] and
                                                          c["digest"] == rec["digest"]) for c in conf]
            except kernel.HarnessError as e:
                rec["confirmed_in_fresh_process"] = str(e)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            replay = os.path.join(VERIF, "replays", "%s-seed%s-run%d.json" % (prop, seed, v["index"]))
            with open(replay, "w") as fp:
                json.dump(rec, fp, indent=1)
    wall_s = time.time() - t0
    tot = dict(runs=sum(a["runs"] for a in aggs), events=sum(a["events"] for a in aggs), checks=sum(a["checks"] for a in aggs))
    faults, probes = {}, {}
    for a in aggs:
        for src, dst in ((a["faults"], faults), (a["probes"], probes)):
            for k, n in src.items():
                dst[k] = dst.get(k, 0) + n
    states = set(s for a in aggs for s in a["states"])
    nontrivial = set(s for a in aggs for s in a["nontrivial"])
    schedules = set(s for a in aggs for s in a["schedules"])
    ev = dict(property=prop, tier=tier, seed=int(seed), level=meta["level"], wall_s=round(wall_s, 2),
              violations=len(viols), assumptions=meta["assumptions"],
              coverage=dict(evaluations=tot["runs"], distinct_nontrivial=len(nontrivial), rule=meta["rule"],
                            samples=[s for a in aggs for s in a["samples"]][:3],
                            runs_per_hour=int(tot["runs"] / wall_s * 3600), seeds_per_hour=int(tot["runs"] / wall_s * 3600),
                            simulated_events=tot["events"], oracle_checks=tot["checks"],
                            simulated_time="no clock in this world; covered %d simulated events" % tot["events"],
                            faults_injected=dict(sorted(faults.items())), reach_probes=dict(sorted(probes.items())),
                            distinct_states=len(states), state_measure=meta["state_measure"],
                            schedule_switches=sum(a["switches"] for a in aggs), distinct_schedules=len(schedules),
                            components_real=meta["real"], components_stub=meta["stub"], workers=workers,
                            runs_planned=runs, wall_cap_hit=any(a["wall_hit"] for a in aggs)))
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as fp:
            json.dump(ev, fp, indent=1)
        os.replace(path + ".tmp", path)
    result = dict(viols=viols, replay=replay, errors=errors, evidence=ev,
                  digests=sorted(tuple(d) for a in aggs for d in a["digests"]))
    if quiet:
        return result
    print("%s %s seed=%s: %d runs (%d distinct non-trivial), %d events, %d checks, %d states, %.1f s; faults %s" %
          (prop, tier, seed, tot["runs"], len(nontrivial), tot["events"], tot["checks"], len(states), wall_s,
           ", ".join("%s=%d" % kv for kv in sorted(faults.items())) or "none"))
    known = [f for f in load_findings() if f.get("property") == prop and f.get("status") == "known"]
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if viols:
        v = json.load(open(replay))
        print("violation in run %d (seed %d): [%s] %s" % (v["run_index"], v["run_seed"], v["violation"]["cls"], v["violation"]["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        print("HARNESS ERROR:\n" + errors[0], file=sys.stderr)
        return 2
    return 0


def replay_file(path, verbose=False):
    build_shim()
    rec = json.load(open(path))
    res = exec_programs(rec["property"], [dict(program=rec["program"], verbose=True)])[0]
    if verbose:
        for line in res["tail"]:
            print("  ", line)
    if res["ok"] is None:
        print("HARNESS ERROR:\n" + res["error"])
        return 2
    if res["ok"]:
        print("replay of %s: no violation" % path)
        return 0
    same = res["cls"] == rec["violation"]["cls"] and res["digest"] == rec["digest"]
    print("replay: [%s] %s" % (res["cls"], res["msg"]))
    print("replay digest %s, recorded %s: %s" % (res["digest"], rec["digest"], "identical" if same else "DIFFERENT"))
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    c.add_argument("--runs", type=int)
    c.add_argument("--workers", type=int)
    c.add_argument("--wall", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--verbose", action="store_true")
    sub.add_parser("setup")
    a = ap.parse_args(argv)
    try:
        if a.cmd == "setup":
            build_shim()
            return 0
        if a.cmd == "replay":
            return replay_file(a.file, a.verbose)
        return check(a.prop, a.tier, a.seed, a.runs, a.workers, a.wall)
    except kernel.HarnessError as e:
        print("HARNESS ERROR: %s" % e, file=sys.stderr)
        return 2
