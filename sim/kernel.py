"""Core of the simulator: violations, the per-run context, hermetic (forked) execution of one run.

One run is a pure function of its *program*: a JSON value holding the workload, the fault plan and the schedule
(or the seed of the schedule policy).  `World.gen(rng, tier)` derives it from the run seed; nothing else is random.
"""
import faulthandler
import hashlib
import json
import os
import pickle
import random
import signal
import struct
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold in this run.  `cls` names the kind of violation (minimisation preserves it)."""

    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


class HarnessError(Exception):
    """Something is wrong with the simulator itself."""


class Ctx:
    """Collects what happened in one run.  Nothing in here draws random numbers or reads a clock."""

    def __init__(self, verbose=False):
        self._h = hashlib.sha256()
        self.events = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.trace = [] if verbose else None
        self.tail = []
        self.checks = 0
        self.switches = None       # executed schedule (list of [step, thread]) if the run had one
        self.interesting = False

    def ev(self, *what):
        line = repr(what)
        self._h.update(line.encode("utf8", "replace"))
        self.events += 1
        if self.trace is not None:
            self.trace.append(line)
        else:
            self.tail.append(line[:300])
            if len(self.tail) > 60:
                del self.tail[:30]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.ev("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *sig):
        self.states.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:12])

    def check(self, n=1):
        self.checks += n

    def digest(self):
        return self._h.hexdigest()[:20]


def run_seed(verif_seed, prop, tier, index):
    h = hashlib.sha256(("%s/%s/%s/%s" % (verif_seed, prop, tier, index)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(seed):
    return random.Random(seed)


def _execute(world, program, verbose=False, quiet=True):
    """Run in this process; returns the result record."""
    ctx = Ctx(verbose)
    res = dict(ok=True)
    try:
        world.execute(program, ctx)
    except Violation as v:
        res = dict(ok=False, cls=v.cls, msg=v.msg[:4000])
        ctx.ev("violation", v.cls)
    except HarnessError:
        raise
    except Exception as e:
        # an exception that comes out of the code under test where the world expected none
        where = repo_frame(e)
        if where is None:
            # what the code under test returned could not even be examined
            if isinstance(e, (OSError, MemoryError, ImportError, NameError, RuntimeError, AssertionError)):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            where = "the examination of its results (%s:%s)" % (os.path.basename(tb.filename), tb.name)
        res = dict(ok=False, cls="exception:%s" % type(e).__name__,
                   msg="unexpected %s: %s at %s" % (type(e).__name__, str(e)[:500], where))
        ctx.ev("violation", res["cls"])
    res.update(digest=ctx.digest(), events=ctx.events, faults=ctx.faults, probes=ctx.probes, states=sorted(ctx.states),
               checks=ctx.checks, switches=ctx.switches, interesting=ctx.interesting,
               tail=(ctx.trace if verbose else ([] if res["ok"] else ctx.tail)))
    return res


def repo_frame(e):
    """file:function of the innermost frame of the code under test in the traceback, or None"""
    root = os.path.join(os.environ.get("SIM_REPO", "/repo"), "cameratransform") + os.sep
    where = None
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(root):
            where = "%s:%s" % (fn[len(root):], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return where


RUN_WALL_LIMIT = 90      # seconds; a normal run takes milliseconds to one second


def run_forked(world, program, verbose=False):
    """Execute one program in a forked child of this pristine process, so that no run sees what another one did.

    The wall clock decides only whether to give up on a run.  It is no part of the simulation, so a run that was given up counts
    as a violation only if it never ends when it is repeated either (a loaded machine or a stopped process is no violation)."""
    r = _run_forked(world, program, verbose, RUN_WALL_LIMIT)
    if r.pop("given_up", False):
        again = _run_forked(world, program, verbose, 2 * RUN_WALL_LIMIT)
        if not again.pop("given_up", False):
            again["probes"] = dict(again.get("probes") or {}, **{"run repeated, the first attempt did not end": 1})
            again["first_attempt"] = r["msg"]
            return again
    return r


def _run_forked(world, program, verbose, limit):
    stacks_fd = stacks_file()
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            devnull = os.open(os.devnull, os.O_RDWR)
            if not os.environ.get("SIM_DEBUG"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            os.dup2(devnull, 0)
            faulthandler.register(signal.SIGUSR1, file=stacks_fd, all_threads=True)
            try:
                res = _execute(world, program, verbose)
            except BaseException:
                res = dict(ok=None, error=traceback.format_exc())
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as fp:
                fp.write(struct.pack("<q", len(data)) + data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    deadline = time.monotonic() + limit
    import select
    hung, stacks = False, ""
    with os.fdopen(r, "rb", buffering=0) as fp:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                hung = True
                break
            if not select.select([fp], [], [], left)[0]:
                hung = True
                break
            chunk = fp.read(1 << 16)
            if not chunk:
                break
            data += chunk
            # other processes of the run may still hold the pipe open
            if len(data) >= 8 and len(data) >= 8 + struct.unpack("<q", data[:8])[0]:
                break
    if hung:
        stacks = stacks_of(pid)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    if len(data) >= 8 and len(data) == 8 + struct.unpack("<q", data[:8])[0]:
        return pickle.loads(data[8:])
    empty = dict(digest="", events=0, faults={}, probes={}, states=[], checks=0, switches=None, interesting=False, tail=[])
    if hung:
        return dict(empty, ok=False, cls="no-progress", given_up=True,
                    msg="the run made no progress for %d s (a normal run takes less than 2 s)%s" % (limit, stacks))
    if os.WIFSIGNALED(status):
        return dict(empty, ok=False, cls="process-died", msg="the simulated process died with signal %d" % os.WTERMSIG(status))
    return dict(empty, ok=None, error="run child ended without a result (status %d)" % status)


_stacks = []            # descriptor of a file in memory which the runs write their stacks to when asked


def stacks_file():
    if not _stacks:
        fd = os.memfd_create("stacks")
        os.set_inheritable(fd, False)
        _stacks.append(fd)
    return _stacks[0]


def stacks_of(pid):
    """where the threads of a run that does not end are (asked of faulthandler, see run_forked)"""
    fd = stacks_file()
    try:
        os.ftruncate(fd, 0)
        os.lseek(fd, 0, os.SEEK_SET)
        os.kill(pid, signal.SIGUSR1)
        for _ in range(40):
            time.sleep(0.05)
            if os.fstat(fd).st_size:
                time.sleep(0.05)
                break
        return "\n" + os.pread(fd, 3000, 0).decode("utf8", "replace")
    except OSError:
        return ""


class Pristine:
    """A process forked before the run touched anything; every call is answered by a fresh fork of it."""

    def __init__(self, handler):
        self.rq_r, self.rq_w = os.pipe()
        self.rs_r, self.rs_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.rq_w)
                os.close(self.rs_r)
                fin = os.fdopen(self.rq_r, "rb")
                while True:
                    head = fin.read(8)
                    if len(head) < 8:
                        break
                    data = fin.read(struct.unpack("<q", head)[0])
                    p = os.fork()
                    if p == 0:
                        try:
                            out = ("ok", handler(pickle.loads(data)))
                        except BaseException:
                            out = ("err", traceback.format_exc())
                        out = pickle.dumps(out)
                        with os.fdopen(self.rs_w, "wb") as fp:
                            fp.write(struct.pack("<q", len(out)) + out)
                        os._exit(0)
                    os.waitpid(p, 0)
            finally:
                os._exit(0)
        os.close(self.rq_r)
        os.close(self.rs_w)
        self.fin = os.fdopen(self.rs_r, "rb")

    def call(self, arg):
        data = pickle.dumps(arg)
        os.write(self.rq_w, struct.pack("<q", len(data)) + data)
        head = self.fin.read(8)
        if len(head) < 8:
            raise HarnessError("pristine process gave no answer")
        kind, value = pickle.loads(self.fin.read(struct.unpack("<q", head)[0]))
        return kind, value


# ------------------------------------------------------------------------------------------------ minimisation
def ddmin(items, test, budget):
    """Classic delta debugging over a list; `test(list)` says whether the violation persists."""
    n = 2
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + size:]
            budget[0] -= 1
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(world, program, cls, runner, wall=60.0):
    """Shrink the program while the same class of violation persists."""
    deadline = time.monotonic() + wall
    budget = [1500]
    best = program

    def persists(p):
        if time.monotonic() > deadline:
            budget[0] = 0
            return False
        try:
            r = runner(p)
        except Exception:
            return False
        return r["ok"] is False and r["cls"] == cls

    def with_path(p, path, value):
        q = json.loads(json.dumps(p))
        node = q
        for k in path[:-1]:
            node = node[k]
        node[path[-1]] = value
        return q

    for _ in range(3):
        before = json.dumps(best)
        for path in world.shrink_lists(best):
            node = best
            for k in path:
                node = node[k]
            if not node:
                continue
            if len(node) > 1 or True:
                out = ddmin(list(node), lambda c: persists(with_path(best, path, c)), budget)
                best = with_path(best, path, out)
        for cand in world.simplifications(best):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            if persists(cand):
                best = cand
        if json.dumps(best) == before or budget[0] <= 0:
            break
    return best


class World:
    """One property's simulated world."""
    prop = None
    quick_runs = 1000
    thorough_runs = 20000
    rule = ""
    real = []           # components that run the repository's (or third-party) real code
    stub = []           # components replaced by the simulator
    assumptions = []
    modules = ["cameratransform"]

    def setup(self):
        """Called once in the worker before any run is forked (import the code under test here)."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, program, ctx):
        raise NotImplementedError

    def shrink_lists(self, program):
        return [[k] for k in ("ops", "faults") if isinstance(program.get(k), list)]

    def simplifications(self, program):
        return iter(())

    def explicit(self, program, result):
        """Turn a seeded schedule into the explicit list of switches that was executed (for minimisation and replay)."""
        if result.get("switches") is not None and "sched" in program:
            q = json.loads(json.dumps(program))
            q["sched"] = dict(kind="list", switch=result["switches"])
            return q
        return program
