"""Deterministic scheduling of real threads: exactly one runs at a time, and the schedule decides at every executed line (or
bytecode) of the code under test whether another one continues.

Only the token holder runs, so the interleaving is a function of the schedule alone.  Locks which the code under test creates are
replaced by cooperative ones (install_locks), so that a waiting thread gives the token away.
"""
import _thread
import dis
import os
import random
import sys
import time

from .kernel import HarnessError

ROOT = os.path.join(os.environ.get("SIM_REPO", "/repo"), "cameratransform") + os.sep
_allocate = _thread.allocate_lock
CURRENT = [None]           # the scheduler of this run

_MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "sort", "write", "replace", "save", "start", "emit"}
_stores = {}


def store_lines(code):
    """the lines of a code object that change something other threads can see (attributes, items, globals, containers)"""
    s = _stores.get(code)
    if s is None:
        s = set()
        line = code.co_firstlineno
        for i in dis.get_instructions(code):
            if i.starts_line:
                line = i.positions.lineno if i.positions is not None and i.positions.lineno else line
            if i.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR") or (
                    i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in _MUTATORS):
                s.add(line)
        _stores[code] = s
    return s


class Deadlock(Exception):
    pass


class Killed(BaseException):
    """unwinds a simulated thread when the run is over"""


class Scheduler:
    def __init__(self, sched, n, max_steps=400000):
        """sched: dict(kind="list", switch=[[step, tid], ...]) or a seeded policy"""
        self.n = n
        self.sched = sched
        self.step_no = 0
        self.max_steps = max_steps
        self.done = [False] * n
        self.waiting = [None] * n
        self.current = None
        self.gates = []
        for _ in range(n):
            g = _allocate()
            g.acquire()
            self.gates.append(g)
        self.main_gate = _allocate()
        self.main_gate.acquire()
        self.switches = []
        self.killed = False
        self.error = None
        self.opcodes = bool(sched.get("opcodes"))
        kind = sched["kind"]
        if kind == "list":
            self.plan = {int(s): int(t) for s, t in sched["switch"]}
        else:
            self.rng = random.Random(sched["seed"])
            if kind == "pct":
                self.prio = list(range(n))
                self.rng.shuffle(self.prio)
                self.points = sorted(self.rng.randrange(1, max(2, sched["length"])) for _ in range(sched["depth"]))
            elif kind in ("burst", "stores"):
                self.left = 1

    # --- choice
    def runnable(self):
        return [t for t in range(self.n) if not self.done[t] and self.waiting[t] is None]

    def choose(self, forced, hot=False):
        """the thread that runs next; forced: the current one cannot continue; hot: it just changed, or is about to change, shared data"""
        run = self.runnable()
        if not run:
            return None
        k = self.sched["kind"]
        cur = self.current
        if k == "list":
            t = self.plan.get(self.step_no)
            if t is not None and t in run:
                return t
            if forced or cur not in run:
                return run[0]
            return cur
        if k == "random":
            if forced or cur not in run or self.rng.random() < self.sched["p"]:
                return self.rng.choice(run)
            return cur
        if k == "burst":
            self.left -= 1
            if forced or cur not in run or self.left <= 0:
                self.left = self.rng.randint(1, self.sched["quantum"])
                return self.rng.choice(run)
            return cur
        if k == "stores":
            self.left -= 1
            if forced or cur not in run:
                self.left = self.rng.choice([10, 100, 1000, 10000])
                return self.rng.choice(run)
            if hot and len(run) > 1 and self.rng.random() < self.sched["p"]:
                self.left = self.rng.choice([10, 100, 1000, 10000])
                return self.rng.choice([t for t in run if t != cur])
            if self.left <= 0:
                self.left = self.rng.choice([10, 100, 1000])
                return self.rng.choice(run)
            return cur
        if k == "pct":
            while self.points and self.points[0] <= self.step_no:
                self.points.pop(0)
                if cur is not None:
                    self.prio[cur] = min(self.prio) - 1
            return max(run, key=lambda t: self.prio[t])
        raise HarnessError(k)

    # --- called by the simulated threads
    def step(self, tid, hot=False):
        if self.killed:
            raise Killed()
        self.step_no += 1
        if self.step_no > self.max_steps:
            self.error = "no progress: more than %d steps" % self.max_steps
            self._finish()
            raise Killed()
        nxt = self.choose(False, hot)
        if nxt != tid:
            self._switch(tid, nxt)

    def _switch(self, tid, nxt):
        self.switches.append([self.step_no, nxt])
        self.current = nxt
        self.gates[nxt].release()
        self.gates[tid].acquire()
        if self.killed:
            raise Killed()

    def block(self, tid, what):
        """tid cannot continue until unblock; gives the token away"""
        self.waiting[tid] = what
        self.step_no += 1
        nxt = self.choose(True)
        if nxt is None:
            self.error = "deadlock: every thread waits for a lock"
            self._finish()
            raise Killed()
        self._switch(tid, nxt)

    def unblock(self, what):
        for t in range(self.n):
            if self.waiting[t] is what:
                self.waiting[t] = None

    def _finish(self):
        self.killed = True
        for t in range(self.n):
            if t != self.current and not self.done[t]:
                try:
                    self.gates[t].release()
                except RuntimeError:
                    pass
        self.main_gate.release()

    def _exit(self, tid):
        self.done[tid] = True
        if self.killed:
            return
        self.step_no += 1
        nxt = self.choose(True)
        if nxt is None:
            if all(self.done):
                self.main_gate.release()
            else:
                self.error = "deadlock: the remaining threads wait for a lock for ever"
                self._finish()
            return
        self.switches.append([self.step_no, nxt])
        self.current = nxt
        self.gates[nxt].release()

    # --- tracing
    def tracer(self, tid):
        sched = self

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                sched.step(tid)
            return local

        def watching(stores):
            before = [False]

            def local(frame, event, arg):
                if event == "line" or event == "opcode":
                    now = frame.f_lineno in stores
                    hot = now or before[0]
                    before[0] = now
                    sched.step(tid, hot)
                return local
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            if sched.opcodes:
                frame.f_trace_opcodes = True
            if sched.sched["kind"] == "stores":
                stores = store_lines(frame.f_code)
                if stores:
                    return watching(stores)
            return local

        return glob

    def run(self, bodies):
        """bodies: one function per thread; returns when all are done"""
        assert len(bodies) == self.n
        self.tids = {}
        CURRENT[0] = self

        def start(tid, body):
            self.tids[_thread.get_ident()] = tid
            self.gates[tid].acquire()
            try:
                if self.killed:
                    return
                sys.settrace(self.tracer(tid))
                try:
                    body()
                finally:
                    sys.settrace(None)
            except Killed:
                pass
            finally:
                self._exit(tid)

        for i, b in enumerate(bodies):
            _thread.start_new_thread(start, (i, b))
        # wait until all threads are registered, so that identities are known
        while len(self.tids) < self.n:
            time.sleep(0.0005)
        self.current = None
        first = self.choose(True)
        self.switches.append([0, first])
        self.current = first
        self.gates[first].release()
        self.main_gate.acquire()
        CURRENT[0] = None
        return self.error

    def me(self):
        return self.tids.get(_thread.get_ident())


# ------------------------------------------------------------------------------------------------ cooperative locks
class SimLock:
    """A lock whose waiting is decided by the scheduler; threads that are not simulated (a progress monitor, say) really wait."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self.guard = _allocate()

    def _try(self, me):
        with self.guard:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
        return False

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = CURRENT[0]
        tid = s.me() if s is not None else None
        if tid is not None and not s.killed:
            s.step(tid)
        waited = 0
        while not self._try(me):
            if tid is not None:
                if not blocking or (timeout is not None and timeout >= 0):
                    return False
                if s.killed:
                    raise Killed()
                s.block(tid, self)
                continue
            if not blocking or (timeout is not None and 0 <= timeout <= waited):
                return False
            if waited > 30:
                raise HarnessError("a lock is held by a thread that does not run")
            time.sleep(0.0005)
            waited += 0.0005
        return True

    def release(self):
        with self.guard:
            if self.owner is None:
                raise RuntimeError("release unlocked lock")
            self.count -= 1
            free = self.count == 0
            if free:
                self.owner = None
        if free and CURRENT[0] is not None:
            CURRENT[0].unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count, self.guard = None, 0, _allocate()

    # what threading.Condition needs of an RLock
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        c = self.count
        self.count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


class SimRLock(SimLock):
    reentrant = True


def install_locks():
    """Called after the third-party packages are imported and before the code under test is."""
    import threading
    threading.Lock = SimLock
    threading.RLock = SimRLock


# ------------------------------------------------------------------------------------------------ threads started during the run
class DynScheduler(Scheduler):
    """The calling thread is thread 0; the code under test starts further ones with threading.Thread (SimThread)."""

    def __init__(self, sched, max_steps=400000, watch=None):
        Scheduler.__init__(self, sched, 1, max_steps)
        if sched["kind"] == "pct":
            self.prio = [0]
        self.current = 0
        self.tids = {_thread.get_ident(): 0}
        self.watch = watch             # called at every step of any thread
        self.ended = []                # uncaught exceptions of threads

    def __enter__(self):
        CURRENT[0] = self
        sys.settrace(self.tracer(0))
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        CURRENT[0] = None
        self.killed = True
        return False

    def step(self, tid, hot=False):
        if self.watch is not None:
            self.watch()
        Scheduler.step(self, tid, hot)

    def spawn(self, body):
        tid = self.n
        self.n += 1
        self.done.append(False)
        self.waiting.append(None)
        g = _allocate()
        g.acquire()
        self.gates.append(g)
        if self.sched["kind"] == "pct":
            self.prio.append(self.rng.choice([min(self.prio) - 1, max(self.prio) + 1]))
        started = _allocate()
        started.acquire()

        def start():
            self.tids[_thread.get_ident()] = tid
            started.release()
            g.acquire()
            try:
                if self.killed:
                    return
                sys.settrace(self.tracer(tid))
                try:
                    body()
                finally:
                    sys.settrace(None)
            except Killed:
                pass
            except BaseException as e:
                self.ended.append((tid, e))
            finally:
                self._exit(tid)

        _thread.start_new_thread(start, ())
        started.acquire()
        return tid

    def idle(self):
        """thread 0 has nothing to do: let another one run; False if there is none"""
        others = [t for t in self.runnable() if t != 0]
        if not others:
            return False
        self.waiting[0] = "idle"
        self.step_no += 1
        if self.step_no > self.max_steps:
            self.error = "no progress: more than %d steps" % self.max_steps
            raise Deadlock(self.error)
        nxt = self.choose(True)
        self.waiting[0] = None             # it may be chosen again at any step
        self._switch(0, nxt)
        return True

    def _finish(self):
        self.killed = True
        for t in range(self.n):
            if t != self.current and not self.done[t]:
                try:
                    self.gates[t].release()
                except RuntimeError:
                    pass

    def _exit(self, tid):
        self.done[tid] = True
        if self.killed:
            return
        self.step_no += 1
        nxt = self.choose(True)
        if nxt is None:
            self.error = "deadlock: the remaining threads wait for a lock for ever"
            self._finish()
            return
        self.switches.append([self.step_no, nxt])
        self.current = nxt
        self.gates[nxt].release()


class SimThread:
    """stands for threading.Thread"""
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        SimThread._n += 1
        self.name = name or "Thread-%d" % SimThread._n
        self.daemon = bool(daemon)
        self.tid = None
        self.sched = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self.sched = CURRENT[0]
        if self.sched is None:
            raise HarnessError("a thread was started outside of the simulation")
        if self.tid is not None:
            raise RuntimeError("threads can only be started once")
        self.tid = self.sched.spawn(self.run)
        me = self.sched.me()
        if me is not None:
            self.sched.step(me)

    def is_alive(self):
        return self.tid is not None and not self.sched.done[self.tid]

    def join(self, timeout=None):
        while self.is_alive():
            if timeout is not None:
                return
            if self.sched.me() == 0:
                if not self.sched.idle():
                    raise Deadlock("join waits for a thread that waits for ever")
            else:
                self.sched.step(self.sched.me())

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    ident = property(lambda self: self.tid)
