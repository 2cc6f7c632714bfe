"""Deterministic thread scheduler.

Simulated threads are real Python threads of which exactly one holds the baton.
Inside library code every executed line (or bytecode, by plan) is a step of one
global step counter; the plan's `preempts` list [[step, choice], ...] says at
which step the running thread is suspended and which runnable thread continues.
The `fresh` list [[k, choice], ...] does the same at the k-th library location
that is new in this run (a location counts again at its 2nd, 4th, 8th ... visit),
so that rarely executed lines are preempted as often as the inner loops.
Nothing else switches threads, so a plan is one exact interleaving.

Locks made by library code become SimLocks: a thread that would block hands the
baton on; if every thread is blocked the run is a deadlock (liveness violation).
"""
import _thread
import sys
import threading

from .core import PKG, REPO, SimHang, Violation

TRACED = (PKG, REPO + "/tools/")
STEP_BUDGET = 9_000_000

_real_lock = _thread.allocate_lock
_real_RLock = threading.RLock
_sched = None


class _Abort(BaseException):
    pass


class SimLock:
    """Lock/RLock used by library code."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.re = reentrant

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self.owner is None or (self.re and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            s = _sched
            if not blocking:
                return False
            if s is None or s.current is None:
                raise SimHang("library blocks for ever on its own lock")
            if timeout is not None and timeout >= 0:
                return False
            s.block_on(self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock objects")


def _from_library():
    f = sys._getframe(2)
    for _ in range(3):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(TRACED):
            return True
        if "functools" in f.f_code.co_filename or "threading" in f.f_code.co_filename:
            f = f.f_back
            continue
        return False
    return False


def patch_locks():
    """Before the library is imported: its locks become schedulable."""

    def Lock():
        return SimLock() if _from_library() else _real_lock()

    def RLock():
        return SimLock(True) if _from_library() else _real_RLock()

    threading.Lock = Lock
    threading.RLock = RLock


TOOL = 4
_codes = None


def library_code():
    """every code object of the library (found once, in the parent)"""
    global _codes
    if _codes is None:
        import gc
        import types

        seen, todo = {}, []
        for o in gc.get_objects():
            if type(o) is types.FunctionType and o.__code__.co_filename.startswith(TRACED):
                todo.append(o.__code__)
        while todo:
            c = todo.pop()
            if id(c) in seen:
                continue
            seen[id(c)] = c
            todo.extend(k for k in c.co_consts if type(k) is types.CodeType)
        _codes = sorted(seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return _codes


class Scheduler:
    def __init__(self, sim, preempts, grain="line", fresh=()):
        self.sim = sim
        self.fresh = {int(k): int(c) for k, c in fresh}
        self.visits = {}
        self.nfresh = 0
        self.came = None  # who handed the baton to the running thread
        self.preempts = {}
        for s, c in preempts:
            self.preempts.setdefault(int(s), int(c))
        self.grain = grain
        self.step = 0
        self.n = 0
        self.fns = []
        self.res = []
        self.state = []  # "ready" | "done" | SimLock
        self.gate = []
        self.current = None
        self.main = _real_lock()
        self.fail = None
        self.switches = 0
        self.aborting = False
        self.on_step = None

    def spawn(self, fn):
        i = self.n
        self.n += 1
        self.fns.append(fn)
        self.res.append(None)
        self.state.append("ready")
        g = _real_lock()
        g.acquire()
        self.gate.append(g)
        return i

    # -- tracing: PEP 669 events in library code only, instrumented once before
    # the first thread runs (sys.settrace re-instruments per thread, which
    # CPython 3.12 does not survive at bytecode granularity)
    def _on_line(self, code, line):
        if _thread.get_ident() in self.idents:
            self.yield_point(code, line)

    def _on_instr(self, code, offset):
        if _thread.get_ident() in self.idents:
            self.yield_point(code, -offset)

    def _instrument(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "verif")
        ev = mon.events.INSTRUCTION if self.grain == "opcode" else mon.events.LINE
        mon.register_callback(TOOL, ev, self._on_instr if self.grain == "opcode" else self._on_line)
        for c in library_code():
            mon.set_local_events(TOOL, c, ev)

    def _uninstrument(self):
        mon = sys.monitoring
        for c in library_code():
            mon.set_local_events(TOOL, c, 0)
        mon.free_tool_id(TOOL)

    def yield_point(self, code=None, at=0):
        if self.aborting:
            raise _Abort()
        self.step += 1
        self.sim.steps += 1
        if self.step > STEP_BUDGET:
            raise SimHang(f"{self.step} scheduler steps")
        choice = self.preempts.get(self.step)
        if code is not None and self.fresh:
            n = self.visits[code, at] = self.visits.get((code, at), 0) + 1
            if n & (n - 1) == 0:
                self.nfresh += 1
                if choice is None:
                    choice = self.fresh.get(self.nfresh)
        if choice is not None:
            me = self.current
            others = [i for i in self.runnable() if i != me]
            if others:
                to = others[choice % len(others)]
                where = ""
                if code is not None:
                    where = code.co_qualname
                self.sim.log("switch", me, to, where)
                self.sim.state("sw", where, len(others))
                self.sim.fault("preempt")
                self._switch(me, to)

    def hand_back(self):
        """the running thread gives the baton back to the one that handed it over"""
        me, to = self.current, self.came
        if to is not None and to != me and to in self.runnable():
            self._switch(me, to)

    def runnable(self):
        return [i for i, s in enumerate(self.state)
                if s == "ready" or (isinstance(s, SimLock) and s.owner is None)]

    def _switch(self, me, to):
        self.switches += 1
        self.came = me
        self.state[to] = "ready"
        self.current = to
        self.gate[to].release()
        self.gate[me].acquire()
        if self.aborting:
            raise _Abort()

    def block_on(self, lock):
        me = self.current
        self.state[me] = lock
        r = [i for i in self.runnable() if i != me]
        if not r:
            self.state[me] = "ready"
            raise SimHang("deadlock: every thread waits for a lock")
        self.sim.log("blocked", me)
        self._switch(me, r[0])

    # -- running
    def _body(self, i):
        self.idents.add(_thread.get_ident())
        self.gate[i].acquire()
        try:
            if not self.aborting:
                self.res[i] = self.fns[i]()
        except _Abort:
            pass
        except BaseException as e:  # Violation, SimHang, harness error
            if self.fail is None:
                self.fail = e
            self.aborting = True
        self.idents.discard(_thread.get_ident())
        self.state[i] = "done"
        left = [j for j, s in enumerate(self.state) if s != "done"]
        if not left:
            self.current = None
            self.main.release()
            return
        r = left if self.aborting else self.runnable()
        if not r:
            self.fail = self.fail or SimHang("deadlock: every thread waits for a lock")
            self.aborting = True
            r = left
        self.current = r[0]
        self.gate[r[0]].release()

    def run(self):
        global _sched
        _sched = self
        self.idents = set()
        self.main.acquire()
        self._instrument()
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.current = 0
        self.gate[0].release()
        self.main.acquire()
        for t in ts:
            t.join()
        self._uninstrument()
        _sched = None
        if isinstance(self.fail, SimHang):
            raise Violation("hang", str(self.fail))
        if self.fail is not None:
            raise self.fail
        return self.res


def gen_preempts(rng, horizon, n):
    """n preemption points: bursts of short and long slices, log-uniform."""
    out, step = [], 0
    import math

    for _ in range(n):
        gap = int(math.exp(rng.uniform(0, math.log(max(2, horizon / max(1, n) * 2)))))
        step += max(1, gap)
        out.append([step, rng.randint(0, 5)])
    return out


def gen_fresh(rng):
    """preemptions at locations new in the run"""
    kind = rng.random()
    if kind < 0.35:
        return []
    n = rng.choice([4, 12, 40, 120])
    return [[k, rng.randint(0, 5)] for k in sorted({int(3 ** rng.uniform(0, 6.2)) if rng.random() < 0.5 else rng.randint(1, 900) for _ in range(n)})]


class LineInterrupt:
    """Raise `exc` in the calling thread when the n-th library line is reached."""

    def __init__(self, n, exc):
        self.n = n
        self.exc = exc
        self.count = 0
        self.fired = None

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(TRACED):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.n:
                self.fired = (frame.f_code.co_name, self.count)
                raise self.exc("simulated")
        return self._local

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
