"""Deterministic thread scheduler: real threads, one runs at a time, switches at chosen library lines.

Threads hand a baton to each other inside sys.monitoring events of the library's own code
(LINE, or INSTRUCTION for switches inside a line), so that the plan alone decides every
interleaving:

    {"event": "line"|"instruction",
     "points": [[fraction, to], ...],          switch when that fraction of all steps is done
     "dense": [{"from": fraction, "len": steps, "every": k}, ...],   round robin every k steps
     "fresh": m}                               round robin at every m-th code location seen first

Fractions refer to the number of steps the same threads take one after another.
`threading.Lock` and `RLock` are replaced so that waiting for a lock is a switch as well.
"""
import _thread
import sys
import threading

from . import lib

TOOL = 3
EVENTS = {"line": sys.monitoring.events.LINE, "instruction": sys.monitoring.events.INSTRUCTION}
_RealLock, _RealRLock = _thread.allocate_lock, threading.RLock
_active = None


def _gate():
    """A binary semaphore the scheduler doesn't see, closed"""
    lock = _thread.allocate_lock()
    lock.acquire()
    return lock


class Deadlock(BaseException):
    """Every thread waits for a lock, or none ever finishes"""


class Blocked(Exception):
    """The threads wait for something the scheduler doesn't control"""


class CoopLock:
    """A lock whose waiting is visible to the scheduler"""

    def __init__(self):
        self._real = _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        """As threading.Lock.acquire"""
        sched = _active
        if sched is None or sched.index() is None:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking:
                return False
            if not sched.wait_lock() and timeout is not None and timeout >= 0:
                return False
        sched.idle = 0
        return True

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def release(self):
        """As threading.Lock.release"""
        self._real.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


class CoopRLock(CoopLock):
    """A re-entrant lock whose waiting is visible to the scheduler"""

    def __init__(self):
        super().__init__()
        self._real = _RealRLock()


def cooperative_locks():
    """From now on new locks are visible to the scheduler"""
    if threading.Lock is not CoopLock:
        threading.Lock, threading.RLock = CoopLock, CoopRLock


def count(func, event="line"):
    """Run func alone; -> (its result, number of steps)"""
    total = [0]

    def step(code, _where):
        if not code.co_filename.startswith(lib.CODE):
            return sys.monitoring.DISABLE
        total[0] += 1
        return None
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "arsim-count")
    mon.register_callback(TOOL, EVENTS[event], step)
    mon.set_events(TOOL, EVENTS[event])
    try:
        return func(), total[0]
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, EVENTS[event], None)
        mon.free_tool_id(TOOL)


class Scheduler:
    """Runs functions as threads under a schedule"""

    def __init__(self, plan, total):
        self.plan = plan
        self.event = EVENTS[plan.get("event", "line")]
        self.points = sorted((int(at * total), to) for at, to in plan.get("points", []))
        self.windows = sorted((int(w["from"] * total), int(w["from"] * total) + w["len"], max(1, w["every"]))
                              for w in plan.get("dense", []))
        self.fresh = plan.get("fresh", 0)
        self.seen, self.new = set(), 0
        self.clock = 0
        self.cap = 20 * total + 500_000
        self.idle = 0
        self.trace = []
        self.switches = 0
        self.sems, self.ids, self.alive = [], {}, []
        self.done = _gate()
        self.results, self.deadlock = [], False

    def index(self):
        """Number of the calling thread, None if it isn't scheduled"""
        return self.ids.get(threading.get_ident())

    def _step(self, code, where):
        if not code.co_filename.startswith(lib.CODE):
            return sys.monitoring.DISABLE
        me = self.ids.get(threading.get_ident())
        if me is None:
            return None
        clock = self.clock
        self.clock = clock + 1
        self.idle = 0
        if clock > self.cap:
            self.deadlock = True
            raise Deadlock()
        if self.points and clock >= self.points[0][0]:
            _, to = self.points.pop(0)
            self._switch(me, to, code, where)
            return None
        if self.windows and clock >= self.windows[0][0]:
            start, end, every = self.windows[0]
            if clock >= end:
                self.windows.pop(0)
            elif (clock - start) % every == 0:
                self._switch(me, me + 1, code, where)
                return None
        if self.fresh:
            key = (code, where)
            if key not in self.seen:
                self.seen.add(key)
                self.new += 1
                if self.new % self.fresh == 0:
                    self._switch(me, me + 1, code, where)
        return None

    def _pick(self, to):
        """The first live thread from number `to` on"""
        count_ = len(self.sems)
        for k in range(count_):
            if self.alive[(to + k) % count_]:
                return (to + k) % count_
        return None

    def _switch(self, me, to, code, where):
        target = self._pick(to)
        if target is None or target == me:
            return
        self.switches += 1
        if len(self.trace) < 2000:
            self.trace.append(f"{self.clock}:{me}>{target}@{code.co_name}:{where}")
        self.sems[target].release()
        self.sems[me].acquire()
        if self.deadlock:
            raise Deadlock()

    def wait_lock(self):
        """The calling thread cannot get a lock; False when nobody can go on"""
        me = self.index()
        self.idle += 1
        if self.idle > 4 * len(self.sems) + 4:
            self.deadlock = True
            raise Deadlock()
        target = self._pick(me + 1)
        if target == me:
            return False
        self.sems[target].release()
        self.sems[me].acquire()
        if self.deadlock:
            raise Deadlock()
        return True

    def _body(self, number, func):
        self.ids[threading.get_ident()] = number
        self.sems[number].acquire()
        try:
            self.results[number] = ("ok", func())
        except Deadlock:
            self.results[number] = ("deadlock", None)
            self.deadlock = True
        except BaseException as exc:  # pylint: disable=broad-exception-caught
            self.results[number] = ("error", exc)
        finally:
            self.ids.pop(threading.get_ident(), None)
            self.alive[number] = False
            target = self._pick(number + 1)
            if target is None:
                self.done.release()
            else:
                self.sems[target].release()

    def run(self, funcs, first=0, limit=25.0):
        """Run the functions; -> list of ("ok", value) | ("error", exception) | ("deadlock", None)"""
        global _active  # pylint: disable=global-statement
        count_ = len(funcs)
        self.sems = [_gate() for _ in funcs]
        self.alive = [True] * count_
        self.results = [None] * count_
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "arsim-sched")
        mon.register_callback(TOOL, self.event, self._step)
        mon.set_events(TOOL, self.event)
        _active = self
        try:
            for thread in threads:
                thread.start()
            self.sems[first % count_].release()
            if not self.done.acquire(timeout=limit):
                raise Blocked(f"no progress within {limit:.0f} s")
            for thread in threads:
                thread.join(5)
        finally:
            _active = None
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, self.event, None)
            mon.free_tool_id(TOOL)
        return self.results


def random_schedule(rng, threads):
    """A schedule, swarm style: few or many switches, anywhere or dense, at lines or inside them"""
    plan = {"event": "instruction" if rng.random() < 0.15 else "line", "points": [], "dense": [], "fresh": 0,
            "first": rng.randrange(threads)}
    roll = rng.random()
    if roll < 0.35:
        plan["fresh"] = rng.choice([1, 1, 2, 3, 5])
    if roll < 0.15 or 0.35 <= roll < 0.7:
        for _ in range(rng.choice([1, 2, 3, 5, 10, 30, 100])):
            plan["points"].append([round(rng.random() ** rng.choice([1, 1, 3]), 6), rng.randrange(threads)])
    if roll >= 0.6:
        for _ in range(rng.choice([1, 1, 3])):
            plan["dense"].append({"from": round(rng.choice([0.0, rng.random(), rng.random()]), 6),
                                  "len": rng.choice([200, 1000, 4000]), "every": rng.choice([1, 1, 2, 3, 5, 7, 11, 23])})
    return plan
