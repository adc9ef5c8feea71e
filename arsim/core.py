"""Simulation core: one seed -> one plan -> one run, each run in its own forked process.

A property module provides
    PROPERTY, RULE, COMPONENTS, QUICK, THOROUGH (numbers of runs)
    generate(rng, profile) -> plan (plain JSON; the only place randomness is used)
    run(plan, env)                 raises Violation, or returns
The run is a pure function of the plan and of the code under test.
"""
import collections
import contextlib
import faulthandler
import gc
import hashlib
import io
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

from . import lib

RUN_LIMIT = float(os.environ.get("ARSIM_RUN_LIMIT", "30"))      # wall-clock guard for one run
STEP_BUDGET = 30_000_000                                        # line events before a run counts as stuck


class Violation(Exception):
    """The property does not hold in this run"""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)


class Invalid(Exception):
    """The plan cannot be executed (only produced by minimisation)"""


class Skip(Exception):
    """This run's precondition does not hold on this tree (counted, not judged)"""


class Stuck(BaseException):
    """A run used up its step budget"""


class Env:
    """What a run sees of the simulator"""

    def __init__(self, mod, shared):
        self.mod = mod
        self._shared = shared
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.shapes = set()
        self.steps = 0
        self.events = []
        self.trace = []

    @property
    def disk(self):
        """The simulated disk"""
        return self._shared.disk()

    def fault(self, name, n=1):
        """An injected fault fired"""
        if name:
            self.faults[name] += n

    def fired(self, names):
        """Faults reported by the disk"""
        for name in names:
            self.faults[name] += 1
        return names

    def probe(self, name):
        """A condition worth reaching was reached"""
        self.probes[name] += 1

    def shape(self, *parts):
        """A distinct execution, by the property's own measure"""
        self.shapes.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:12])

    def log(self, *parts):
        """One line of the run's event log (compared when determinism is proved)"""
        self.events.append(" ".join(str(p) for p in parts))

    def quiet(self):
        """Context: captured stdout+stderr of the library, as a StringIO"""
        return Quiet()

    def build(self, func, *args):
        """Construct a generated model; a tree that rejects it cannot be judged by this run"""
        try:
            return func(*args)
        except Violation:
            raise
        except Exception as exc:  # pylint: disable=broad-exception-caught
            raise Skip(f"model not constructible: {type(exc).__name__}") from exc

    def must(self, what, func, *args, **kwargs):
        """A library call that has no reason to fail"""
        try:
            return func(*args, **kwargs)
        except (Violation, Skip):
            raise
        except Exception as exc:  # pylint: disable=broad-exception-caught
            raise Violation(f"{what}-raised", describe(exc)) from exc

    def isolated(self, func):
        """Run func in a forked copy of this process; its (picklable) result"""
        status, value = fork_call(func, RUN_LIMIT)
        if status == "ok":
            return value
        if status == "violation":
            raise Violation(*value)
        raise RuntimeError(f"isolated call: {status}: {value}")

    def result(self):
        """Picklable summary"""
        return {"faults": dict(self.faults), "probes": dict(self.probes), "shapes": sorted(self.shapes),
                "steps": self.steps, "digest": hashlib.sha256("\n".join(self.events).encode()).hexdigest()[:16],
                "events": self.events[-400:] if KEEP_EVENTS else []}


def describe(exc, frames=4):
    """An exception with the library frames it came through"""
    tb = [f for f in traceback.extract_tb(exc.__traceback__)]
    where = " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-frames:]))
    return f"{type(exc).__name__}: {str(exc)[:400]} [{where}]"


KEEP_EVENTS = bool(os.environ.get("ARSIM_EVENTS"))


class Quiet:
    """Captures Python-level stdout and stderr"""

    def __enter__(self):
        self.buf = io.StringIO()
        self._stack = contextlib.ExitStack()
        self._stack.enter_context(contextlib.redirect_stdout(self.buf))
        self._stack.enter_context(contextlib.redirect_stderr(self.buf))
        return self.buf

    def __exit__(self, *exc):
        self._stack.close()
        return False


def fork_call(func, limit):
    """Run func() in a fork.  -> ("ok"|"violation"|"invalid"|"error"|"stuck"|"timeout"|"died", value)"""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            try:
                out = ("ok", func())
            except Violation as exc:
                out = ("violation", (exc.kind, exc.detail))
            except Invalid as exc:
                out = ("invalid", str(exc))
            except Stuck as exc:
                out = ("stuck", str(exc))
            except BaseException as exc:  # pylint: disable=broad-exception-caught
                out = ("error", "".join(traceback.format_exception(exc))[-4000:])
            data = pickle.dumps(out)
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        except BaseException:  # pylint: disable=broad-exception-caught
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    deadline = time.monotonic() + limit
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            timed_out = True
            break
        data = os.read(rfd, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(rfd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return "timeout", f"no result within {limit:.0f} s"
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:  # pylint: disable=broad-exception-caught
        return "died", f"wait status {status}"


class Shared:
    """What survives between runs in the parent: the imported library and the scratch disk"""

    def __init__(self):
        self.mod = lib.load()
        self._disk = None

    def disk(self):
        """The scratch disk (created on first use)"""
        if self._disk is None:
            from .disk import Disk
            self._disk = Disk()
        return self._disk

    def close(self):
        """Remove scratch data"""
        if self._disk is not None:
            self._disk.close()


def prepare_child():
    """In the forked child: silence, limits"""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    soft = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    if not os.environ.get("ARSIM_DEBUG"):
        null = os.open("/dev/null", os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    else:
        faulthandler.enable()


def budget_on():
    """Deterministic step budget: line events in the library"""
    mon = sys.monitoring
    count = [0]
    src = lib.SRC

    def line(code, _no):
        if not code.co_filename.startswith(src):
            return mon.DISABLE
        count[0] += 1
        if count[0] > STEP_BUDGET:
            raise Stuck(f"more than {STEP_BUDGET} library lines executed")
        return None

    mon.use_tool_id(4, "arsim-budget")
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)


def execute(module, plan, shared, budget=False, limit=RUN_LIMIT):
    """One run in its own process -> (status, value)"""
    if getattr(module, "NEEDS_DISK", True):
        shared.disk()

    def body():
        prepare_child()
        if budget:
            budget_on()
        env = Env(shared.mod, shared)
        if shared._disk is not None:
            shared._disk.fresh()
        try:
            module.run(json.loads(json.dumps(plan)), env)
        except Violation as exc:
            exc.detail = exc.detail[:3000]
            raise
        except Skip as exc:
            env.probe(f"skipped: {exc}")
            env.log("skipped", exc)
        if shared._disk is not None:
            env.steps += shared._disk.lib.simio_nlog()
        return env.result()

    status, value = fork_call(body, limit)
    if status in ("timeout", "died") and not budget:
        # decide again, under a budget of steps instead of seconds
        status2, value2 = execute(module, plan, shared, budget=True, limit=max(240.0, limit * 4))
        if status2 == "stuck":
            return "violation", ("no-progress", f"{value2} (normal runs need far fewer)")
        if status2 in ("ok", "violation"):
            return status2, value2
        if status == "died" and status2 == "died":
            return "violation", ("process-died", f"{value}; again: {value2}")
        return "error", f"{status}: {value}; with step budget: {status2}: {value2}"
    return status, value


def rng_for(prop, seed, index):
    """The PRNG of one run"""
    key = hashlib.sha256(f"{prop}:{seed}:{index}".encode()).digest()
    return random.Random(int.from_bytes(key[:8], "big"))


def make_plan(module, seed, index, tier):
    """The plan of run number `index`"""
    return module.generate(rng_for(module.PROPERTY, seed, index), {"index": index, "tier": tier})


def gc_settle():
    """Make forks cheap and deterministic"""
    gc.collect()
    gc.freeze()
