"""Jobs: pieces of work on objects of their own, for runs with several threads.

    {"job": "text", "op": <output operation>}             serialise to a text
    {"job": "out", "op": <output operation>}              produce files in a directory of its own
    {"job": "read", "item": <stored document>, "via": ..} write a document, store it (damaged), read it with a reader
    {"job": "config", "loads": [<configuration>...]}      load configuration files
    {"job": "C12"..."C15", "plan": ...}                   the history of another property
The result of a job is plain data that does not mention object addresses.
"""
import contextlib
import importlib
import io
import os
import re
import sys
import threading

from . import canon, core, damage, gen, outops, work, wsplan
from .core import Invalid, Skip, Violation

ADDRESS = re.compile(r"0x[0-9a-f]{6,}")
HISTORIES = ("C12", "C13", "C14", "C15")
KINDS = ["text", "text", "out", "out", "read", "read", "config", "C12", "C13", "C14", "C15"]


def scrub(value):
    """Without object addresses"""
    if isinstance(value, str):
        return ADDRESS.sub("0x...", value)
    return value


class Router(io.TextIOBase):
    """Standard output that goes to a buffer of the thread"""

    def __init__(self):
        self.bufs = {}

    def write(self, text):
        self.bufs.setdefault(threading.get_ident(), []).append(text)
        return len(text)

    def take(self):
        """What the calling thread printed since the last call"""
        return "".join(self.bufs.pop(threading.get_ident(), []))

    @contextlib.contextmanager
    def installed(self):
        """Route both standard streams"""
        old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self
        try:
            yield self
        finally:
            sys.stdout, sys.stderr = old


class PlainDisk:
    """A directory with the interface of the simulated disk, without faults"""

    def __init__(self, where):
        self.dir = where
        os.makedirs(where, exist_ok=True)

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def mkdir(self, name):
        os.makedirs(self.path(name), exist_ok=True)

    def put(self, name, data):
        with open(self.path(name), "wb") as handle:
            handle.write(data)

    def get(self, name):
        try:
            with open(self.path(name), "rb") as handle:
                return handle.read()
        except FileNotFoundError:
            return None

    def begin(self, faults=(), counts=None):
        """Nothing to plan"""

    def end(self):
        return []

    def digest(self):
        return ""

    def snapshot(self):
        """All files"""
        out = {}
        for base, dirs, files in os.walk(self.dir):
            dirs.sort()
            for name in sorted(files):
                full = os.path.join(base, name)
                with open(full, "rb") as handle:
                    out[os.path.relpath(full, self.dir)] = handle.read()
        return out


class JobEnv(core.Env):
    """What the history of another property sees inside a job"""

    def __init__(self, mod, disk, router):
        super().__init__(mod, None)
        self._disk, self._router = disk, router

    @property
    def disk(self):
        return self._disk

    @contextlib.contextmanager
    def quiet(self):
        self._router.take()
        buf = io.StringIO()
        try:
            yield buf
        finally:
            buf.write(self._router.take())

    def isolated(self, func):
        return func()


def random_job(rng, kind, proper=False):
    """A job of one kind, small; `proper` ones contain nothing that is to be rejected by type"""
    if kind == "text":
        op = outops.random_op(rng, ["str", "str_elem"])
        shrink_doc(rng, op)
        if rng.random() < 0.25 and not proper:
            op["poison"] = {"at": rng.random(), "how": rng.choice(["class", "category", "desc", "name"])}
        return {"job": kind, "op": op}
    if kind == "out":
        op = outops.random_op(rng, ["file", "elem", "documents", "documents", "header"])
        shrink_doc(rng, op)
        return {"job": kind, "op": op, "nodir": rng.random() < 0.1}
    if kind == "read":
        item = {"doc": small_doc(rng), "hits": damage.random_hits(rng) if rng.random() < 0.4 else [],
                "root": rng.choice(["as written", "as written", "none", "other", "newest"]),
                "broken": rng.choice([None, None, None, None, None, "cut", "tag", "root"])}
        return {"job": kind, "item": item, "via": rng.choice(["file", "str", "str"]), "stop": rng.random() < 0.4,
                "again": rng.random() < 0.2}
    if kind == "config":
        from .props import c16
        loads = []
        for _ in range(rng.choice([1, 1, 2])):
            config = c16.gen_config(rng)
            if rng.random() < 0.4 and not proper:
                c16.poison(rng, config)
            loads.append(config)
        return {"job": kind, "loads": loads}
    module = history(kind)
    plan = module.generate(rng, {"index": 1, "tier": "quick", "job": True})
    if kind == "C14":       # endless recursion ends at a stack depth that depends on the thread
        for i, template in enumerate(plan["templates"]):
            template["depends"] = [d for d in template["depends"] if d < i]
    if kind in ("C13", "C12"):
        plan["ops"] = plan["ops"][:12]
    if kind == "C15":
        plan["calls"] = plan["calls"][:12]
    return {"job": kind, "plan": plan}


def small_doc(rng):
    doc = work.doc_plan(rng, big=0)
    return doc


def shrink_doc(rng, op):
    if "doc" in op:
        op["doc"] = small_doc(rng)
    if op["op"] == "documents":
        op["ws"] = wsplan.random_workspace(rng, small=True)


def history(kind):
    return importlib.import_module(f"arsim.props.{kind.lower()}")


def check(job):
    """Raise Invalid for a (minimised) job outside the population"""
    kind = job["job"]
    if kind in ("text", "out"):
        outops.check(job["op"])
    elif kind == "read":
        desc = job["item"]["doc"]
        if desc["schema_version"] not in work.SCHEMA_VERSIONS or not gen.valid(desc["packages"]):
            raise Invalid("document")
    elif kind == "config":
        from .props import c16
        for config in job["loads"]:
            if c16.parsed(c16.emit(config, True).encode()) is None:
                raise Invalid("not TOML")
    elif kind not in HISTORIES:
        raise Invalid("job")
    elif kind == "C14":
        if any(d >= i for i, t in enumerate(job["plan"]["templates"]) for d in t["depends"]):
            raise Invalid("cycle")


def perform(job, mod, where, router):
    """Do a job in directory `where` -> its result (plain data)"""
    disk = PlainDisk(where)
    env = JobEnv(mod, disk, router)
    router.take()
    kind = job["job"]
    try:
        if kind in ("text", "out"):
            result = output(job, env)
        elif kind == "read":
            result = reading(job, env)
        elif kind == "config":
            result = configuration(job, env)
        else:
            result = sub_history(job, env)
    except (Skip, Invalid) as exc:
        result = ["not done", type(exc).__name__]
    result.append(scrub(router.take()))
    return result


WORDING = True      # whether the class and text of an error belong to a result


def attempt(func, *args, **kwargs):
    """-> (value, error text or None)"""
    try:
        return func(*args, **kwargs), None
    except Exception as exc:  # pylint: disable=broad-exception-caught
        return None, scrub(f"{type(exc).__name__}: {exc}") if WORDING else "Error"


def output(job, env):
    """text and out jobs"""
    out = env.disk.path("out")
    if not job.get("nodir"):
        os.makedirs(out, exist_ok=True)
    subject = outops.Subject(job["op"], env, out)
    value, error = attempt(subject.run, env.mod.writer.Writer())
    return [value if isinstance(value, str) else None, error, env.disk.snapshot()]


def reading(job, env):
    """read jobs"""
    from .props import c07
    data = c07.source(job["item"], env)
    reader = env.mod.reader.Reader()
    result = []
    for _ in range(2 if job["again"] else 1):
        if job["via"] == "file":
            env.disk.put("doc.arxml", data)
            doc, error = attempt(reader.read_file, env.disk.path("doc.arxml"), stop_on_error=job["stop"])
        else:
            doc, error = attempt(reader.read_str, data.decode("utf-8", "ignore"), stop_on_error=job["stop"])
        result += [error, canon.canon(doc) if doc is not None else None, getattr(doc, "schema_version", None)]
    return result


def configuration(job, env):
    """config jobs"""
    from .props import c16
    ws = env.mod.workspace.Workspace()
    result = []
    for i, config in enumerate(job["loads"]):
        name = f"config{i}.toml"
        env.disk.put(name, c16.emit(config, True).encode())
        _, error = attempt(ws.load_config, env.disk.path(name))
        result += [error, c16.state(ws)]
    return result


def sub_history(job, env):
    """Histories of other properties: judged by their own oracle, and compared as a whole"""
    module = history(job["job"])
    try:
        module.run(job["plan"], env)
        outcome = "ok"
    except Violation as exc:
        outcome = scrub(f"{exc.kind}: {exc.detail}")
    return [outcome, [scrub(e) for e in env.events], sorted(env.probes.items()), sorted(env.shapes)]
