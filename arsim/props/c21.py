"""C21: work that is saved, interrupted and continued from its files gives what uninterrupted work gives"""
import copy
import re

from .. import canon, gen, outops, refs, typegraph, work
from ..core import Invalid, Violation
from . import c15, c17, c18

PROPERTY = "C21"
QUICK = 11700
THOROUGH = 200000
RULE = ("a run performs a random history of work on a workspace (behaviour builders, ports and connectors, growing elements, "
        "templates, type requests) twice: without interruption, and with saves (disk faults, retries), restarts and crashes "
        "(between calls, or during a save at a planned system call or byte) after which the newest complete save is read and the "
        "work since then is done again; every call's result, the final model, its references and its files have to be the same; "
        "distinct = different (kind of work, saves, crashes, outcome of every call)")
COMPONENTS = {"real": ["autosar.xml.*", "autosar.model", "autosar.generator", "lxml/libxml2", "CPython io stack"],
              "simulated": ["open/read/write/close results, process crash (simio)", "loss of everything in memory"],
              "oracle": ["the same work without interruption"]}
ASSUMPTIONS = ["each save goes to a new directory; the newest directory that holds every file and reads without error is used",
               "settings, templates and requests are the program's and are given again after a restart",
               "a number may be spelled differently after it was read (files that differ are compared after one more reading)"]
STEP_UNIT = "calls"
PROBES = ["restart after a save", "continued after a save", "crash between calls", "crash during a save", "torn save not used",
          "save had been complete", "save failed and was retried", "work done again", "started from nothing", "call rejected in both",
          "rejected call after a restart", "behavior", "parts", "growth", "templates", "types", "numbers spelled differently"]
KINDS = ["behavior", "parts", "growth", "templates", "types"]
ADDRESS = re.compile(r"0x[0-9a-f]+")
ROLES = {"BaseType": "BASE_TYPE", "Unit": "UNIT", "DataConstraint": "DATA_CONSTRAINT", "Constant": "CONSTANT", "ModeDeclaration": "MODE_DECLARATION"}
ELEMENTS = ["Unit", "SwBaseType", "DataConstraint", "CompuMethod", "ImplementationDataType"]


def generate(rng, profile):
    kind = rng.choice(KINDS)
    if kind == "behavior":
        sub = c15.generate(rng, profile)
        length = len(sub["calls"])
    elif kind == "parts":
        sub = c17.generate(rng, profile)
        sub["calls"] = [c for c in sub["calls"] if c["do"] != "lookup"]
        length = len(sub["calls"])
    elif kind == "growth":
        sub = c18.generate(rng, profile)
        sub["ops"] = [dict(op, at_line=None) for op in sub["ops"] if op["op"] == "make" or op["junk"] not in ("in a list", "late")]
        length = len(sub["ops"])
    elif kind == "templates":
        sub = templates(rng)
        length = len(sub["applies"])
    else:
        sub = {"types": typegraph.random_graph(rng), "requests": []}
        sub["requests"] = [rng.randrange(len(sub["types"])) for _ in range(rng.choice([1, 2, 4, 8]))]
        length = len(sub["requests"])
    events = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        roll = rng.random()
        event = {"after": rng.randrange(length + 1), "do": "save" if roll < 0.7 else "crash" if roll < 0.88 else "kill",
                 "files": rng.choice(["one", "each", "each"]), "restart": rng.random() < 0.7}
        if event["do"] == "crash":
            event["fault"] = work.crash_fault(rng)
        elif event["do"] == "save" and rng.random() < 0.3:
            event["faults"] = work.output_faults(rng)
        events.append(event)
    events.sort(key=lambda e: e["after"])
    return {"kind": kind, "sub": sub, "events": events, "reads": work.benign_input(rng) if rng.random() < 0.2 else [],
            "same_reader": rng.random() < 0.3, "version": rng.choice(work.SCHEMA_VERSIONS)}


def templates(rng):
    """Templates with dependencies, and applications"""
    roles = rng.sample(sorted(ROLES), rng.choice([1, 2, 3]))
    spaces = {}
    for name in rng.sample(["Platform", "Default", "N"], rng.choice([1, 2])):
        spaces[name] = {r: rng.choice(["Types", "Types/Base", "Units", "X"]) for r in roles}
    items = []
    for i in range(rng.choice([2, 4, 7])):
        items.append({"name": rng.choice("ABCDE") + (str(i) if rng.random() < 0.7 else ""), "ns": rng.choice(sorted(spaces)),
                      "role": rng.choice(roles), "kind": rng.choice(ELEMENTS),
                      "depends": sorted(rng.sample(range(i), rng.choice([0, 0, 1, 2]) if i > 1 else 0)),
                      "fails": rng.choice([0, 0, 0, 0, 1])})
    return {"spaces": spaces, "items": items, "applies": [rng.randrange(len(items)) for _ in range(rng.choice([3, 6, 12]))]}


def result_form(value):
    """A comparable form of what a call returned"""
    if value is None or isinstance(value, (bool, int, float, str)):
        return value
    if isinstance(value, (list, tuple)):
        return [result_form(v) for v in value]
    ref = None
    if hasattr(value, "ref"):
        ref = str(value.ref())
    return type(value).__name__, ref, canon.canon(value)


class Session:
    """The program's side of the work: everything in it but `keep` is lost in a crash"""

    def __init__(self, plan, env):
        self.plan, self.sub, self.env, self.mod = plan, plan["sub"], env, env.mod
        self.keep = {}
        self.start()

    def attempt(self, func, *args, **kwargs):
        """Perform one call of the library"""
        try:
            result = func(*args, **kwargs)
        except Invalid:
            raise
        except Exception as exc:  # pylint: disable=broad-exception-caught
            return "raised", type(exc).__name__, ADDRESS.sub("0x", str(exc))
        return "ok", result_form(result)

    def resume(self, ws):
        """Go on with what was read"""
        self.ws = ws
        self.rebind()

    def rebind(self):
        """Find again what the program works on"""

    def settings(self, ws):
        """What the program configures"""

    def final(self):
        """Further results"""
        return None

    def found(self, path):
        """An element that has to be there"""
        obj = self.ws.find(path)
        if obj is None:
            raise Violation("lost-after-restart", f"{path} is not found in what was read")
        return obj


class Behavior(Session):
    """Behaviour builders"""

    def start(self):
        if any(not 0 <= c["c"] < len(self.sub["components"]) for c in self.sub["calls"]):
            raise Invalid("component")
        self.world = c15.World(self.sub, self.env)
        self.ws = self.world.ws

    def length(self):
        return len(self.sub["calls"])

    def step(self, number):
        func, args, kwargs = c15.prepare(self.world, self.env, self.sub["calls"][number])
        return ("no runnable",) if func is None else self.attempt(func, *args, **kwargs)

    def settings(self, ws):
        for name, value in self.sub["settings"].items():
            ws.behavior_settings.set_value(name, value)

    def rebind(self):
        world = self.world
        world.ws = self.ws
        world.packages = [self.found(f"/{n}") for n in ("Interfaces", "Modes", "Comps")]
        world.comps = [self.found(f"/Comps/{c['name']}") for c in self.sub["components"]]
        world.behs = [c.internal_behavior for c in world.comps]
        if None in world.behs:
            raise Violation("lost-after-restart", "a component has no internal behaviour")


class Parts(Session):
    """Ports, prototypes and connectors"""

    def start(self):
        sub = self.sub
        if any(d["kind"] not in c17.CLASSES or (d["kind"] == "MS" and len(d["elems"]) > 1) for d in sub["interfaces"]):
            raise Invalid("interface")
        paths = [d["path"] for d in sub["interfaces"] + sub["comps"]]
        if len(set(paths)) != len(paths) or not sub["comps"] or \
                any(p[1:].rpartition("/")[0] not in c17.PACKAGES.get(p.rpartition("/")[2][:1], []) for p in paths):
            raise Invalid("names")
        for call in sub["calls"]:
            if not 0 <= call["c"] < len(sub["comps"]) or \
                    (call["do"] in ("proto", "connect") and sub["comps"][call["c"]]["kind"] != "C") or \
                    (call["do"] == "element" and (sub["interfaces"][call["if"]]["kind"] == "MS" or not call["name"])):
                raise Invalid("call")
        self.world = c17.World(sub, self.env)
        self.ws = self.world.ws

    def length(self):
        return len(self.sub["calls"])

    def step(self, number):
        world, call = self.world, self.sub["calls"][number]
        if call["do"] == "element":
            return self.attempt(world.add_element, call["if"], call["name"], call["queued"])
        if call["do"] == "append" and any(p.name == call["name"] for attr in ("ports", "components", "connectors")
                                          for p in getattr(world.comps[call["c"]], attr, [])):
            return ("skipped",)
        func, args, kwargs, _ = c17.prepare(world, call)
        return self.attempt(func, *args, **kwargs)

    def resume(self, ws):
        super().resume(ws)
        self.world.elems = []
        for iface in self.world.interfaces:
            names = {}
            for attr in ("data_elements", "parameters", "operations"):
                for elem in getattr(iface, attr, None) or []:
                    names[elem.name] = False
            self.world.elems.append(names)

    def rebind(self):
        world = self.world
        world.ws = self.ws
        world.packages = [self.found(f"/{n}") for n in ("Interfaces", "Modes", "Comps", "Types")]
        world.interfaces = [self.found(d["path"]) for d in self.sub["interfaces"]]
        world.comps = [self.found(d["path"]) for d in self.sub["comps"]]
        world.unit = self.found("/Modes/U")


class Growth(Session):
    """Growing elements"""

    def start(self):
        elements = self.sub["elements"]
        names = [d["a"].get("name") for d in elements] + [op["name"] for op in self.sub["ops"] if op["op"] == "make"]
        if not all(gen.valid(d) for d in elements) or len(set(names)) != len(names) or not all(names):
            raise Invalid("elements")
        self.ws = self.mod.workspace.Workspace()
        self.package = self.ws.create_package("Pkg")
        for desc in elements:
            self.package.append(self.env.build(gen.build, desc, self.mod))

    def length(self):
        return len(self.sub["ops"])

    def at(self, path):
        """The live part at the place a description has"""
        here = self.package.elements
        for step in path:
            if isinstance(here, dict):
                here = list(here.values())
            if isinstance(step, str):
                if isinstance(here, list):
                    here = here[0] if here else None
                here = getattr(here, step, None)
            elif isinstance(here, list):
                here = here[step] if step < len(here) else None
            elif step:
                here = None
            if here is None:
                return None
        return here[0] if isinstance(here, list) and here else here

    def step(self, number):
        op = self.sub["ops"][number]
        if op["op"] == "make":
            if op["bad"]:
                return ("skipped",)
            return self.attempt(lambda: self.package.append(gen.build(c18.expand(op), self.mod)))
        if op["method"] not in c18.GROW.get(op["class"], {}) or not op["items"] or not all(map(gen.valid, op["items"])):
            return ("skipped",)
        target = self.at(op["at"])
        if type(target).__name__ != op["class"]:
            return ("skipped",)
        mode = c18.GROW[op["class"]][op["method"]][2]
        items, args, kwargs = copy.deepcopy(op["items"]), [], {}
        if mode in ("append", "extend"):
            built = [self.env.build(gen.build, x, self.mod) for x in items]
            args = [built] if mode == "extend" else built
        elif isinstance(items[0], dict) and "$" in items[0]:
            kwargs = {k: self.env.build(gen.build, v, self.mod) for k, v in items[0]["a"].items()
                      if k not in c18.FIXED.get(op["method"], {})}
        else:
            args = [items[0]["v"]]
        if op["junk"] in ("keyword", "iterator") and mode in ("create", "replace", "extend"):
            if mode == "extend":
                args = [c18.failing(args[0])]
            else:
                kwargs["no_such_parameter"] = 1
        elif op["junk"]:
            return ("skipped",)
        return self.attempt(getattr(target, op["method"].strip()), *args, **kwargs)

    def rebind(self):
        self.package = self.found("/Pkg")


class Templates(Session):
    """Element templates"""

    def start(self):
        sub = self.sub
        for item in sub["items"]:
            if item["ns"] not in sub["spaces"] or item["role"] not in sub["spaces"][item["ns"]] or item["kind"] not in ELEMENTS or \
                    not item["name"] or any(not 0 <= d < len(sub["items"]) for d in item["depends"]) or \
                    any(d >= sub["items"].index(item) for d in item["depends"]):
                raise Invalid("template")
        if any(not 0 <= a < len(sub["items"]) for a in sub["applies"]) or \
                any(not p for roles in sub["spaces"].values() for p in roles.values()):
            raise Invalid("application")
        self.ws = self.mod.workspace.Workspace()
        self.settings(self.ws)
        self.prepare()

    def prepare(self):
        """The program's templates"""
        session = self

        class Element(self.mod.template.ElementTemplate):
            """Creates one element"""

            def create(self, package, workspace, dependencies, **kwargs):
                """Callback"""
                item = session.sub["items"][self.number]
                session.called.append((self.number, str(package.ref()), sorted(dependencies or {}), kwargs))
                if item["fails"] and session.now not in session.allowed:
                    raise ValueError("callback failed")
                return getattr(session.mod.element, item["kind"])(item["name"])
        self.made = []
        for number, item in enumerate(self.sub["items"]):
            role = getattr(self.mod.enumeration.PackageRole, ROLES[item["role"]])
            template = Element(item["name"], item["ns"], role, [self.made[d] for d in item["depends"]] or None)
            template.number = number
            self.made.append(template)
        half = len(self.sub["applies"]) // 2
        self.allowed = set(range(half, len(self.sub["applies"])))

    def length(self):
        return len(self.sub["applies"])

    def step(self, number):
        self.called, self.now = [], number
        outcome = self.attempt(self.ws.apply, self.made[self.sub["applies"][number]])
        return outcome + (self.called,)

    def settings(self, ws):
        for name, roles in self.sub["spaces"].items():
            ws.create_namespace(name, dict(roles))

    def rebind(self):
        self.prepare()


class Types(Session):
    """Type requests: the model of the types is not saved, the requests are made again"""

    def start(self):
        types = self.sub["types"]
        if not typegraph.valid(types) or any(not 0 <= r < len(types) for r in self.sub["requests"]):
            raise Invalid("type graph")
        self.ws = self.mod.workspace.Workspace()
        self.env.build(typegraph.build, types, self.ws, self.mod)
        self.model = self.mod.model.ImplementationModel(self.ws)
        self.done = []

    def length(self):
        return len(self.sub["requests"])

    def request(self, number):
        """One request"""
        path = typegraph.path(self.sub["types"][self.sub["requests"][number]])
        try:
            made = self.model.create_from_ref(path)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            return "raised", type(exc).__name__, ADDRESS.sub("0x", str(exc))
        return "ok", type(made).__name__, made.name, made.ref, self.attempt(self.mod.generator.TypeGenerator(self.model).write_type_header_str)

    def step(self, number):
        self.done.append(number)
        return self.request(number)

    def resume(self, ws):
        super().resume(ws)
        self.model = self.mod.model.ImplementationModel(ws)
        for number in self.done:
            self.request(number)


SESSIONS = {"behavior": Behavior, "parts": Parts, "growth": Growth, "templates": Templates, "types": Types}


def file_set(ws, files):
    """[(file name, package references)] of a save"""
    names = [p.name for p in ws.packages]
    if files == "each":
        return [(f"pkg{i}.arxml", [f"/{n}"]) for i, n in enumerate(names)] or [("all.arxml", [])]
    return [("all.arxml", [f"/{n}" for n in names])]


def save(session, where, files, version, disk):
    """The library call that saves everything, to be performed later"""
    ws = session.ws
    ws.documents.clear()
    for name, packages in file_set(ws, files):
        ws.create_document(name, packages)
    disk.mkdir(where)
    ws.set_document_root(disk.path(where))
    return lambda: ws.write_documents(schema_version=version)


def load(session, names, where, env, reader):
    """A new workspace with what the files hold; None when the save can't be used"""
    ws = session.mod.workspace.Workspace()
    session.settings(ws)
    for name in names:
        try:
            with env.quiet():
                doc = reader.read_file(env.disk.path(where, name), stop_on_error=True)
        except Exception:  # pylint: disable=broad-exception-caught
            return None
        for package in doc.packages:
            env.must("append-what-was-read", ws.append, package)
    return ws


def contents(env, where):
    """The files of a save"""
    return {k.split("/", 1)[1]: v for k, v in env.disk.snapshot().items() if k.startswith(where + "/")}


def again(data, plan, env):
    """What a file becomes when it is read and written once more"""
    doc = env.must("read-again", env.mod.reader.Reader().read_str, data.decode("utf-8"))
    doc.schema_version = plan["version"]
    return env.must("write-again", env.mod.writer.Writer().write_str, doc).encode("utf-8")


def run(plan, env):
    """One run"""
    if plan["kind"] not in SESSIONS or plan["version"] not in work.SCHEMA_VERSIONS:
        raise Invalid("kind")
    disk = env.disk
    # without interruption
    straight = SESSIONS[plan["kind"]](plan, env)
    count = straight.length()
    expected = [straight.step(i) for i in range(count)]
    env.must("save", save(straight, "straight", "each", plan["version"], disk))
    wanted = contents(env, "straight")
    if any(o[0] == "raised" for o in expected):
        env.probe("call rejected in both")
    env.probe(plan["kind"])
    # with interruptions
    session = SESSIONS[plan["kind"]](plan, env)
    events = [e for e in plan["events"] if 0 <= e["after"] <= count]
    saves = []                      # (directory, names, calls done, whether the process crashed meanwhile)
    history, position, number, restarted = [], 0, 0, False
    reader = env.mod.reader.Reader()

    def restart():
        nonlocal session, position, restarted
        restarted = True
        rd = reader if plan["same_reader"] else env.mod.reader.Reader()
        old = session
        while saves:
            where, names, done, torn = saves[-1]
            disk.begin(plan["reads"], {"read": 20, "bytes": 20000})
            ws = load(session, names, where, env, rd)
            env.fired(disk.end())
            if ws is not None:
                break
            if not torn:
                raise Violation("save-not-readable", f"{where}: a finished save can't be read")
            env.probe("torn save not used")
            saves.pop()
        else:
            env.probe("started from nothing")
            session = SESSIONS[plan["kind"]](plan, env)
            position = 0
            return
        session = SESSIONS[plan["kind"]].__new__(SESSIONS[plan["kind"]])
        session.__dict__.update(old.__dict__)
        if plan["kind"] == "types":
            session.done = list(range(done))
        session.resume(ws)
        if done < position:
            env.probe("work done again")
        position = done

    while True:
        while events and events[0]["after"] == position:
            event = events.pop(0)
            number += 1
            where = f"g{number}"
            env.steps += 1
            if event["do"] == "kill":
                env.probe("crash between calls")
                env.fault("process killed")
                restart()
                history.append("kill")
                continue
            names = [n for n, _ in file_set(session.ws, event["files"])]
            faults = [event["fault"]] if event["do"] == "crash" else event.get("faults") or []
            counts = None
            if faults:
                disk.begin()
                env.must("save", save(session, f"dry{number}", event["files"], plan["version"], disk))
                counts = disk.counts()
                disk.end()
            perform = save(session, where, event["files"], plan["version"], disk)
            disk.begin(faults, counts)
            failed = None
            try:
                perform()
            except Exception as exc:  # pylint: disable=broad-exception-caught
                failed = exc
            crashed = disk.crashed
            fired = env.fired(disk.end())
            if event["do"] == "crash":
                disk.restart()
                if crashed:
                    env.probe("crash during a save")
                    saves.append((where, names, position, True))
                    before = len(saves)
                    restart()
                    if len(saves) == before:
                        env.probe("save had been complete")
                    history.append(("crash", len(saves) == before))
                    continue
            if failed is not None:
                if not any(outops.is_harmful(n) for n in fired):
                    raise Violation("save-raised", f"save {number} after {position} calls (faults {fired}): {failed!r}")
                env.probe("save failed and was retried")
                env.must("save-again", save(session, where, event["files"], plan["version"], disk))
            saves.append((where, names, position, False))
            if event["restart"]:
                env.probe("restart after a save")
                restart()
            else:
                env.probe("continued after a save")
            history.append((event["do"], event["restart"], failed is not None))
        if position >= count:
            break
        env.steps += 1
        got = session.step(position)
        res = canon.diff(expected[position], got)
        if res:
            raise Violation("call-differs", f"{plan['kind']} call {position}: {res[0]}: without interruption {res[1]!r:.200}, "
                            f"continued {res[2]!r:.200}")
        if restarted and got[0] == "raised":
            env.probe("rejected call after a restart")
        position += 1
    compare(straight, session, env)
    env.must("save", save(session, "final", "each", plan["version"], disk))
    have = contents(env, "final")
    if set(have) != set(wanted):
        raise Violation("files-differ", f"{sorted(have)} instead of {sorted(wanted)}")
    for name, data in wanted.items():
        if have[name] != data:
            env.probe("numbers spelled differently")
            data, have[name] = again(data, plan, env), again(have[name], plan, env)
        if have[name] != data:
            at = next((i for i, (a, b) in enumerate(zip(have[name], data)) if a != b), min(len(data), len(have[name])))
            raise Violation("files-differ", f"{name} at byte {at}: {have[name][max(0, at - 80):at + 80]!r} instead of "
                            f"{data[max(0, at - 80):at + 80]!r}")
    env.shape(plan["kind"], history, [(o[0], o[1] if o[0] == "raised" else "") for o in expected])
    env.log(history, disk.digest())


def compare(straight, session, env):
    """Both timelines end with the same model"""
    one, two = list(straight.ws.packages), list(session.ws.packages)
    res = canon.diff(canon.canon(one), canon.canon(two))
    if res:
        raise Violation("model-differs", f"{res[0]}: without interruption {res[1]!r:.200}, continued {res[2]!r:.200}")
    wrong = refs.wrong_refs(two, env.mod)
    if wrong:
        raise Violation("wrong-reference", wrong)
    res = canon.diff(c18.parents(one, env.mod), c18.parents(two, env.mod))
    if res:
        raise Violation("parent-differs", f"{res}")
    for path, obj in refs.contained(two, env.mod):
        if isinstance(obj, (env.mod.element.Package, env.mod.element.ARElement)) and session.ws.find(path) is not obj:
            raise Violation("not-found", path)
