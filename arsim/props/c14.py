"""C14: templates create each element once, dependencies first, also when creation fails"""
import posixpath

from .. import interrupt, refs
from ..core import Invalid, Violation, describe

PROPERTY = "C14"
NEEDS_DISK = False
QUICK = 26000
THOROUGH = 500000
RULE = ("a run applies 3-25 times templates of a random dependency graph (static dependencies, templates applied from inside "
        "creation callbacks, shared and generic dependencies, cycles) over random namespaces while planned callbacks raise, are "
        "interrupted, run out of memory or return unusable objects, namespaces move, dependencies change and a second workspace "
        "uses the same templates; every callback invocation and the tree after every "
        "application are compared with a reference; distinct = different (graph shape, sequence of outcomes, callbacks called)")
COMPONENTS = {"real": ["autosar.xml.workspace", "autosar.xml.template", "autosar.xml.element"],
              "simulated": ["creation callbacks (order, failures, interruptions)"],
              "oracle": ["reference set of created elements per package path"]}
ASSUMPTIONS = ["creation callbacks name the element as their template does"]
STEP_UNIT = "creation callbacks invoked"
PROBES = ["callback raised", "callback interrupted", "callback returned unusable object", "completed after failure",
          "dependency shared", "existing element returned", "applied inside a callback", "inner failure caught", "cycle",
          "unknown role or namespace", "self-appending template", "two templates, one element", "dependency failed after another",
          "many shared dependencies", "namespace moved", "dependencies changed", "two workspaces"]

ROLES = ["BaseType", "CompuMethod", "DataConstraint", "ImplementationDataType", "PortInterface", "Unit", "!Custom", "!x"]
PATHS = ["DataTypes", "DataTypes/Base", "Units", "../Shared", "/Abs/Deep/Er", ".", "DataTypes/../Units", "A/B/C"]
KINDS = ["SwBaseType", "Unit", "CompuMethod", "ImplementationDataType", "SenderReceiverInterface", "ConstantSpecification",
         "ApplicationSoftwareComponentType", "ModeDeclarationGroup"]
FAULTS = ["ValueError", "KeyError", "StopIteration", "RuntimeError", "KeyboardInterrupt", "MemoryError", "AttributeError",
          "none", "str", "package", "part", "RecursionError", "OSError"]
RAISES = {"ValueError": ValueError, "KeyError": KeyError, "StopIteration": StopIteration, "RuntimeError": RuntimeError,
          "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "AttributeError": AttributeError,
          "RecursionError": RecursionError, "OSError": OSError}
BASES = [None, None, "/Base", "/Base/Sub"]


def generate(rng, profile):
    namespaces = []
    for name in rng.sample(["Default", "Platform", "App"], rng.choice([1, 1, 2])):
        namespaces.append({"name": name, "base": rng.choice(BASES),
                           "roles": {role: rng.choice(PATHS) for role in rng.sample(ROLES, rng.choice([1, 2, 4]))}})
    templates = []
    count = rng.choice([1, 2, 3, 5, 8])
    shared_names = rng.random() < 0.3
    for i in range(count):
        ns = rng.choice(namespaces)
        earlier = list(range(i))
        deps = rng.sample(earlier, min(len(earlier), rng.choice([0, 0, 1, 1, 2, 3])))
        role = rng.choice(list(ns["roles"]))
        generic = rng.random() < 0.1
        if rng.random() < 0.02 and not generic:
            role = "DocumentationBlock"
        templates.append({"name": f"T{i % 2 if shared_names else i}", "ns": ns["name"] if generic or rng.random() > 0.02 else "Nowhere",
                          "role": role, "kind": rng.choice(KINDS), "depends": [] if generic else deps,
                          "append": rng.random() > 0.12, "none_deps": rng.random() < 0.5, "generic": generic,
                          "inner": [rng.choice(earlier)] if earlier and rng.random() < 0.15 else [],
                          "catch": rng.random() < 0.3})
    if rng.random() < 0.06:
        which = rng.choice(templates)
        if not which["generic"]:
            which["depends"].append(count - 1)
    if rng.random() < 0.01 and not profile.get("job"):
        templates = layered(rng, namespaces)
        count = len(templates)
    applies = []
    for _ in range(rng.choice([3, 5, 10, 25])):
        which = rng.randrange(count) if rng.random() < 0.7 else count - 1
        faults = {}
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                faults[str(rng.randrange(count) if rng.random() < 0.6 else which)] = rng.choice(FAULTS)
        applies.append({"t": which, "faults": faults, "kwargs": rng.choice([{}, {}, {"x": 1}, {"desc": "t"}])})
    changing = rng.choice([0, 0, 0.3])
    for item in applies:
        if rng.random() < changing:
            item["ws"] = rng.randrange(2)
        if rng.random() < changing:
            ns = rng.choice(namespaces)
            item["move"] = {"ns": ns["name"], "base": rng.choice(BASES), "roles": {role: rng.choice(PATHS) for role in ns["roles"]}}
        if rng.random() < changing:
            which = rng.randrange(count)
            if which and not templates[which]["generic"]:
                item["rewire"] = {"t": which, "depends": rng.sample(range(which), rng.randrange(min(which, 3) + 1))}
    return {"namespaces": namespaces, "templates": templates, "applies": applies}


def layered(rng, namespaces):
    """Many templates, each depending on several of the ones before it, which therefore are reached on very many paths"""
    ns = rng.choice(namespaces)
    templates = []
    for i in range(rng.choice([30, 45, 60])):
        near = list(range(max(0, i - rng.choice([3, 4])), i))
        deps = rng.sample(near, min(len(near), rng.choice([2, 2, 3])))
        templates.append({"name": f"T{i}", "ns": ns["name"], "role": rng.choice(list(ns["roles"])), "kind": rng.choice(KINDS),
                          "depends": deps, "append": rng.random() > 0.12, "none_deps": True, "generic": False, "inner": [],
                          "catch": False})
    return templates


def place(base, name, path):
    """Package path of a role"""
    return posixpath.normpath(posixpath.join(base or "/" + name, path))


class World:
    """The workspace, the templates and what should exist"""

    def __init__(self, plan, env):
        self.env, self.mod, self.plan = env, env.mod, plan
        self.spaces = []
        for _ in range(2 if any(item.get("ws") for item in plan["applies"]) else 1):
            ws = env.mod.workspace.Workspace()
            for ns in plan["namespaces"]:
                env.must("create-namespace", ws.create_namespace, ns["name"], dict(ns["roles"]), ns["base"])
            # workspace; (package path, name) -> element that was completed; package path -> names in order of completion;
            # namespaces as they are now; package paths so far
            self.spaces.append({"ws": ws, "live": {}, "order": {}, "namespaces": list(plan["namespaces"]), "places": set()})
        self.looping = None     # templates that depend on themselves
        self.faults, self.kwargs, self.stack = {}, {}, []
        self.called, self.failed, self.ignored = [], set(), set()
        self.templates = []
        for i, desc in enumerate(plan["templates"]):
            self.templates.append(self.make(i, desc))
        for i, desc in enumerate(plan["templates"]):
            deps = [self.templates[k] for k in desc["depends"] if 0 <= k < len(self.templates)]
            if not desc["generic"]:
                self.templates[i].depends = deps or (None if desc["none_deps"] else [])
        for k in reversed(range(len(self.spaces))):
            self.use(k)
            self.note_places()

    def use(self, k):
        """The workspace that is worked on from here on"""
        space = self.spaces[k]
        self.ws, self.live, self.order, self.namespaces, self.places = (space[x] for x in ("ws", "live", "order", "namespaces", "places"))

    def note_places(self):
        self.places.update(path for path in map(self.path, range(len(self.templates))) if path)

    def move(self, item):
        """A namespace is created anew, with the same roles at other places"""
        self.env.probe("namespace moved")
        self.env.must("create-namespace", self.ws.create_namespace, item["ns"], dict(item["roles"]), item["base"])
        self.namespaces[:] = [{**ns, "roles": item["roles"], "base": item["base"]} if ns["name"] == item["ns"] else ns for ns in self.namespaces]
        self.note_places()

    def rewire(self, item):
        """A template gets other dependencies"""
        self.env.probe("dependencies changed")
        self.plan["templates"][item["t"]]["depends"] = item["depends"]
        self.templates[item["t"]].depends = [self.templates[k] for k in item["depends"]]
        self.looping = None

    def make(self, i, desc):
        world, template = self, self.mod.template
        if desc["generic"]:
            class Generic(template.GenericTemplate):
                """Does everything itself"""

                def apply(self, workspace, **kwargs):
                    """Callback"""
                    return world.generic(i, workspace, kwargs)
            return Generic()

        class Element(template.ElementTemplate):
            """Creates one element"""

            def create(self, package, workspace, dependencies, **kwargs):
                """Callback"""
                return world.create(i, package, workspace, dependencies, kwargs)
        role = desc["role"]
        role = role[1:] if role.startswith("!") else self.role(role)
        return Element(desc["name"], desc["ns"], role, None, desc["append"])

    def role(self, name):
        found = [m for m in self.mod.enumeration.PackageRole if m.name.replace("_", "").lower() == name.lower()]
        if not found:
            return "NoSuchRole"
        return found[0]

    def path(self, i):
        """Package path of a template by its namespace, or None"""
        desc = self.plan["templates"][i]
        ns = next((n for n in self.namespaces if n["name"] == desc["ns"]), None)
        if ns is None or desc["role"] not in ns["roles"]:
            return None
        return place(ns["base"], ns["name"], ns["roles"][desc["role"]])

    def key(self, i):
        return self.path(i), self.plan["templates"][i]["name"]

    def cyclic(self, i):
        """Whether a cycle can be reached from template i"""
        if self.looping is None:
            self.looping = {k for k in range(len(self.templates))
                            if any(k in reach(self.plan, n) for n in below(self.plan, k))}
        return bool(self.looping & reach(self.plan, i))

    def apply(self, i, kwargs):
        """One application; of many templates it has to finish in a number of steps that follows from their number"""
        if len(self.templates) <= 20:
            return self.ws.apply(self.templates[i], **kwargs)
        self.env.probe("many shared dependencies")
        size = len(self.templates) + sum(len(below(self.plan, k)) for k in range(len(self.templates)))
        with interrupt.bounded(60 * size ** 2, f"application of template {i} of {len(self.templates)}"):
            return self.ws.apply(self.templates[i], **kwargs)

    # --- callbacks

    def build(self, i):
        desc = self.plan["templates"][i]
        return self.env.build(getattr(self.mod.element, desc["kind"]), desc["name"])

    def misbehave(self, i):
        """The planned fault of this invocation, if any"""
        how = self.faults.get(str(i))
        if how is None:
            return False, None
        self.env.fault(f"callback:{how}")
        self.failed.add(i)
        if how in RAISES:
            self.env.probe("callback interrupted" if how in ("KeyboardInterrupt", "MemoryError") else "callback raised")
            raise RAISES[how]("injected")
        self.env.probe("callback returned unusable object")
        element = self.mod.element
        name = self.plan["templates"][i]["name"]
        return True, {"none": None, "str": name, "package": element.Package(name), "part": element.VariableDataPrototype(name)}[how]

    def inner(self, i):
        """Templates applied from inside the callback"""
        desc = self.plan["templates"][i]
        for k in desc["inner"]:
            if not 0 <= k < len(self.templates):
                continue
            self.env.probe("applied inside a callback")
            try:
                elem = self.ws.apply(self.templates[k])
            except (ValueError, RuntimeError, TypeError, KeyError) as exc:
                if not desc["catch"] or isinstance(exc, RecursionError):
                    raise
                self.env.probe("inner failure caught")
                continue
            if self.plan["templates"][k]["generic"] and k in self.failed:
                self.ignored.add(k)     # its result is the callback's own business
                continue
            self.check_result(k, elem, f"applied inside the callback of template {i}")

    def create(self, i, package, workspace, dependencies, kwargs):
        """What an ElementTemplate's create does"""
        where, desc = f"creation callback of template {i}", self.plan["templates"][i]
        self.env.steps += 1
        self.called.append(i)
        key = self.key(i)
        if key in self.live:
            raise Violation("created-twice", f"{where}: {key} exists already")
        if workspace is not self.ws:
            raise Violation("callback-arguments", f"{where}: another workspace")
        if package is None or self.ws.find(key[0]) is not package or str(package.ref()) != key[0]:
            raise Violation("callback-arguments", f"{where}: package {package and package.ref()} instead of {key[0]}")
        want_kwargs = self.kwargs if self.stack[0] == i and not self.cyclic(i) else None
        if want_kwargs is not None and kwargs != want_kwargs:
            raise Violation("callback-arguments", f"{where}: keyword arguments {kwargs} instead of {want_kwargs}")
        want = {}
        for k in desc["depends"]:
            if 0 <= k < len(self.templates):
                dep = self.live.get(self.key(k))
                if dep is None:
                    raise Violation("dependency-missing", f"{where}: dependency {self.key(k)} has not been created")
                want[posixpath.join(*self.key(k))] = dep
        have = dependencies or {}
        if set(have) != set(want) or any(have[k] is not want[k] for k in want):
            raise Violation("callback-arguments", f"{where}: dependencies {sorted(have)} instead of {sorted(want)}")
        for ref, dep in want.items():
            if self.ws.find(ref) is not dep:
                raise Violation("dependency-missing", f"{where}: {ref} is not in its package")
        self.inner(i)
        if key in self.live:
            self.failed.add(i)
            raise ValueError("the callback's own inner application took the name")
        bad, value = self.misbehave(i)
        if bad:
            return value
        elem = self.build(i)
        if not desc["append"]:
            self.env.probe("self-appending template")
            package.append(elem)
        self.complete(key, elem)
        return elem

    def generic(self, i, workspace, kwargs):
        """What a GenericTemplate's apply does: create the element at a place of its own"""
        self.env.steps += 1
        self.called.append(i)
        if workspace is not self.ws:
            raise Violation("callback-arguments", f"generic template {i}: another workspace")
        if self.stack[0] == i and kwargs != self.kwargs and not self.cyclic(i):
            raise Violation("callback-arguments", f"generic template {i}: keyword arguments {kwargs}")
        key = self.key(i)
        if key in self.live:
            return self.live[key]
        self.inner(i)
        if key in self.live:
            return self.live[key]
        bad, value = self.misbehave(i)
        if bad:
            return value
        package = self.ws.make_packages(key[0])
        elem = self.build(i)
        package.append(elem)
        self.complete(key, elem)
        return elem

    def complete(self, key, elem):
        self.live[key] = elem
        self.order.setdefault(key[0], []).append(key[1])

    # --- checks

    def check_result(self, i, elem, where):
        """An application returned"""
        key = self.key(i)
        if key not in self.live:
            raise Violation("returned-without-element", f"{where}: template {i} {key} was never created, returned {type(elem).__name__}")
        if elem is not self.live[key]:
            raise Violation("another-element", f"{where}: template {i} {key}: not the element created first")

    def verify(self, where):
        """The tree holds exactly the completed elements"""
        have, order = {}, {}
        for path, obj in refs.contained(self.ws.packages, self.mod):
            if isinstance(obj, self.mod.element.Package):
                if not any(known == path or known.startswith(path + "/") for known in self.places):
                    raise Violation("half-applied", f"{where}: package {path} belongs to no template")
            elif isinstance(obj, self.mod.element.ARElement):
                parent, name = posixpath.split(path)
                have[(parent, name)] = obj
                order.setdefault(parent, []).append(name)
        for key, elem in self.live.items():
            if have.get(key) is not elem:
                raise Violation("element-lost", f"{where}: {key} was created but is not in its package")
            path = posixpath.join(*key)
            if self.ws.find(path) is not elem or str(elem.ref()) != path:
                raise Violation("element-unusable", f"{where}: {path}: find or reference differs")
        extra = set(have) - set(self.live)
        if extra:
            raise Violation("half-applied", f"{where}: {sorted(extra)} in the tree although their creation failed")
        for path, names in self.order.items():
            if sorted(order.get(path, [])) != sorted(names):
                raise Violation("created-twice", f"{where}: {path} holds {order.get(path)} instead of {names}")


def run(plan, env):
    if not plan["namespaces"] or not plan["templates"]:
        raise Invalid("nothing to do")
    for ns in plan["namespaces"]:
        if not ns["name"] or not ns["roles"] or any(not p for p in ns["roles"].values()) or ns["base"] == "" or any(r in ("", "!") for r in ns["roles"]):
            raise Invalid("namespace")
    for i, desc in enumerate(plan["templates"]):
        if not desc["name"] or not desc["role"] or desc["role"] == "!" or desc["kind"] not in KINDS or \
                desc["role"] not in ROLES + ["DocumentationBlock"] or (desc["generic"] and desc["depends"]):
            raise Invalid("template")
    for item in plan["applies"]:
        move, rewire = item.get("move"), item.get("rewire")
        if move and not any(ns["name"] == move["ns"] and set(ns["roles"]) == set(move["roles"]) for ns in plan["namespaces"]):
            raise Invalid("move")
        if move and (move["base"] == "" or any(not p for p in move["roles"].values())):
            raise Invalid("move")
        if rewire and (not 0 <= rewire["t"] < len(plan["templates"]) or plan["templates"][rewire["t"]]["generic"]
                       or any(not 0 <= k < rewire["t"] for k in rewire["depends"])):
            raise Invalid("rewire")
        if item.get("ws", 0) not in (0, 1):
            raise Invalid("workspace")
    world = World(plan, env)
    keys = []
    for item in [{}] + plan["applies"]:
        move = item.get("move")
        for i, desc in enumerate(plan["templates"]):
            if move and move["ns"] == desc["ns"] and desc["role"] in move["roles"]:
                keys.append((place(move["base"], move["ns"], move["roles"][desc["role"]]), desc["name"]))
            elif not item:
                keys.append(world.key(i))
    if len(set(keys)) < len(keys):
        env.probe("two templates, one element")
    # names must not compete with packages
    paths = {p for p, _ in keys if p}
    for path, name in {(p, n) for p in paths for _, n in keys}:
        full = f"{path}/{name}"
        if path is None or path == "/":
            continue
        if any(p == full or p.startswith(full + "/") for p in paths):
            raise Invalid("name of a package")
    if any(p == "/" for p in paths):
        raise Invalid("root as package")
    for i, desc in enumerate(plan["templates"]):
        if desc["generic"] and world.path(i) is None:
            raise Invalid("generic template without a place")
    deps = [k for d in plan["templates"] for k in d["depends"]]
    if len(deps) != len(set(deps)):
        env.probe("dependency shared")
    history, failed_before = [], set()
    for step, item in enumerate(plan["applies"]):
        i = item["t"]
        if not 0 <= i < len(world.templates) or any(f not in FAULTS for f in item["faults"].values()):
            raise Invalid("apply")
        where = f"application {step} of template {i}"
        world.use(min(item.get("ws", 0), len(world.spaces) - 1))
        if item.get("move"):
            world.move(item["move"])
        if item.get("rewire"):
            world.rewire(item["rewire"])
        world.faults, world.kwargs, world.stack = item["faults"], item["kwargs"], [i]
        world.called, world.failed, world.ignored = [], set(), set()
        done = set(world.live)
        cyclic = world.cyclic(i)
        error = None
        try:
            elem = world.apply(i, item["kwargs"])
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-exception-caught
            error = exc
        env.log(step, i, world.called, type(error).__name__)
        if error is not None:
            reason = world.failed or cyclic or any(world.path(k) is None for k in reach(plan, i))
            if not reason:
                raise Violation("failed-without-reason", f"{where}: {describe(error)}")
            if cyclic:
                env.probe("cycle")
            elif not world.failed:
                env.probe("unknown role or namespace")
            if set(world.live) - done:
                env.probe("dependency failed after another")
            failed_before.add(i)
            history.append((i, type(error).__name__, tuple(world.called[:20])))
        else:
            if cyclic and world.key(i) not in done and not any(plan["templates"][k]["inner"] or plan["templates"][k]["generic"]
                                                               for k in reach(plan, i)):
                raise Violation("returned-without-element", f"{where}: the templates depend on each other")
            bad = {k for k in world.failed if not caught(plan, i, k)} - world.ignored
            if bad and not plan["templates"][i]["generic"]:
                raise Violation("failure-not-reported", f"{where}: callbacks {sorted(bad)} failed, apply returned")
            if bad and i in bad:
                history.append((i, "unusable"))
            else:
                world.check_result(i, elem, where)
                if world.key(i) in done:
                    env.probe("existing element returned")
                elif i in failed_before:
                    env.probe("completed after failure")
                history.append((i, "ok", tuple(world.called)))
        world.verify(where)
    # the causes are gone: everything can be completed
    world.faults = {}
    for k in range(len(world.spaces)):
        world.use(k)
        for i in range(len(world.templates)):
            if world.cyclic(i) or any(world.path(k) is None for k in reach(plan, i)):
                continue
            world.kwargs, world.stack, world.called, world.failed, world.ignored = {}, [i], [], set(), set()
            elem = env.must("apply", world.apply, i, {})
            world.check_result(i, elem, f"final application of template {i}")
        world.verify("at the end")
    if len(world.spaces) > 1:
        env.probe("two workspaces")
        world.use(0)
        world.verify("at the end")
    env.shape([(d["depends"], d["inner"], d["append"], d["generic"]) for d in plan["templates"]], history)


def below(plan, i):
    """Templates a template applies itself"""
    desc = plan["templates"][i]
    return [k for k in desc["depends"] + desc["inner"] if 0 <= k < len(plan["templates"])]


def reach(plan, i):
    """Templates a template needs, itself included"""
    seen, todo = set(), [i]
    while todo:
        k = todo.pop()
        if k not in seen and 0 <= k < len(plan["templates"]):
            seen.add(k)
            todo.extend(below(plan, k))
    return seen


def caught(plan, top, k):
    """Whether a failure of template k may have been caught by a callback on its way to the top"""
    return any(d["catch"] and any(k in reach(plan, n) for n in d["inner"]) for j, d in enumerate(plan["templates"])
               if j in reach(plan, top))
