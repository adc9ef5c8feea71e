"""C13: package trees stay consistent through every history of changes and rejections"""
import json

from .. import canon, gen, refs
from ..core import Invalid, Violation, describe

PROPERTY = "C13"
NEEDS_DISK = False
QUICK = 19500
THOROUGH = 400000
RULE = ("a run applies 5-40 operations (create, append, map and look up packages and elements and their parts; with name "
        "collisions, unusable objects, invalid paths, elements that already are elsewhere, packages in themselves) to a workspace, "
        "document or detached package and compares it after each with a reference tree: containment, order, lookups, references; distinct = different "
        "sequence of (operation, outcome)")
COMPONENTS = {"real": ["autosar.xml.element", "autosar.xml.workspace", "autosar.xml.document", "autosar.xml.reader/writer (reload)"],
              "simulated": [], "oracle": ["reference tree of names and object identities"]}
ASSUMPTIONS = ["objects are appended once", "names contain no '/' and are not changed after appending"]
STEP_UNIT = "operations on the tree"
PROBES = ["duplicate rejected", "unusable object rejected", "invalid path rejected", "second of several paths rejected",
          "contained object rejected elsewhere", "package and element compete for a name", "reloaded", "inner part added",
          "map replaced", "package in itself rejected", "bad arguments rejected"]
NAMES = ["A", "B", "C", "Abc", "A1", "b", "\u00c5", "A.B", "x y"]

# container class -> (attribute, create method, append method, class of the part)
PARTS = {
    "SenderReceiverInterface": [("data_elements", "create_data_element", "append_data_element", "VariableDataPrototype")],
    "NvDataInterface": [("data_elements", "create_data_element", "append_data_element", "VariableDataPrototype")],
    "ParameterInterface": [("parameters", "create_parameter", "append_parameter", "ParameterDataPrototype")],
    "ClientServerInterface": [("operations", "create_operation", "append_operation", "ClientServerOperation"),
                              ("possible_errors", "create_possible_error", "append_possible_errors", "ApplicationError")],
    "ClientServerOperation": [("arguments", "create_in_argument", "append_argument", "ArgumentDataPrototype"),
                              ("arguments", "create_out_argument", "append_argument", "ArgumentDataPrototype"),
                              ("arguments", "create_inout_argument", "append_argument", "ArgumentDataPrototype")],
    "ModeDeclarationGroup": [("mode_declarations", "create_mode_declaration", "append_mode_declaratation", "ModeDeclaration"),
                             ("mode_transitions", None, "append_mode_transition", "ModeTransition")],
    "ApplicationRecordDataType": [("elements", None, "append", "ApplicationRecordElement")],
    "ImplementationDataType": [("sub_elements", None, "append", "ImplementationDataTypeElement")],
    "ImplementationDataTypeElement": [("sub_elements", None, "append", "ImplementationDataTypeElement")],
    "CompositionSwComponentType": [("components", None, "append_component", "SwComponentPrototype"),
                                   ("connectors", None, "append_connector", "AssemblySwConnector"),
                                   ("ports", None, "append_port", "ProvidePortPrototype")],
    "ApplicationSoftwareComponentType": [("ports", None, "append_port", "RequirePortPrototype"),
                                         ("ports", None, "append_port", "PRPortPrototype")],
    "SwcInternalBehavior": [("runnables", "create_runnable", "append_runnable", "RunnableEntity"),
                            ("exclusive_areas", "create_exclusive_area", "append_exclusive_area", "ExclusiveArea"),
                            ("events", None, "append_event", "InitEvent")],
}
SINGLE = {"ModeSwitchInterface": ("mode_group", "create_mode_group"),
          "ApplicationSoftwareComponentType": ("internal_behavior", "create_internal_behavior")}
SEARCHABLE = ("SwComponentType", "ModeDeclarationGroup", "ImplementationDataType", "ImplementationDataTypeElement")
KINDS = list(PARTS)[:4] + list(PARTS)[5:8] + ["ApplicationSoftwareComponentType", "ApplicationSoftwareComponentType",
                                             "CompositionSwComponentType", "ModeSwitchInterface", "Unit", "CompuMethod",
                                             "ConstantSpecification"]
JUNK = ["none", "str", "int", "part", "list", "class"]


def generate(rng, profile):
    g = gen.Gen(rng, size=1, density=rng.choice([0.05, 0.2]), exotic_text=0.0)
    names = rng.sample(NAMES, rng.choice([2, 3, 4]))
    kinds = rng.sample(KINDS, 4)
    ops = []
    weights = [(rng.random() + 0.05) for _ in OPS]
    for _ in range(rng.choice([5, 10, 20, 40])):
        name = rng.choices(list(OPS), weights)[0]
        ops.append(OPS[name](rng, g, names, kinds))
    return {"root": rng.choice(["workspace", "workspace", "document", "package"]), "ops": ops}


def path_text(rng, names):
    return "/".join(rng.choice(names) for _ in range(rng.choice([1, 1, 2, 2, 3])))


def small_package(rng, g, names, kinds, depth=0):
    inner = rng.sample(names, min(len(names), rng.randrange(0, 3)))
    out = {"name": rng.choice(names), "attrs": {}, "elements": [], "packages": []}
    for name in inner:
        if rng.random() < 0.5 and depth < 2:
            out["packages"].append(dict(small_package(rng, g, names, kinds, depth + 1), name=name))
        else:
            out["elements"].append(g.obj(rng.choice(kinds), 0, name))
    return out


OPS = {
    "make": lambda r, g, n, k: {"op": "make", "refs": [("/" if r.random() < 0.5 else "") + path_text(r, n) +
                                                       r.choice([""] * 6 + ["//" + r.choice(n), "/"])
                                                       for _ in range(r.choice([1, 1, 1, 2, 3]))]},
    "create": lambda r, g, n, k: {"op": "create", "at": r.random(), "name": r.choice(n),
                                  "args": r.choice([{}, {}, {"category": "c"}, {"desc": 5}, {"no_such": 1}])},
    "append_package": lambda r, g, n, k: {"op": "append_package", "at": r.random(), "what": small_package(r, g, n, k)},
    "append": lambda r, g, n, k: {"op": "append", "at": r.random(), "what": g.obj(r.choice(k), 0, r.choice(n))},
    "append_again": lambda r, g, n, k: {"op": "append_again", "at": r.random(), "what": r.random()},
    "inside": lambda r, g, n, k: {"op": "inside", "at": r.random(), "what": r.random(), "part": r.random() < 0.5},
    "junk": lambda r, g, n, k: {"op": "junk", "at": r.random(), "what": r.choice(JUNK), "deep": r.random() < 0.5,
                                "slot": r.randrange(4)},
    "part": lambda r, g, n, k: {"op": "part", "at": r.random(), "slot": r.randrange(4), "how": r.choice(["create", "append"]),
                                "name": g.ident()},
    "extend": lambda r, g, n, k: {"op": "extend", "at": r.random(), "names": [g.ident() for _ in range(3)],
                                  "bad": r.choice([None, 0, 1, 2, 3])},
    "single": lambda r, g, n, k: {"op": "single", "at": r.random(), "name": g.ident()},
    "port": lambda r, g, n, k: {"op": "port", "at": r.random(), "iface": r.random(), "name": g.ident(),
                                "how": r.choice(["create_p_port", "create_r_port", "create_pr_port"])},
    "prototype": lambda r, g, n, k: {"op": "prototype", "at": r.random(), "of": r.random(), "name": g.ident()},
    "map": lambda r, g, n, k: {"op": "map", "mapping": {f"k{i}": path_text(r, n) + r.choice([""] * 6 + ["//x"])
                                                        for i in range(r.choice([1, 2, 3]))}},
    "add": lambda r, g, n, k: {"op": "add", "key": r.choice(["k0", "k0", "k1", "k9"]),
                               "what": g.obj(r.choice(k), 0, r.choice(n))},
    "find": lambda r, g, n, k: {"op": "find", "path": path_text(r, n) + r.choice(["", "", "/", "//" + r.choice(n)])},
    "reload": lambda r, g, n, k: {"op": "reload"},
}


class Node:
    """Reference tree"""

    def __init__(self, obj, mod):
        self.obj = obj
        self.name = getattr(obj, "name", "")
        self.slots = {attr: [Node(child, mod) for child in children] for attr, children in refs.slots(obj, mod).items()} \
            if hasattr(obj, "name") else {}

    def walk(self, path=""):
        """(path, node) of everything below"""
        for children in self.slots.values():
            for child in children:
                here = f"{path}/{child.name}"
                yield here, child
                yield from child.walk(here)


class Tree:
    """The live tree and its reference"""

    def __init__(self, env, kind):
        self.env, self.mod, self.kind = env, env.mod, kind
        mod = env.mod
        self.live = {"workspace": mod.workspace.Workspace, "document": mod.document.Document,
                     "package": lambda: mod.element.Package("Root")}[kind]()
        self.root = Node(self.live, mod)
        self.root.slots.setdefault("packages", [])
        self.map = {}

    # --- choosing

    def packages(self):
        """All package nodes, the root first"""
        return [self.root] + [n for _, n in self.root.walk() if isinstance(n.obj, self.mod.element.Package)]

    def elements(self):
        return [n for _, n in self.root.walk() if isinstance(n.obj, self.mod.element.ARElement)]

    def of_class(self, names):
        return [n for _, n in self.root.walk() if type(n.obj).__name__ in names]

    @staticmethod
    def pick(nodes, at):
        return nodes[int(at * len(nodes)) % len(nodes)] if nodes else None

    def taken(self, node):
        """Names in a package"""
        return {c.name for attr in ("packages", "elements") for c in node.slots.get(attr, [])}

    def put(self, node, attr, obj):
        node.slots.setdefault(attr, []).append(Node(obj, self.mod))

    def locate(self, path):
        """Node of a package or element path"""
        node = self.root
        for part in path.split("/"):
            node = next((c for a in ("packages", "elements") for c in node.slots.get(a, []) if c.name == part), None)
            if node is None or not isinstance(node.obj, (self.mod.element.Package, self.mod.element.ARElement)):
                return None
        return node

    def is_package(self, node):
        return isinstance(node.obj, self.mod.element.Package) or node is self.root

    # --- the invariant

    def verify(self, where):
        """Containment, order, lookups and references equal the reference tree"""
        self.same(self.root, self.live, where, "")
        find = self.live.find
        base = "" if self.kind != "package" else None
        for path, node in self.root.walk():
            obj = node.obj
            if isinstance(obj, (self.mod.element.Package, self.mod.element.ARElement)):
                for text in (path, path[1:]):
                    if self.must(where, find, text) is not obj:
                        raise Violation("not-found", f"{where}: find({text!r}) does not give the contained {type(obj).__name__}")
            if not hasattr(obj, "ref"):
                continue
            ref = self.must(where, obj.ref)
            if base is None:
                if ref is not None:
                    raise Violation("reference-differs", f"{where}: {path} below a detached package reports {ref}")
            elif str(ref) != path:
                raise Violation("reference-differs", f"{where}: {type(obj).__name__} {path} reports {ref}")
            elif isinstance(obj, (self.mod.element.Package, self.mod.element.ARElement)) and self.kind != "package":
                if self.must(where, find, ref) is not obj:
                    raise Violation("not-found", f"{where}: find({ref!r}) by its own reference")
        searchable = tuple(getattr(self.mod.element, c) for c in SEARCHABLE)
        for path, node in self.root.walk():
            if node is not self.root:
                nothing = self.must(where, find, f"{path}/NoSuchName")
                if nothing is not None:
                    raise Violation("found-too-much", f"{where}: find({path + '/NoSuchName'!r}) gives {type(nothing).__name__}")
            if not isinstance(node.obj, searchable):
                continue
            parts = [c for attr in ("components", "connectors", "ports", "mode_declarations", "mode_transitions", "sub_elements")
                     for c in node.slots.get(attr, [])]
            names = [c.name for c in parts]
            for part in parts:
                if names.count(part.name) == 1 and self.must(where, find, f"{path}/{part.name}") is not part.obj:
                    raise Violation("not-found", f"{where}: find({path + '/' + part.name!r})")
        for node in self.packages():
            if node is self.root and self.kind != "package":
                missing = self.must(where, find, "NoSuchName")
            else:
                missing = self.must(where, node.obj.find, "NoSuchName")
                names = [e.obj.name for e in node.slots.get("elements", [])]
                if [e.name for e in node.obj.filter_regex(".*")] != names or [e.name for e in node.obj.filter(*names)] != names:
                    raise Violation("order-differs", f"{where}: filtering elements of {node.name} does not follow insertion order")
            if missing is not None:
                raise Violation("found-too-much", f"{where}: find('NoSuchName') gives {type(missing).__name__}")

    @staticmethod
    def must(where, func, *args):
        try:
            return func(*args)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            raise Violation("lookup-raised", f"{where}: {func.__name__}({args}): {describe(exc)}") from exc

    def same(self, node, live, where, path):
        have = refs.slots(live, self.mod) if hasattr(live, "name") else \
            {"packages": list(live.packages)} if live.packages else {}
        want = {a: c for a, c in node.slots.items() if c}
        for attr in list(want) + [a for a in have if a not in want]:
            left, right = [c.obj for c in want.get(attr, [])], have.get(attr, [])
            if [id(o) for o in left] != [id(o) for o in right]:
                raise Violation("containment-differs", f"{where}: {path or '/'}.{attr}: {[o.name for o in left]} expected, "
                                f"{[o.name for o in right]} found")
            for child, obj in zip(want.get(attr, []), right):
                if getattr(obj, "name", None) != child.name:
                    raise Violation("name-changed", f"{where}: {path}/{child.name} is now {obj.name}")
                self.same(child, obj, where, f"{path}/{child.name}")


def run(plan, env):
    if plan["root"] not in ("workspace", "document", "package"):
        raise Invalid("root")
    tree = Tree(env, plan["root"])
    history = []
    for i, op in enumerate(plan["ops"]):
        if op["op"] not in OPS:
            raise Invalid("op")
        step = Step(tree, env, op)
        expect = getattr(step, "do_" + op["op"])()
        if expect is None:
            continue
        must_fail, call, apply = expect
        where = f"step {i} {op['op']} on a {plan['root']}"
        before = json.dumps(canon.canon(list(tree.live.packages)), sort_keys=True, default=str)
        try:
            result, error = call(), None
        except Exception as exc:  # pylint: disable=broad-exception-caught
            result, error = None, exc
        if error is not None:
            if must_fail is False:
                raise Violation("rejected-without-reason", f"{where}: {describe(error)}")
            after = json.dumps(canon.canon(list(tree.live.packages)), sort_keys=True, default=str)
            if after != before:
                raise Violation("rejected-but-changed", f"{where}: {type(error).__name__}: the tree is different afterwards")
            tree.verify(where + f" (rejected: {type(error).__name__})")
            history.append((op["op"], type(error).__name__))
        else:
            if must_fail is True:
                raise Violation("not-rejected", f"{where}: returned {type(result).__name__} instead of raising")
            apply(result)
            tree.verify(where)
            history.append((op["op"], "ok"))
        env.steps += 1
    env.shape(plan["root"], history)
    env.log(history, len(list(tree.root.walk())))


class Step:
    """One operation: (must it fail, the call, what it does to the reference tree)"""

    def __init__(self, tree, env, op):
        self.tree, self.env, self.op, self.mod = tree, env, op, env.mod

    def expect(self, fail, call, apply=lambda result: None, probe=None):
        if probe:
            self.env.probe(probe)
        return fail, call, apply

    def build(self, desc):
        if not gen.valid(desc):
            raise Invalid("element")
        if "elements" in desc and "packages" in desc:
            names = [e["a"]["name"] for e in desc["elements"]] + [p["name"] for p in desc["packages"]]
            if len(set(names)) != len(names):
                raise Invalid("names")
            return self.env.build(gen.build_package, desc, self.mod)
        return self.env.build(gen.build, desc, self.mod)

    def do_inside(self):
        """A package or element of a type is appended to itself or to one below it"""
        mod, nodes = self.mod, self.tree.packages()
        parts = self.tree.of_class(["ImplementationDataTypeElement"])
        if self.op.get("part") and parts:
            nodes = parts
        node = self.tree.pick(nodes, self.op["at"])
        around = [n for n in nodes if isinstance(n.obj, (mod.element.Package, mod.element.ImplementationDataTypeElement))
                  and (n is node or any(below is node for _, below in n.walk()))]
        outer = self.tree.pick(around, self.op["what"])
        if outer is None:
            return None
        return self.expect(True, lambda: node.obj.append(outer.obj), probe="package in itself rejected")

    def do_make(self):
        tree, texts = self.tree, self.op["refs"]
        if tree.kind == "package":
            texts = [t.lstrip("/") for t in texts[:1]]
        if not texts or any(not t.strip("/") for t in texts):
            raise Invalid("path")
        fail, why = False, None
        for i, text in enumerate(texts):
            parts = text.lstrip("/").rstrip("/").split("/")
            if "" in parts:
                fail, why = True, "invalid path rejected"
                continue
            for k in range(len(parts)):
                node = tree.locate("/".join(parts[:k + 1]))
                if node is not None and not tree.is_package(node):
                    fail, why = True, "package and element compete for a name"
            if fail and i:
                self.env.probe("second of several paths rejected")

        def apply(result):
            got = result if isinstance(result, list) else [result]
            if len(got) != len(texts):
                raise Violation("make-packages-result", f"{len(got)} packages for {texts}")
            for text, package in zip(texts, got):
                node, live = tree.root, tree.live
                for part in text.strip("/").split("/"):
                    known = next((c for c in node.slots.get("packages", []) if c.name == part), None)
                    live = next((p for p in live.packages if p.name == part), None)
                    if live is None:
                        raise Violation("make-packages-result", f"{text} was not created")
                    if known is None:
                        known = Node(live, self.mod)
                        known.slots.clear()
                        node.slots.setdefault("packages", []).append(known)
                    node = known
                if package is not node.obj:
                    raise Violation("make-packages-result", f"{text}: another package was returned")
        return self.expect(fail, lambda: tree.live.make_packages(*texts), apply, why)

    def do_create(self):
        op, tree = self.op, self.tree
        node = tree.pick(tree.packages(), op["at"])
        bad = "desc" in op["args"] or "no_such" in op["args"]
        fail = op["name"] in tree.taken(node) or bad
        return self.expect(fail, lambda: node.obj.create_package(op["name"], **op["args"]),
                           lambda result: tree.put(node, "packages", result),
                           "bad arguments rejected" if bad else "duplicate rejected" if fail else None)

    def do_append_package(self):
        op, tree = self.op, self.tree
        node, package = tree.pick(tree.packages(), op["at"]), self.build(op["what"])
        fail = package.name in tree.taken(node)
        return self.expect(fail, lambda: node.obj.append(package), lambda result: tree.put(node, "packages", package),
                           "duplicate rejected" if fail else None)

    def do_append(self):
        op, tree = self.op, self.tree
        node, elem = tree.pick(tree.packages(), op["at"]), self.build(op["what"])
        if node is tree.root and tree.kind != "package":
            return self.expect(True, lambda: node.obj.append(elem), probe="unusable object rejected")
        fail = elem.name in tree.taken(node)
        return self.expect(fail, lambda: node.obj.append(elem), lambda result: tree.put(node, "elements", elem),
                           "duplicate rejected" if fail else None)

    def do_append_again(self):
        """An object that is in the tree, to a place where its name is taken"""
        tree, op = self.tree, self.op
        both = tree.packages()[1:] + tree.elements()
        item = tree.pick(both, op["what"])
        if item is None:
            return None
        places = [n for n in tree.packages() if item.name in tree.taken(n)]
        if not tree.is_package(item) and tree.kind != "package":
            places = [n for n in places if n is not tree.root]
        place = tree.pick(places, op["at"])
        if place is None:
            return None
        return self.expect(True, lambda: place.obj.append(item.obj), probe="contained object rejected elsewhere")

    def do_junk(self):
        tree, op = self.tree, self.op
        element = self.mod.element
        junk = {"none": None, "str": "A", "int": 3, "part": element.VariableDataPrototype("A"), "list": [], "class": element.Unit}
        if op["what"] not in junk:
            raise Invalid("junk")
        what = junk[op["what"]]
        if op["deep"]:
            node = tree.pick(tree.of_class(PARTS), op["at"])
            if node is None:
                return None
            parts = PARTS[type(node.obj).__name__]
            method = parts[op["slot"] % len(parts)][2]
            if op["what"] == "part" and "data_element" in method:
                return None
            return self.expect(True, lambda: getattr(node.obj, method)(what), probe="unusable object rejected")
        node = tree.pick(tree.packages(), op["at"])
        return self.expect(True, lambda: node.obj.append(what), probe="unusable object rejected")

    def do_part(self):
        tree, op = self.tree, self.op
        node = tree.pick(tree.of_class(PARTS), op["at"])
        if node is None or not op["name"]:
            return None
        parts = PARTS[type(node.obj).__name__]
        attr, create, append, cls = parts[op["slot"] % len(parts)]
        if op["how"] == "create" and create:
            def call():
                return getattr(node.obj, create)(op["name"])
        else:
            part = self.env.build(getattr(self.mod.element, cls), op["name"])

            def call():
                getattr(node.obj, append)(part)
                return part

        def apply(result):
            if result is None or result.name != op["name"]:
                raise Violation("part-result", f"{create or append} returned {type(result).__name__}")
            tree.put(node, attr, result)
        return self.expect(False, call, apply, "inner part added")

    def do_extend(self):
        tree, op = self.tree, self.op
        node = tree.pick(tree.of_class(["ApplicationRecordDataType"]), op["at"])
        if node is None:
            return None
        parts = [self.env.build(self.mod.element.ApplicationRecordElement, n) for n in op["names"] if n]
        items = list(parts)
        if op["bad"] is not None:
            items.insert(int(op["bad"]), "bad")
        return self.expect(op["bad"] is not None, lambda: node.obj.extend(items),
                           lambda result: [tree.put(node, "elements", p) for p in parts],
                           "unusable object rejected" if op["bad"] is not None else "inner part added")

    def do_single(self):
        tree, op = self.tree, self.op
        node = tree.pick(tree.of_class(SINGLE), op["at"])
        if node is None or not op["name"]:
            return None
        attr, method = SINGLE[type(node.obj).__name__]

        def apply(result):
            node.slots[attr] = [Node(result, self.mod)]
        return self.expect(False, lambda: getattr(node.obj, method)(op["name"]), apply, "inner part added")

    def do_port(self):
        tree, op = self.tree, self.op
        node = tree.pick(tree.of_class(["ApplicationSoftwareComponentType", "CompositionSwComponentType"]), op["at"])
        iface = tree.pick(tree.elements(), op["iface"])
        if node is None or iface is None or not op["name"]:
            return None
        usable = isinstance(iface.obj, self.mod.element.PortInterface)
        return self.expect(None if tree.kind == "package" else not usable, lambda: getattr(node.obj, op["how"])(op["name"], iface.obj),
                           lambda result: tree.put(node, "ports", result),
                           "inner part added" if usable else "unusable object rejected")

    def do_prototype(self):
        tree, op = self.tree, self.op
        node = tree.pick(tree.of_class(["CompositionSwComponentType"]), op["at"])
        of = tree.pick(tree.elements(), op["of"])
        if node is None or of is None or not op["name"]:
            return None
        usable = isinstance(of.obj, self.mod.element.SwComponentType)
        return self.expect(None if tree.kind == "package" else not usable,
                           lambda: node.obj.create_component_prototype(of.obj, op["name"]),
                           lambda result: tree.put(node, "components", result),
                           "inner part added" if usable else "unusable object rejected")

    def do_map(self):
        tree, op = self.tree, self.op
        if tree.kind != "workspace" or not op["mapping"]:
            return None
        self.op = {"refs": list(op["mapping"].values())}
        fail, _, apply = self.do_make()

        def done(result):
            apply([tree.live.get_package(k) for k in op["mapping"]])
            tree.map = {k: tree.locate(v) for k, v in op["mapping"].items()}
        if tree.map:
            self.env.probe("map replaced")
        return self.expect(fail, lambda: tree.live.create_package_map(dict(op["mapping"])), done)

    def do_add(self):
        tree, op = self.tree, self.op
        if tree.kind != "workspace":
            return None
        elem, node = self.build(op["what"]), tree.map.get(op["key"])
        fail = node is None or elem.name in tree.taken(node)
        if node is not None:
            have = Tree.must("find_element", tree.live.find_element, op["key"], elem.name)
            want = next((c.obj for a in ("packages", "elements") for c in node.slots.get(a, []) if c.name == elem.name), None)
            if have is not want:
                raise Violation("not-found", f"find_element({op['key']!r}, {elem.name!r})")
            if Tree.must("get_package", tree.live.get_package, op["key"]) is not node.obj:
                raise Violation("not-found", f"get_package({op['key']!r})")
        return self.expect(fail, lambda: tree.live.add_element(op["key"], elem),
                           lambda result: tree.put(node, "elements", elem), "duplicate rejected" if fail and node else None)

    def do_find(self):
        tree, op = self.tree, self.op
        text = op["path"]
        if not text.strip("/"):
            raise Invalid("path")

        def call():
            found = tree.live.find(text)
            want = tree.locate(text)
            if "//" not in text and not text.endswith("/") and want is None and found is not None and \
                    isinstance(found, (self.mod.element.Package, self.mod.element.ARElement)):
                raise Violation("found-too-much", f"find({text!r}) gives {type(found).__name__}")
            return found
        return self.expect(None, call)

    def do_reload(self):
        """Write the tree and go on with what is read back"""
        tree = self.tree
        if tree.kind == "package":
            return None
        mod = self.mod
        doc = mod.document.Document(schema_version=51)
        doc.packages.extend(tree.live.packages)
        try:
            text = mod.writer.Writer().write_str(doc)
            with self.env.quiet():
                new = mod.reader.Reader().read_str(text, stop_on_error=True)
        except Exception:  # pylint: disable=broad-exception-caught
            return None         # C01 decides that
        want = [(p, type(n.obj).__name__) for p, n in tree.root.walk()]

        def call():
            tree.live = new
            tree.kind = "document"
            tree.map = {}
            tree.root = Node(new, mod)
            tree.root.slots = {"packages": [Node(p, mod) for p in new.packages]}
            return new

        def apply(result):
            have = [(p, type(n.obj).__name__) for p, n in tree.root.walk()]
            if sorted(have) != sorted(want):
                raise Violation("reload-differs", f"{sorted(set(have) ^ set(want))[:4]}")
        return self.expect(False, call, apply, "reloaded")

