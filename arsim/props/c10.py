"""C10: concurrent lookups and serialisation of one unchanging model equal serial ones"""
import os

from .. import canon, gen, jobs, outops, refs, sched, typegraph, work, wsplan
from ..core import Invalid, Skip, Violation
from . import c09, c15, c16

PROPERTY = "C10"
QUICK = 3900
THOROUGH = 150000
RULE = ("a run builds one workspace (components with ports and behaviours, data types, random elements, namespaces, document "
        "set) and one document, then 2-5 threads look up elements and parts, compute reference paths, resolve references, "
        "ports and roles, compare and serialise the model under a planned schedule that switches threads at chosen lines or "
        "instructions of library code; every result is compared with the one obtained alone in a separate process and the "
        "model with what it was; distinct = different (operations per thread, sequence of switch locations)")
COMPONENTS = {"real": ["autosar (all modules)", "CPython threads", "lxml/libxml2", "file system below the scratch directory"],
              "simulated": ["thread scheduling (one thread runs at a time; switches by plan)", "threading.Lock/RLock waiting"],
              "oracle": ["the same operations done by one thread in a separate process"]}
ASSUMPTIONS = ["threads switch between bytecode instructions of library code only (never inside C calls)",
               "only one thread writes the document set (all would write the same files)"]
STEP_UNIT = "library lines or instructions executed under the scheduler"
PROBES = ["found", "not found", "raised", "document written", "document set written", "header generated", "port resolved",
          "more than 100 switches", "switches inside a line", "same operations in all threads"]

OPS = ["find", "find", "find", "inner", "ref", "ref", "resolve", "resolve", "port", "port", "port", "role", "scan", "elem", "elem",
       "doc", "doc", "set", "header", "settings", "modes"]
TWISTS = ["exact", "exact", "exact", "missing", "no slash", "trailing", "case", "deeper", "double", "empty", "reference"]
QUERIES = ["r", "p", "data", "data", "operation", "modes", "modes", "interface", "runnable"]


def generate(rng, profile):
    base = c15.generate(rng, {"index": 1, "tier": "quick"})
    base["calls"] = base["calls"][:rng.choice([2, 6, 15])]
    base["write"] = False
    config = {"namespace": {"Default": {role: rng.choice(c16.PATHS) for role in rng.sample(sorted(c16.KNOWN_ROLES), rng.choice([1, 3]))}}}
    threads = rng.choice([2, 2, 3, 3, 4, 5])
    kinds = rng.sample(sorted(set(OPS)), rng.choice([1, 2, 3])) if rng.random() < 0.4 else OPS
    same = rng.random() < 0.2
    lists = []
    for number in range(threads):
        if same and lists:
            lists.append([op for op in lists[0] if op["op"] != "set"])
            continue
        ops = [random_op(rng, rng.choice(kinds)) for _ in range(rng.choice([1, 2, 4, 8]))]
        lists.append([op for op in ops if number == 0 or op["op"] != "set"])
    return {"base": base, "ws": wsplan.random_workspace(rng, small=True), "doc": work.doc_plan(rng, big=0.02),
            "types": typegraph.random_graph(rng, rng.choice([1, 3, 6])), "config": config, "threads": lists,
            "schedule": sched.random_schedule(rng, threads)}


def random_op(rng, kind):
    """One read-only operation"""
    op = {"op": kind, "at": round(rng.random(), 4)}
    if kind in ("find", "inner"):
        op.update(twist=rng.choice(TWISTS), up=rng.choice([1, 1, 2, 3]), root=rng.choice(["ws", "ws", "doc"]))
    elif kind == "port":
        op.update(query=rng.choice(QUERIES), name=rng.choice(c15.NAMES + ["", "", None]), own=rng.random() < 0.7)
    elif kind == "role":
        op.update(role=rng.choice(sorted(c16.KNOWN_ROLES) + ["!x"]), ns=rng.choice(["Default", "Default", "Gone"]))
    elif kind == "settings":
        op["name"] = rng.choice(c15.SETTINGS)
    elif kind == "modes":
        op["name"] = rng.choice(c15.NAMES)
    elif kind == "elem":
        op["root"] = rng.choice(["ws", "doc"])
    elif kind == "set":
        op["schema"] = rng.choice(work.SCHEMA_VERSIONS)
    elif kind == "header":
        op["requests"] = [round(rng.random(), 3) for _ in range(rng.choice([1, 2, 4]))]
    return op


class Model:
    """The shared objects and the index used to name results"""

    def __init__(self, plan, env):
        mod = self.mod = env.mod
        self.plan, self.disk = plan, env.disk
        inner = jobs.JobEnv(mod, None, None)
        world = c15.World(plan["base"], inner)
        before = [c15.snapshot(world, i) for i in range(len(world.comps))]
        for number, call in enumerate(plan["base"]["calls"]):
            try:
                c15.step(world, inner, call, before, number)
            except Violation as exc:
                raise Skip("behaviour builder (see C15)") from exc
        self.ws = world.ws
        self.comps = world.comps
        for package in plan["ws"]["packages"]:
            self.ws.append(gen.build_package(package, mod))
        typegraph.build(plan["types"], self.ws, mod)
        for name, roles in plan["config"]["namespace"].items():
            self.ws.create_namespace(name, dict(roles))
        self.ws.create_package_map({"I": "Interfaces", "C": "Comps"})
        self.ws.set_document_root(self.disk.path("out"))
        for doc in plan["ws"]["documents"]:
            wsplan.add_document(self.ws, doc)
        for mapping in plan["ws"]["mappings"]:
            wsplan.add_mapping(self.ws, mapping, mod)
        self.doc = gen.build_document(plan["doc"], mod)
        self.items = {"ws": refs.contained(self.ws.packages, mod), "doc": refs.contained(self.doc.packages, mod)}
        self.number = {id(obj): f"{root}{i}" for root in self.items for i, (_, obj) in enumerate(self.items[root])}
        self.number.update({id(self.ws): "workspace", id(self.doc): "document"})

    def name(self, value):
        """A result as plain data"""
        if id(value) in self.number:
            return self.number[id(value)]
        if isinstance(value, (list, tuple)):
            return [self.name(v) for v in value]
        return [type(value).__name__, canon.canon(value)]

    def pick(self, root, at):
        items = self.items[root]
        return items[int(at * len(items)) % len(items)] if items else (None, None)

    def state(self):
        """Everything that must stay as it is"""
        return canon.canon([self.ws.packages, self.doc.packages, dict(vars(self.ws.behavior_settings)), self.ws.namespaces,
                            self.ws.documents, self.ws.document_mappings, self.ws.package_map, self.doc.schema_version])


def twisted(path, how):
    """A path as a user may write it"""
    return {"exact": path, "missing": path + "_no", "no slash": path[1:], "trailing": path + "/", "case": path.swapcase(),
            "deeper": path + "/Sub", "double": path.replace("/", "//", 1), "empty": "", "reference": path}[how]


def operate(model, op, out):
    """One operation -> plain data"""
    mod, ws, kind, at = model.mod, model.ws, op["op"], op["at"]
    if kind in ("find", "inner"):
        path, obj = model.pick(op["root"], at)
        if obj is None:
            return "nothing"
        if kind == "find":
            ref = twisted(path, op["twist"])
            if op["twist"] == "reference":
                ref = obj.ref() if hasattr(obj, "ref") else mod.reference.PackageRef(path)
            return model.name((ws if op["root"] == "ws" else model.doc).find(ref))
        outer, inner = obj, path
        for _ in range(op["up"]):
            if not hasattr(outer.parent, "name"):
                break
            outer = outer.parent
        if outer is obj or not hasattr(outer, "find"):
            return "nothing"
        prefix = next(p for p, o in model.items[op["root"]] if o is outer)
        return model.name(outer.find(twisted(inner[len(prefix):], op["twist"])[1:]))
    if kind == "ref":
        _, obj = model.pick("ws" if at < 0.7 else "doc", at / 0.7 if at < 0.7 else (at - 0.7) / 0.3)
        if not hasattr(obj, "ref"):
            return "nothing"
        ref = obj.ref()
        return [str(ref), type(ref).__name__, canon.canon(ref), model.name(obj.root_collection())]
    if kind == "resolve":
        _, obj = model.pick("ws", at)
        out_ = []
        if obj is not None:
            for name, value in refs.public(obj):
                for item in value if isinstance(value, list) else [value]:
                    if isinstance(item, mod.reference.BaseRef):
                        out_.append([name, str(item), model.name(ws.find(item))])
        return out_
    if kind == "port":
        return query_port(model, op)
    if kind == "role":
        ref = ws.get_package_ref_by_role(op["ns"], op["role"])
        return [ref, canon.canon(ws.get_namespace(op["ns"])), model.name(ws.get_package("I" if at < 0.5 else "C")),
                model.name(ws.find_element("C", "App0"))]
    if kind == "scan":
        return canon.canon(ws.packages if at < 0.5 else model.doc.packages)
    if kind == "elem":
        _, obj = model.pick(op["root"], at)
        elem = obj
        while elem is not None and not isinstance(elem, mod.element.ARElement):
            elem = getattr(elem, "parent", None)
        if elem is None:
            return "nothing"
        return mod.writer.Writer().write_str_elem(elem)
    if kind == "doc":
        if at < 0.5:
            return mod.writer.Writer().write_str(model.doc, skip_root_attr=at < 0.1)
        path = os.path.join(out, f"{int(at * 1e6)}.arxml")
        mod.writer.Writer().write_file(model.doc, path)
        with open(path, encoding="utf-8") as handle:
            return handle.read()
    if kind == "set":
        ws.write_documents(op["schema"])
        return jobs.PlainDisk(model.disk.path("out")).snapshot()
    if kind == "header":
        return header(model, op)
    if kind == "settings":
        comp = model.comps[int(at * len(model.comps)) % len(model.comps)]
        found = comp.internal_behavior.get_valid_behavior_settings()
        return [found is ws.behavior_settings, found.get_value(op["name"])]
    if kind == "modes":
        groups = [o for _, o in model.items["ws"] + model.items["doc"] if isinstance(o, mod.element.ModeDeclarationGroup)]
        if not groups:
            return "nothing"
        return model.name(groups[int(at * len(groups)) % len(groups)].find(op["name"]))
    raise Invalid("operation")


def query_port(model, op):
    """Port lookups of a component"""
    mod, query = model.mod, op["query"]
    comp = model.comps[int(op["at"] * len(model.comps)) % len(model.comps)]
    name = op["name"]
    if op["own"] and comp.ports:
        name = comp.ports[int(op["at"] * 97) % len(comp.ports)].name
    if query in ("r", "p"):
        return model.name((comp.find_r_port if query == "r" else comp.find_p_port)(name))
    if query == "runnable":
        found = comp.internal_behavior.find_runnable(name)
        return model.name([found, comp.internal_behavior.get_valid_parent()] + ([found.get_valid_parent()] if found else []))
    ports = [p for p in comp.ports if p.name == name]
    if not ports:
        return "nothing"
    port = ports[0]
    iface = model.ws.find(port.port_interface_ref)
    inner = "data_elements" if query == "data" else "operations"
    names = [e.name for e in getattr(iface, inner, None) or []] + [op["name"]]
    which = names[int(op["at"] * 31) % len(names)]
    if query == "interface":
        return model.name(model.ws.get_port_interface(port.port_interface_ref))
    if query == "data":
        return model.name(comp.get_data_element_in_port(port, which))
    if query == "operation":
        return model.name(comp.get_operation_in_port(port, which))
    found = comp.get_mode_declaration_group_in_port(port)
    group = model.ws.find(found.type_ref) if found is not None else None
    extra = group.find(op["name"] or "A") if isinstance(group, mod.element.ModeDeclarationGroup) else None
    return model.name([found, group, extra])


def header(model, op):
    """A type header from the shared types through an implementation model of its own"""
    mod, types = model.mod, model.plan["types"]
    impl = mod.model.ImplementationModel(model.ws)
    out = []
    for at in op["requests"]:
        i = int(at * len(types)) % len(types)
        _, error = jobs.attempt(impl.create_from_ref, typegraph.path(types[i]))
        out.append(error)
    out.append(mod.generator.TypeGenerator(impl).write_type_header_str())
    return out


def thread_body(model, ops, out):
    """What one thread does, as a function"""
    def body():
        results = []
        for op in ops:
            results.append(jobs.attempt(operate, model, op, out))
        return results
    return body


def check(plan):
    """Raise Invalid for minimised plans outside the population"""
    outops.check({"op": "str", "doc": plan["doc"]})
    if not wsplan.valid(plan["ws"]) or not typegraph.valid(plan["types"]) or not plan["threads"]:
        raise Invalid("model")
    if sum(op["op"] == "set" for ops in plan["threads"] for op in ops) > \
            sum(op["op"] == "set" for op in plan["threads"][0]):
        raise Invalid("two threads write the document set")
    if plan["schedule"].get("event", "line") not in sched.EVENTS:
        raise Invalid("event")


def run(plan, env):
    check(plan)
    schedule, disk = plan["schedule"], env.disk
    try:
        model = Model(plan, env)
    except (Violation, Invalid, Skip):
        raise
    except Exception as exc:  # pylint: disable=broad-exception-caught
        raise Skip(f"model not constructible: {type(exc).__name__}") from exc
    before = model.state()
    if refs.wrong_refs(model.ws.packages, env.mod) or refs.wrong_refs(model.doc.packages, env.mod):
        raise Skip("references wrong from the start (see C13)")
    wants, total = [], 0
    for ops in plan["threads"]:
        disk.wipe()
        disk.mkdir("out")
        disk.mkdir("t")
        want, steps = env.isolated(lambda o=ops: sched.count(thread_body(model, o, disk.path("t")), schedule.get("event", "line")))
        wants.append(want)
        total += steps
    disk.wipe()
    disk.mkdir("out")
    outs = []
    for number in range(len(wants)):
        disk.mkdir(f"t{number}")
        outs.append(disk.path(f"t{number}"))
    scheduler = sched.Scheduler(schedule, total)
    try:
        with jobs.Router().installed():
            results = scheduler.run([thread_body(model, o, p) for o, p in zip(plan["threads"], outs)], schedule.get("first", 0))
    except sched.Blocked as exc:
        raise Skip(f"not schedulable: {exc}") from exc
    env.steps += scheduler.clock
    env.fault("thread switch", scheduler.switches)
    env.shape([[o["op"] for o in ops] for ops in plan["threads"]], [t.split(":", 1)[1] for t in scheduler.trace[:60]])
    env.log(total, scheduler.clock, scheduler.switches, " ".join(scheduler.trace))
    switching = f"{scheduler.switches} switches, last {scheduler.trace[-3:]}"
    for number, (want, (status, got)) in enumerate(zip(wants, results)):
        if status == "deadlock":
            raise Violation("deadlock", f"thread {number} of {len(wants)} never finishes: {switching}")
        if status == "error":
            raise RuntimeError(f"harness: thread {number}") from got
        for k, (alone, together) in enumerate(zip(want, got)):
            op = plan["threads"][number][k]
            # paths of files differ between threads
            if (alone[0], alone[1] is None) != (together[0], together[1] is None) or \
                    (alone[1] or "").replace("/t/", "/") != (together[1] or "").replace(f"/t{number}/", "/"):
                raise Violation("differs-from-serial", f"thread {number} operation {k} ({op['op']} "
                                f"{op.get('query', op.get('twist', ''))}): {c09.difference(alone, together)}; {switching}")
            reached(op, alone, env)
    changed = canon.diff(before, model.state())
    if changed:
        raise Violation("model-changed", f"{changed[0]}: {str(changed[1])[:200]} / {str(changed[2])[:200]}; {switching}")
    wrong = refs.wrong_refs(model.ws.packages, env.mod) or refs.wrong_refs(model.doc.packages, env.mod)
    if wrong:
        raise Violation("wrong-reference", f"{wrong}; {switching}")
    if scheduler.switches > 100:
        env.probe("more than 100 switches")
    if plan["schedule"].get("event") == "instruction" and scheduler.switches:
        env.probe("switches inside a line")
    if all(ops == plan["threads"][0] for ops in plan["threads"]):
        env.probe("same operations in all threads")


def reached(op, result, env):
    """Probes of one operation"""
    if result[1] is not None:
        env.probe("raised")
    elif op["op"] in ("find", "inner"):
        env.probe("found" if isinstance(result[0], str) and result[0] != "nothing" else "not found")
    elif op["op"] == "doc":
        env.probe("document written")
    elif op["op"] == "set":
        env.probe("document set written")
    elif op["op"] == "header":
        env.probe("header generated")
    elif op["op"] == "port" and result[0] != "nothing":
        env.probe("port resolved")
