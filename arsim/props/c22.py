"""C22: every call makes progress: twice the amount takes at most four times the steps"""
import importlib
import random

from .. import gen, interrupt, typegraph, work
from ..core import Invalid, Skip, Violation, describe

PROPERTY = "C22"
QUICK = 5200
THOROUGH = 100000
RULE = ("a run takes one kind of work (reading, writing, looking up, growing, building behaviours and compositions, applying "
        "templates, requesting types, loading configurations, the same call again and again) with random content and does it in "
        "sizes that double, with interrupted system calls, short and failing writes in between; the executed lines and jumps of the "
        "library are counted and compared with the limit that follows from the size before; two runs in five are histories of other properties, which only have to end; distinct = different (kind of work, "
        "parameters, steps of all sizes)")
COMPONENTS = {"real": ["all modules of autosar"], "simulated": ["results of open/write/close (simio)", "clock: executed lines and jumps (sys.monitoring)"],
              "oracle": ["steps of the same work in half the size"]}
ASSUMPTIONS = ["an executed line of the library takes a bounded time; time inside lxml and cfile is not counted"]
STEP_UNIT = "executed lines and jumps"
FIRST, SLACK = 5, 4000
ONCE, AGAIN = 4.4, 2.4      # growth allowed when the size doubles: of other work, of reading, writing and repeated calls


def small_element(rng):
    """One random element description without a tail of parts"""
    g = gen.Gen(rng, size=rng.choice([0, 1, 2]), density=rng.choice([0.1, 0.35]))
    return g.obj(rng.choice(gen.PACKAGEABLE))


OTHERS = ["c01", "c03", "c05", "c08", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20"]


def generate(rng, profile):
    if rng.random() < 0.4:
        other = rng.choice(OTHERS)
        plan = {"family": "Other", "of": other,
                "plan": importlib.import_module("arsim.props." + other).generate(rng, {**profile, "job": True})}
        return plan
    kind = rng.choice(sorted(FAMILIES))
    plan = {"family": kind, "faults": [], "seed": rng.randrange(1 << 30)}
    plan.update(FAMILIES[kind].plan(rng))
    if rng.random() < 0.6:
        plan["faults"] = {"Read": work.benign_input, "Again": work.output_faults}.get(kind, work.benign_output)(rng)
    return plan


class Family:
    """A kind of work of variable size"""
    limit = ONCE                # a single call, or one call for each of n parts that looks through all of them
    largest = 80

    def __init__(self, plan, env):
        self.plan, self.env, self.mod = plan, env, env.mod
        self.e = env.mod.element
        self.counts = self.clock = None

    def check(self):
        """After the measured work"""

    @staticmethod
    def plan(_rng):
        """Parameters"""
        return {}

    def prepare(self, n):
        """Everything that is not measured; returns the function to be measured"""
        raise NotImplementedError

    # --- help

    def element(self, i, desc=None):
        desc = dict(desc or self.plan["element"])
        desc = {**desc, "a": {**desc.get("a", {}), "name": f"E{i}"}}
        if not gen.valid(desc):
            raise Invalid("element")
        return self.env.build(gen.build, desc, self.mod)

    def document(self, n, per=None):
        doc = self.mod.document.Document()
        around = doc.create_package("Top") if self.plan.get("inside") else doc
        package = None
        for i in range(n):
            if package is None or per is not None and i % per == 0:
                package = around.create_package(f"P{i}")
            package.append(self.element(i))
        return doc

    def disturbed(self, func, *args):
        """A call under the planned disk faults; ones that make it fail are only planned for repeated calls"""
        disk = self.env.disk
        if self.counts is None:
            self.counts = {"write": 1, "read": 1}
            if isinstance(self, Again):
                disk.begin([])
                func(*args)
                self.counts = disk.counts()
                disk.end()
        disk.begin(self.plan["faults"], self.counts)
        try:
            func(*args)
        except OSError:
            if not isinstance(self, Again):
                raise
        finally:
            self.env.fired(disk.end())

    def text(self, doc):
        return self.mod.writer.Writer().write_str(doc)


class OneElement(Family):
    @staticmethod
    def plan(rng):
        if rng.random() < 0.1:
            return {"element": {"$": "Unit", "a": {"name": "U"}}, "per": rng.choice([None, 1]), "many": True,
                    "inside": rng.random() < 0.5}
        return {"element": small_element(rng), "per": rng.choice([None, None, 1, 3]), "inside": rng.random() < 0.5}

    def __init__(self, plan, env):
        super().__init__(plan, env)
        if plan.get("many"):
            self.largest = 640


class WriteText(OneElement):
    limit = AGAIN

    def prepare(self, n):
        doc = self.document(n, self.plan["per"])
        return lambda: self.text(doc)


class WriteFile(OneElement):
    limit = AGAIN

    def prepare(self, n):
        doc = self.document(n, self.plan["per"])
        path = self.env.disk.path("one.arxml")

        def action():
            self.disturbed(self.mod.writer.Writer().write_file, doc, path)
        return action


class Read(OneElement):
    limit = AGAIN

    def prepare(self, n):
        text = self.text(self.document(n, self.plan["per"]))
        path = self.env.disk.path("one.arxml")
        with open(path, "w", encoding="utf-8") as handle:
            handle.write(text)
        return lambda: self.disturbed(self.mod.reader.Reader().read_file, path)


class ReadDamaged(OneElement):
    """Every second element is damaged"""
    limit = AGAIN

    @staticmethod
    def plan(rng):
        return {**OneElement.plan(rng), "tag": rng.choice(["SHORT-NAME", "CATEGORY", "DESC"]),
                "how": rng.choice(["drop", "unknown", "empty"])}

    def prepare(self, n):
        tag, how = self.plan["tag"], self.plan["how"]
        lines, out, turn = self.text(self.document(n, self.plan["per"])).split("\n"), [], 0
        for line in lines:
            if f"<{tag}>" in line and f"</{tag}>" in line:
                turn += 1
                if turn % 2:
                    if how == "unknown":
                        out.append(line.replace(tag, "X-UNKNOWN"))
                    elif how == "empty":
                        out.append(line[:line.index("<")] + f"<{tag}/>")
                    continue
            out.append(line)
        text = "\n".join(out)
        return lambda: attempt(self.mod.reader.Reader().read_str, text)


class Parts(Family):
    """One element of many parts is written or read"""
    limit, largest = AGAIN, 320

    @staticmethod
    def plan(rng):
        return {"of": rng.choice(["data", "operations", "arguments", "members", "ports", "runnables", "accesses", "events", "table", "modes",
                                  "prototypes", "connectors", "com-specs"]), "do": rng.choice(["write", "read"])}

    def prepare(self, n):
        if self.plan["of"] == "accesses":
            self.limit = ONCE       # each name is compared with those of the accesses before it
        doc = self.mod.document.Document()
        package = doc.create_package("P")
        self.fill(package, n)
        if self.plan["do"] == "write":
            return lambda: self.text(doc)
        text = self.text(doc)
        return lambda: self.mod.reader.Reader().read_str(text)

    def fill(self, package, n):
        e, of = self.e, self.plan["of"]
        if of in ("data", "operations", "arguments", "members", "table", "modes"):
            if of == "data":
                elem = e.SenderReceiverInterface("I", data_elements=[e.VariableDataPrototype(f"d{i}") for i in range(n)])
            elif of == "operations":
                elem = e.ClientServerInterface("I", operations=[e.ClientServerOperation(f"o{i}") for i in range(n)])
            elif of == "arguments":
                operation = e.ClientServerOperation("o", [e.ArgumentDataPrototype(f"a{i}") for i in range(n)])
                elem = e.ClientServerInterface("I", operations=[operation])
            elif of == "members":
                elem = e.ImplementationDataType("T", sub_elements=[e.ImplementationDataTypeElement(f"m{i}") for i in range(n)])
            elif of == "table":
                elem = e.CompuMethod("C", int_to_phys=e.Computation.make_value_table([f"V{i}" for i in range(n)]))
            else:
                elem = e.ModeDeclarationGroup("M", [e.ModeDeclaration(f"M{i}") for i in range(n)])
            package.append(elem)
            return
        interface = e.SenderReceiverInterface("I")
        for i in range(n if of == "com-specs" else 1):
            interface.create_data_element(f"d{i}")
        package.append(interface)
        swc = e.ApplicationSoftwareComponentType("S")
        package.append(swc)
        for i in range(n if of in ("ports", "connectors") else 2):
            make = swc.create_p_port if i % 2 else swc.create_r_port
            make(f"p{i}", interface, [(f"d{k}", {"init_value": 0}) for k in range(n)] if of == "com-specs" and i % 2 else None)
        if of in ("prototypes", "connectors"):
            top = e.CompositionSwComponentType("C")
            package.append(top)
            if of == "prototypes":
                for i in range(n):
                    top.append_component(e.SwComponentPrototype(f"S{i}", type_ref=swc.ref()))
            else:
                for i in range(n):
                    top.append_connector(e.AssemblySwConnector(f"c{i}"))
            return
        if of not in ("runnables", "accesses", "events"):
            return
        behavior = swc.create_internal_behavior()
        for i in range(n if of == "runnables" else 1):
            behavior.append_runnable(e.RunnableEntity(f"R{i}"))
        for i in range(n):
            if of == "accesses":
                behavior.runnables[0].append_data_send_point(e.VariableAccess(f"a{i}"))
            elif of == "events":
                behavior.append_event(e.InitEvent(f"E{i}"))


class Lookup(OneElement):
    """Every element is looked up, its reference computed"""
    def prepare(self, n):
        doc = self.document(n, self.plan["per"])
        paths = [str(elem.ref()) for top in doc.packages for package in top.packages or [top]
                 for elem in package.elements]

        def action():
            for path in paths:
                doc.find(path).ref()
                doc.find(path + "/none")
        return action


class Deep(Family):
    """Packages inside packages"""
    @staticmethod
    def plan(rng):
        return {"element": small_element(rng), "do": rng.choice(["make", "find", "write", "read"]), "wide": rng.choice([1, 2]),
                "of": rng.choice(["packages", "packages", "parts"])}

    def prepare(self, n):
        if self.plan["do"] in ("write", "read"):
            self.limit = AGAIN
        doc = self.mod.document.Document()
        path = "/".join(f"P{i}" for i in range(n))
        if self.plan["do"] == "make":
            return lambda: doc.make_packages(*[path if k == 0 else f"{path}/Q{k}" for k in range(self.plan["wide"])])
        if self.plan["of"] == "parts":
            package, elem = doc.make_packages("P"), None
            for i in reversed(range(n)):
                elem = self.e.ImplementationDataTypeElement(f"P{i}", sub_elements=[elem] if elem is not None else None)
            package.append(self.e.ImplementationDataType("T", sub_elements=[elem]))
            path = "P/T/" + path.rsplit("/", 1)[0]
        else:
            package = doc.make_packages(path)
            elem = self.element(0)
            package.append(elem)
        if self.plan["do"] == "find":
            return lambda: (doc.find(path), doc.find(path + "/E0"), doc.find(path + "/none"), doc.find(path).parent, package.ref(),
                            elem.ref() if hasattr(elem, "ref") else None)
        if self.plan["do"] == "write":
            return lambda: self.text(doc)
        text = self.text(doc)
        return lambda: self.mod.reader.Reader().read_str(text)


class Values(Family):
    """Values inside values, or many of them"""
    @staticmethod
    def plan(rng):
        return {"shape": [rng.choice(["array", "record"]) for _ in range(3)], "deep": rng.random() < 0.6, "leaves": rng.choice([1, 2]),
                "do": rng.choice(["build", "write", "read"])}

    def prepare(self, n):
        if self.plan["do"] != "build":
            self.limit = AGAIN

        def build():
            leaf = self.e.NumericalValueSpecification
            if not self.plan["deep"]:
                value = self.group(self.plan["shape"][0], [leaf(value=k) for k in range(n)])
            else:
                value = leaf(value=1)
                for i in range(n):
                    value = self.group(self.plan["shape"][i % 3], [value] + [leaf(value=k) for k in range(self.plan["leaves"] - 1)])
            return self.e.ConstantSpecification("C", value)
        if self.plan["do"] == "build":
            return build
        doc = self.mod.document.Document()
        doc.create_package("P").append(build())
        if self.plan["do"] == "write":
            return lambda: self.text(doc)
        text = self.text(doc)
        return lambda: self.mod.reader.Reader().read_str(text)

    def group(self, how, items):
        if how == "array":
            return self.e.ArrayValueSpecification(elements=items)
        return self.e.RecordValueSpecification(fields=items)


class Plain(Family):
    """Elements made from plain data"""
    @staticmethod
    def plan(rng):
        return {"what": rng.choice(["table", "constant", "nested", "modes", "data", "operation", "parameters", "errors"])}

    def prepare(self, n):
        e, what = self.e, self.plan["what"]
        if what == "table":
            return lambda: e.CompuMethod("C", int_to_phys=e.Computation.make_value_table([f"V{i}" for i in range(n)]))
        if what == "constant":
            return lambda: e.ConstantSpecification.make_constant("C", ["A", *range(n)])
        if what == "nested":
            data = 1
            for _ in range(n):
                data = ["A", data, 2]
            return lambda: e.ConstantSpecification.make_constant("C", data)
        if what == "modes":
            return lambda: e.ModeDeclarationGroup("M", [f"M{i}" for i in range(n)], "M0")
        if what == "data":
            elem = e.SenderReceiverInterface("I")
            return lambda: [elem.create_data_element(f"d{i}") for i in range(n)]
        if what == "operation":
            elem = e.ClientServerInterface("I")
            return lambda: [elem.create_operation(f"o{i}").create_in_argument("a") for i in range(n)]
        if what == "parameters":
            elem = e.ParameterInterface("I")
            return lambda: [elem.create_parameter(f"p{i}") for i in range(n)]
        elem = e.ClientServerInterface("I")
        return lambda: [elem.create_possible_error(f"e{i}", i) for i in range(n)]


class Component(Family):
    """Ports, runnables, accesses and events of one component"""
    @staticmethod
    def plan(rng):
        ops = ["ports", "runnables", "accesses", "events", "options"]
        return {"ops": rng.sample(ops, rng.choice([1, 2, 5])), "scale": rng.choice(["ports", "runnables", "elements"]),
                "com_spec": rng.random() < 0.5}

    def prepare(self, n):
        e, plan = self.e, self.plan
        size = {"ports": 3, "runnables": 2, "elements": 2}
        size[plan["scale"]] = n
        ws = self.mod.workspace.Workspace()
        package = ws.make_packages("P")
        interface = e.SenderReceiverInterface("I")
        for i in range(size["elements"]):
            interface.create_data_element(f"d{i}")
        package.append(interface)
        swc = e.ApplicationSoftwareComponentType("S")
        package.append(swc)
        for name in ("data_receive_point_prefix", "data_send_point_prefix", "init_event_prefix", "timing_event_prefix",
                     "data_receive_event_prefix"):
            ws.behavior_settings.set_value(name, "X" + "".join(part[0] for part in name.split("_")))

        def ports():
            for i in range(size["ports"]):
                make = swc.create_p_port if i % 2 else swc.create_r_port
                specs = [(f"d{k}", {"init_value": 0} if i % 2 else {"init_value": 0, "alive_timeout": 0})
                         for k in range(size["elements"])] if plan["com_spec"] else None
                make(f"p{i}", interface, specs)

        def runnables():
            for i in range(size["runnables"]):
                behavior[0].create_runnable(f"R{i}")

        def accesses():
            runnable = behavior[0].runnables[-1]
            for i in range(size["ports"]):
                for k in range(size["elements"] if plan["scale"] == "elements" else 1):
                    runnable.create_port_access(f"p{i}/d{k}")

        def events():
            for i in range(size["runnables"]):
                behavior[0].create_init_event(f"R{i}")
                behavior[0].create_timing_event(f"R{i}", 0.1)
                behavior[0].create_data_received_event(f"R{i}", f"p{2 * (i % 2) % size['ports']}/d0")

        def options():
            behavior[0].create_port_api_options("*", enable_take_address=True)
        todo = {"ports": ports, "runnables": runnables, "accesses": accesses, "events": events, "options": options}
        behavior = []
        measured = [k for k in todo if k in plan["ops"]]

        def setup():
            behavior.append(swc.create_internal_behavior())
        setup()
        before = todo if not measured else {k: f for k, f in todo.items() if list(todo).index(k) < list(todo).index(measured[0])}
        for func in before.values():
            func()
        done = set(before)

        def action():
            for key, func in todo.items():
                if key not in done:
                    func()
        return action


class Composition(Family):
    """Prototypes and connectors"""
    @staticmethod
    def plan(rng):
        return {"scale": rng.choice(["components", "ports"]), "all": rng.random() < 0.5}

    def prepare(self, n):
        e = self.e
        ws = self.mod.workspace.Workspace()
        package = ws.make_packages("P")
        interface = e.SenderReceiverInterface("I")
        interface.create_data_element("d")
        package.append(interface)
        components, ports = (n, 1) if self.plan["scale"] == "components" else (2, n)
        types = []
        for i in range(components):
            types.append(e.ApplicationSoftwareComponentType(f"T{i}"))
            package.append(types[-1])
            for k in range(ports):
                types[-1].create_p_port(f"p{k}", interface)
                types[-1].create_r_port(f"r{k}", interface)
        top = e.CompositionSwComponentType("C")
        package.append(top)
        if not self.plan["all"]:
            for t in types:
                top.create_component_prototype(t)

        def action():
            if self.plan["all"]:
                for t in types:
                    top.create_component_prototype(t)
            for i in range(components):
                for k in range(ports):
                    top.create_connector(f"T{i}/p{k}", f"T{(i + 1) % components}/r{k}", ws)
        return action


class Templates(Family):
    """Layers of templates"""
    @staticmethod
    def plan(rng):
        return {"wires": [[1] + [rng.randrange(2, 4) for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(5)],
                "append": [rng.random() < 0.8 for _ in range(3)], "times": rng.choice([1, 1, 3])}

    def prepare(self, n):
        template, plan = self.mod.template, self.plan
        ws = self.mod.workspace.Workspace()
        ws.create_namespace("N", {"Unit": "Units", "BaseType": "Base/Types"}, base_ref="/")
        role = self.mod.enumeration.PackageRole

        class Element(template.ElementTemplate):
            """Creates one element"""

            def create(self, package, workspace, dependencies, **kwargs):
                """Callback"""
                elem = unit(self.element_name)
                if not self.append_to_package:
                    package.append(elem)
                return elem
        unit = self.e.Unit
        made = []
        for i in range(n):
            near = sorted({i - back for back in plan["wires"][i % 5] if 0 <= i - back})
            made.append(Element(f"T{i}", "N", role.UNIT if i % 2 else role.BASE_TYPE, [made[k] for k in near],
                                plan["append"][i % 3]))

        def action():
            for _ in range(plan["times"]):
                ws.apply(made[-1])
        return action


class Types(Family):
    """Types that use each other, and their header"""
    @staticmethod
    def plan(rng):
        everything = rng.random() < 0.3     # a type is always made of its predecessor: all are reached, whatever their number
        return {"wires": [[1] + [rng.randrange(2, 5) for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(5)],
                "kinds": [rng.choice(["record", "record", "array", "ref"] + everything * ["pointer"]) for _ in range(7)],
                "all": everything}

    def prepare(self, n):
        if self.plan["all"]:
            self.limit, self.largest = 2 * ONCE, 40     # n requests
        types = [{"kind": "base", "pkg": 0, "name": "B0", "emitter": None, "native": "int"},
                 {"kind": "scalar", "pkg": 0, "name": "S0", "emitter": None, "dep": 0}]
        for i in range(2, n + 2):
            near = [max(1, i - back) for back in self.plan["wires"][i % 5]]
            kind = self.plan["kinds"][i % 7]
            t = {"kind": kind, "pkg": i % 2, "name": f"T{i}", "emitter": None}
            if kind == "record":
                t["members"] = [{"name": f"m{k}", "how": "ref", "dep": d} for k, d in enumerate(near)]
            else:
                t.update({"how": "ref", "dep": near[0]})
            if kind == "array":
                t["size"] = 2
            types.append(t)
        if not typegraph.valid(types):
            raise Invalid("types")
        ws = self.mod.workspace.Workspace()
        typegraph.build(types, ws, self.mod)

        def action():
            model = self.mod.model.ImplementationModel(ws)
            for i in range(2 if self.plan["all"] else n + 1, n + 2):
                model.create_from_ref(typegraph.path(types[i]))
            self.mod.generator.TypeGenerator(model).write_type_header_str()
        return action


class Documents(Family):
    """Configured documents and split documents"""
    largest = 40

    @staticmethod
    def plan(rng):
        return {"element": small_element(rng), "scale": rng.choice(["documents", "elements", "mappings", "suffixes"])}

    def prepare(self, n):
        plan = self.plan
        size = {"documents": 1, "elements": 3, "mappings": 1, "suffixes": 1}
        size[plan["scale"]] = n
        ws = self.mod.workspace.Workspace()
        ws.set_document_root(self.env.disk.path())
        for i in range(size["documents"]):
            package = ws.make_packages(f"D{i}")
            for k in range(size["elements"]):
                package.append(self.element(k))
            ws.create_document(f"d{i}.arxml", f"/D{i}")
        for i in range(size["mappings"]):
            package = ws.make_packages(f"M{i}")
            for k in range(size["elements"]):
                package.append(self.e.Unit(f"U{i}_{k}"))
                for s in range(size["suffixes"]):
                    package.append(self.e.ConstantSpecification(f"U{i}_{k}_S{s}"))
            ws.create_document_mapping(f"/M{i}", self.e.Unit, [f"_S{s}" for s in range(size["suffixes"])])

        return lambda: self.disturbed(ws.write_documents)


class Configuration(Family):
    """A configuration with many entries"""
    @staticmethod
    def plan(rng):
        return {"what": rng.choice(["namespace", "document", "mapping", "roles"])}

    def prepare(self, n):
        what = self.plan["what"]
        if what == "namespace":
            text = "".join(f'[namespace.N{i}]\nbase_ref = "/"\nBaseType = "B{i}"\n' for i in range(n))
        elif what == "document":
            text = "".join(f'[document.D{i}]\npackages = ["A{i}", "B/{i}"]\n' for i in range(n))
        elif what == "mapping":
            text = "".join(f'[document_mapping.M{i}]\npackage_ref = "/M{i}"\nelement_types = "Unit"\nsuffix_filters = ["_a"]\n'
                           for i in range(n))
        else:
            text = '[namespace.N]\nbase_ref = "/"\n' + "".join(f'role{i} = "R{i}"\n' for i in range(n))
        path = self.env.disk.path("config.toml")
        with open(path, "w", encoding="utf-8") as handle:
            handle.write(text)
        ws = self.mod.workspace.Workspace()
        return lambda: attempt(ws.load_config, path)


class Again(OneElement):
    """The same call on the same objects again and again: none is slower than the ones before"""
    limit, largest = AGAIN, 160

    @staticmethod
    def plan(rng):
        return {"element": small_element(rng), "per": None,
                "do": rng.choice(["read", "read-file", "read-element", "read-broken", "write", "write-file", "element", "find", "apply", "header", "documents",
                                  "config"])}

    def prepare(self, n):
        call, self.each = self.one(), []

        def action():
            for _ in range(n):
                before = self.clock.count
                call()
                self.each.append(self.clock.count - before)
        return action

    def check(self):
        """The last calls took what the first ones took"""
        first, last = max(self.each[:8]), sorted(self.each[-8:])[3]
        if len(self.each) >= 40 and last > first * 1.02 + 60:
            raise Violation("slower", f"call {len(self.each)} of {self.plan['do']} took {last} steps, the first ones {first}")

    def one(self):
        do, disk = self.plan["do"], self.env.disk
        doc = self.document(3)
        text = self.text(doc)
        reader, writer = self.mod.reader.Reader(), self.mod.writer.Writer()
        if do == "read":
            return lambda: reader.read_str(text)
        if do == "read-file":
            path = disk.path("one.arxml")
            with open(path, "w", encoding="utf-8") as handle:
                handle.write(text)
            return lambda: reader.read_file(path)
        if do == "read-element":
            fragment = writer.write_str_elem(doc.packages[0].elements[0])
            return lambda: reader.read_str_elem(fragment)
        if do == "read-broken":
            broken = text.replace("SHORT-NAME>E1<", "X-NAME>E1<").replace("</SHORT-NAME>", "</X-NAME>", 0)
            return lambda: (attempt(reader.read_str, broken), attempt(reader.read_str, text[:-20]))
        if do == "write":
            return lambda: writer.write_str(doc)
        if do == "write-file":
            path = disk.path("one.arxml")
            return lambda: self.disturbed(writer.write_file, doc, path)
        if do == "element":
            elem = doc.packages[0].elements[0]
            return lambda: writer.write_str_elem(elem)
        if do == "find":
            return lambda: (doc.find("P0/E1").ref(), doc.find("P0/none"), doc.find("none"))
        ws = self.mod.workspace.Workspace()
        if do == "apply":
            family = Templates({**Templates.plan(fixed(self.plan["seed"])), "times": 1}, self.env)
            return family.prepare(6)
        if do == "header":
            family = Types({**Types.plan(fixed(self.plan["seed"])), "all": True}, self.env)
            return family.prepare(6)
        if do == "documents":
            ws.set_document_root(disk.path())
            ws.make_packages("D").append(self.element(0))
            ws.create_document("d.arxml", "/D")
            return lambda: self.disturbed(ws.write_documents)
        path = disk.path("config.toml")
        with open(path, "w", encoding="utf-8") as handle:
            handle.write('[namespace.N]\nbase_ref = "/"\nBaseType = "B"\n')
        return lambda: ws.load_config(path)


def fixed(seed):
    """A generator of its own for the inner parts of a plan"""
    return random.Random(seed)


def attempt(func, *args):
    """A call that may be rejected"""
    try:
        return func(*args)
    except Exception:  # pylint: disable=broad-exception-caught
        return None


FAMILIES = {cls.__name__: cls for cls in (WriteText, WriteFile, Read, ReadDamaged, Parts, Lookup, Deep, Values, Plain, Component, Composition,
                                          Templates, Types, Documents, Configuration, Again)}
PROBES = sorted(FAMILIES) + ["Other", "disturbed"]


def run_other(plan, env):
    """A history as another property explores it: here it only has to end (core measures and judges a run that doesn't)"""
    if plan["of"] not in OTHERS:
        raise Invalid("other")
    env.probe("Other")
    try:
        importlib.import_module("arsim.props." + plan["of"]).run(plan["plan"], env)
    except Skip:
        pass
    except Violation as exc:
        if exc.kind == "no-progress":
            raise


def run(plan, env):
    if plan["family"] == "Other":
        return run_other(plan, env)
    if plan["family"] != "Again" and any(work.harmful(f) for f in plan["faults"]):
        raise Invalid("failing calls of different sizes can't be compared")
    if plan["family"] not in FAMILIES:
        raise Invalid("family")
    family = FAMILIES[plan["family"]](plan, env)
    env.probe(plan["family"])
    n, before, counts = FIRST, None, []
    while n <= family.largest:
        env.disk.wipe()
        with env.quiet():
            action = family.prepare(n)
            limit = None if before is None else int(before * family.limit) + SLACK
            where = f"{plan['family']} of size {n} (half of it took {before})"
            with interrupt.bounded(limit, where) as clock:
                family.clock = clock
                try:
                    action()
                except Violation:
                    raise
                except Exception as exc:
                    if clock.fired is None:
                        raise Violation("work-raised", f"{where}: {describe(exc)}") from exc
                    raise
        family.check()
        before = clock.count
        counts.append(before)
        env.steps += before
        n *= 2
    if env.faults:
        env.probe("disturbed")
    env.shape(plan["family"], counts)
    env.log(counts)
