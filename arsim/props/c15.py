"""C15: behaviour builder calls give unique names and a rejected call changes nothing"""
import copy
import re

from .. import canon, refs
from ..core import Invalid, Violation, describe

PROPERTY = "C15"
NEEDS_DISK = False
QUICK = 11700
THOROUGH = 400000
RULE = ("a run makes 5-40 builder calls (runnables, areas, all event kinds, port accesses, port API options; default, explicit "
        "and clashing names; unknown or wrong ports, elements, modes, prefixes, settings; argument iterators that fail half-way) "
        "on components with random ports and interfaces, and compares the whole component after every call with a reference of "
        "what the call asks for; distinct = different sequence of (call kind, outcome)")
COMPONENTS = {"real": ["autosar.xml.element", "autosar.xml.workspace"],
              "simulated": ["argument iterators that fail"], "oracle": ["reference of the entries each call must add"]}
ASSUMPTIONS = ["entries of one list are renamed only where a new entry has the same name (documented)",
               "access kinds that do not fit a data port may be rejected or read as the matching kind"]
STEP_UNIT = "builder calls"
PROBES = ["rejected: unknown port", "rejected: wrong port", "rejected: element", "rejected: settings", "rejected: runnable",
          "rejected: prefix", "rejected: second of several", "rejected: arguments", "rejected: mode", "rejected: area",
          "rejected: interface", "name clash", "iterator failed", "options replaced", "serialised", "rejected: duplicate"]

SETTINGS = ["background_event_prefix", "data_receive_error_event_prefix", "data_receive_event_prefix", "init_event_prefix",
            "operation_invoked_event_prefix", "swc_mode_manager_error_event_prefix", "swc_mode_switch_event_prefix",
            "timing_event_prefix", "data_read_access_prefix", "data_receive_point_prefix", "data_send_point_prefix",
            "data_write_access_prefix", "mode_access_point_prefix", "mode_switch_point_prefix", "parameter_access_prefix",
            "server_call_point_prefix"]
NAMES = ["A", "B", "Run", "Run_0", "Run_1", "E", "E_0", "E.x", "e", "X_1", "Port", "P_1_2"]
KINDS = ["SR", "SR", "NV", "CS", "CS", "MS", "PA"]
DIRS = ["R", "R", "P", "P", "PR"]
DATA_PREFIX = {"R": ["ARGUMENT", "ARG", "VALUE", "VAL", "READ"], "P": ["SEND", "WRITE"], "PR": ["READ", "SEND", "ARG"]}
DATA_LISTS = ["data_read_access", "data_receive_point_by_argument", "data_receive_point_by_value", "data_send_point",
              "data_write_access"]
ACCESS_LISTS = DATA_LISTS + ["mode_access_point", "mode_switch_point", "parameter_access", "server_call_point"]


def generate(rng, profile):
    interfaces = []
    for i in range(rng.choice([1, 2, 3, 5])):
        kind = rng.choice(KINDS)
        interfaces.append({"name": f"I{i}", "kind": kind,
                           "elems": rng.sample(NAMES, rng.choice([0, 1, 1, 1, 2, 3])) if kind != "MS" else rng.sample(NAMES, 1),
                           "modes": rng.sample(NAMES, rng.choice([1, 2, 3]))})
    components = []
    for i in range(rng.choice([1, 1, 2])):
        ports = []
        for name in rng.sample(NAMES + ["Q", "q", "R2"], rng.choice([0, 1, 2, 3, 4, 4, 6, 8, 10])):
            ports.append({"name": name, "dir": rng.choice(DIRS),
                          "if": rng.randrange(len(interfaces)) if rng.random() > 0.03 else -1})
        components.append({"name": f"App{i}", "behavior": rng.choice([None, None, "Beh"]), "ports": ports})
    settings = {}
    if rng.random() < 0.9:
        few = rng.random() < 0.3
        for name in SETTINGS:
            if rng.random() < 0.9:
                settings[name] = rng.choice(["X", "X_1"]) if few else name[:4] + name[-9:-7]
    return {"interfaces": interfaces, "components": components, "settings": settings, "write": rng.random() < 0.15,
            "calls": [{"c": c, "do": "runnable", "name": "Run", "kwargs": {}, "symbol": "", "start": None, "conc": None,
                       "areas": None} for c in range(len(components)) if rng.random() < 0.9] +
                     [gen_call(rng, interfaces, components) for _ in range(rng.choice([5, 10, 20, 40]))]}


def pick_port(rng, comp, bad):
    if not comp["ports"] or rng.random() < bad:
        return rng.choice(["Nope", "Q", "A", ""]), None
    port = rng.choice(comp["ports"])
    return port["name"], port


def pick_elem(rng, port, interfaces, modes=False):
    """'/<element>' or nothing"""
    if port is None or port["if"] < 0:
        return rng.choice(["", "/A"])
    iface = interfaces[port["if"]]
    pool = iface["modes"] if modes else iface["elems"]
    if not pool or rng.random() < 0.08:
        return rng.choice(["", "/Nope", "/A"])
    if not modes and rng.random() < (0.6 if len(pool) == 1 else 0.08):
        return ""
    return "/" + rng.choice(pool)


def gen_call(rng, interfaces, components):
    ci = rng.randrange(len(components))
    comp = components[ci]
    call = {"c": ci}
    runnable = rng.choice(["Run"] * 8 + ["A", "Run_0", "E", "Zzz"])
    what = rng.choice(["runnable", "runnable", "area", "access", "access", "access", "access", "options", "event", "event", "event",
                       "event"])
    call["do"] = what
    kw = rng.choice([{}, {}, {}, {}, {}, {"category": "C"}, {"bogus": 1}])
    name = rng.choice([None, None, None, "E", "X_1", "E_0", "Run"])
    if what == "runnable":
        call.update(name=rng.choice(["Run", "A", "Run_0", "E", "Run_1", "B"]), kwargs=kw, symbol=rng.choice(["", "", None, "sym"]),
                    start=rng.choice([None, 0, 0.5]), conc=rng.choice([None, True, False]),
                    areas=rng.choice([None, None, None, "A", ["A"], ["A", "B"], ["B", "Nope"], [], ["A", "A"]]))
    elif what == "area":
        call.update(name=rng.choice(["A", "B", "C"]))
    elif what == "options":
        names = [p["name"] for p in comp["ports"]]
        chosen = rng.sample(names, rng.randrange(len(names) + 1)) + (["Nope"] if rng.random() < 0.15 else [])
        rng.shuffle(chosen)
        how = rng.choice(["*", "*", "list", "list", "list", "one", "iter", "int", "fail"])
        call.update(how=how, ports=chosen, take=rng.choice([None, True, False]), indirect=rng.choice([None, True, False]),
                    bad=rng.random() < 0.06)
    elif what == "access":
        items = []
        for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
            pname, port = pick_port(rng, comp, 0.05)
            elem = pick_elem(rng, port, interfaces)
            prefix = None
            if port is not None and port["if"] >= 0 and rng.random() < 0.6:
                kind = interfaces[port["if"]]["kind"]
                prefix = rng.choice({"SR": DATA_PREFIX[port["dir"]], "NV": DATA_PREFIX[port["dir"]], "CS": ["SYNC", "ASYNC"],
                                     "MS": ["ACCESS", "SWITCH"], "PA": [None]}[kind])
            if rng.random() < 0.04:
                prefix = rng.choice(["WRONG", "", "SEND", "READ", "SYNC", "SWITCH"])
            if prefix is not None and rng.random() < 0.2:
                prefix = prefix.lower()
            args = None
            if rng.random() < 0.3:
                args = rng.choice([{}, {"name": "E"}, {"name": "X_1"}, {"category": "C"}, {"name": "E_0", "category": "D"},
                                   {"bogus": 1}, {"name": "E", "bogus": 2}])
            items.append({"prefix": prefix, "port": pname, "elem": elem, "space": rng.random() < 0.1, "args": args,
                          "tuple": rng.random() < 0.1})
        call.update(runnable=runnable, items=items, how=rng.choice(["one", "list", "list", "tuple-list", "iter", "fail"]))
    else:
        kind = rng.choice(["background", "init", "timing", "receive_error", "received", "received", "invoked", "invoked",
                           "manager_error", "mode_switch", "mode_switch", "unsupported"])
        call.update(kind=kind, runnable=runnable, name=name, kwargs=kw)
        if kind in ("receive_error", "received", "invoked", "manager_error", "unsupported"):
            want = {"receive_error": ("SR", "RPR"), "received": ("SR", "RPR"), "invoked": ("CS", "PPR"),
                    "manager_error": ("MS", "PPR"), "unsupported": ("SR", "P")}[kind]
            port = pick_fitting(rng, comp, interfaces, want)
            call["target"] = (port["name"] if port else rng.choice(["Nope", "A", "", "/A"])) + (
                "" if kind == "manager_error" else pick_elem(rng, port, interfaces))
        elif kind == "mode_switch":
            targets = []
            for _ in range(2):
                port = pick_fitting(rng, comp, interfaces, ("MS", "RPR"))
                targets.append((port["name"] if port else rng.choice(["Nope", ""])) + pick_elem(rng, port, interfaces, True))
            call.update(target=targets, how=rng.choice(["str", "str", "str", "tuple", "list", "three", "int"]),
                        activation=rng.choice([None, 0, 1, 2]))
        elif kind == "timing":
            call.update(period=rng.choice([None, 0.01, 5, 1e-7]), offset=rng.choice([None, 0, 0.25]))
    return call


def pick_fitting(rng, comp, interfaces, want):
    """A port, usually one of the wanted kind and direction"""
    good = [p for p in comp["ports"] if p["if"] >= 0 and interfaces[p["if"]]["kind"] == want[0] and p["dir"] in want[1]]
    if good and rng.random() < 0.85:
        return rng.choice(good)
    if comp["ports"] and rng.random() < 0.8:
        return rng.choice(comp["ports"])
    return None


class Reject(Exception):
    """The call must raise"""


class Want:
    """An entry a call must add"""

    def __init__(self, base, cls, where, **fields):
        self.base, self.cls, self.where, self.fields = base, cls, where, fields


class World:
    """The workspace under test and what its components look like by the plan"""

    def __init__(self, plan, env):
        self.plan, self.env, self.mod = plan, env, env.mod
        ar = env.mod.element
        self.ar = ar
        self.ws = env.mod.workspace.Workspace()
        for name, value in plan["settings"].items():
            self.ws.behavior_settings.set_value(name, value)
        self.settings = plan["settings"]
        self.tree = []
        packages = self.ws.make_packages("Interfaces", "Modes", "Comps")
        self.packages = packages
        refs_ = []
        for iface in plan["interfaces"]:
            refs_.append(self.interface(iface, packages))
        self.comps, self.behs = [], []
        for comp in plan["components"]:
            swc = ar.ApplicationSoftwareComponentType(comp["name"])
            packages[2].append(swc)
            for port in comp["ports"]:
                if not (port["if"] == -1 or 0 <= port["if"] < len(refs_)):
                    raise Invalid("interface")
                ref = refs_[port["if"]] if port["if"] >= 0 else env.mod.reference.PortInterfaceRef(
                    "/Interfaces/Gone", env.mod.enumeration.IdentifiableSubTypes.SENDER_RECEIVER_INTERFACE)
                cls = {"R": ar.RequirePortPrototype, "P": ar.ProvidePortPrototype, "PR": ar.PRPortPrototype}[port["dir"]]
                swc.append_port(cls(port["name"], ref))
            beh = swc.create_internal_behavior(comp["behavior"]) if comp["behavior"] else swc.create_internal_behavior()
            self.comps.append(swc)
            self.behs.append(beh)

    def interface(self, iface, packages):
        ar, kind = self.ar, iface["kind"]
        cls = {"SR": ar.SenderReceiverInterface, "NV": ar.NvDataInterface, "CS": ar.ClientServerInterface,
               "MS": ar.ModeSwitchInterface, "PA": ar.ParameterInterface}[kind]
        obj = cls(iface["name"])
        packages[0].append(obj)
        for name in iface["elems"]:
            if kind in ("SR", "NV"):
                obj.create_data_element(name)
            elif kind == "CS":
                obj.create_operation(name)
            elif kind == "PA":
                obj.create_parameter(name)
            else:
                group = ar.ModeDeclarationGroup(f"G{iface['name']}", list(iface["modes"]))
                packages[1].append(group)
                obj.create_mode_group(name, group.ref())
                break
        return obj.ref()

    # --- what a call asks for

    def port(self, call, name, dirs=None):
        comp = self.plan["components"][call["c"]]
        for port in comp["ports"]:
            if port["name"] == name and (dirs is None or port["dir"] in dirs):
                return port
        raise Reject("unknown port")

    def iface(self, port):
        if port["if"] < 0:
            raise Reject("interface")
        return self.plan["interfaces"][port["if"]]

    def elem(self, iface, name):
        """Path of the element called name, or of the only one"""
        pool = iface["elems"]
        if not name:
            if len(pool) != 1:
                raise Reject("element")
            name = pool[0]
        if name not in pool:
            raise Reject("element")
        return name, f"/Interfaces/{iface['name']}/{name}"

    def port_path(self, call, port):
        return f"/Comps/{self.plan['components'][call['c']]['name']}/{port['name']}", {
            "R": "R_PORT_PROTOTYPE", "P": "P_PORT_PROTOTYPE", "PR": "PR_PORT_PROTOTYPE"}[port["dir"]]

    def setting(self, name, *parts):
        if not self.settings.get(name):
            raise Reject("settings")
        return "_".join([self.settings[name], *parts])

    def runnable(self, call):
        names = [r.name for r in self.behs[call["c"]].runnables]
        if call["runnable"] not in names:
            raise Reject("runnable")
        swc, beh = self.comps[call["c"]], self.behs[call["c"]]
        return f"/Comps/{swc.name}/{beh.name}/{call['runnable']}"

    def want_event(self, call):
        kind = call["kind"]
        if kind == "unsupported":
            return None
        run = self.runnable(call)
        short = call["runnable"]
        fields = {"start_on_event": run}
        if kind in ("background", "init", "timing"):
            base = call["name"] or self.setting(f"{kind}_event_prefix", short)
            if kind == "timing":
                fields.update(period=call["period"], offset=call["offset"])
            cls = {"background": "BackgroundEvent", "init": "InitEvent", "timing": "TimingEvent"}[kind]
        elif kind == "mode_switch":
            if call["how"] == "int":
                raise Reject("arguments")
            count = {"str": 1, "tuple": 2, "list": 2, "three": 3}[call["how"]]
            if count == 3:
                raise Reject("arguments")
            modes = []
            for text in call["target"][:count]:
                pname, _, mode = text.partition("/")
                if not mode:
                    raise Reject("mode")
                port = self.port(call, pname, ("R", "PR"))
                iface = self.iface(port)
                if iface["kind"] != "MS":
                    raise Reject("wrong port")
                if not iface["elems"]:
                    raise Reject("mode")
                if mode not in iface["modes"]:
                    raise Reject("mode")
                modes.append({"context_port": self.port_path(call, port),
                              "context_mode_declaration_group_prototype": f"/Interfaces/{iface['name']}/{iface['elems'][0]}",
                              "target_mode_declaration": f"/Modes/G{iface['name']}/{mode}"})
            base = call["name"] or self.setting("swc_mode_switch_event_prefix", short)
            fields["mode"] = modes[0] if count == 1 else modes
            fields["activation"] = [None, "ON_ENTRY", "ON_EXIT"][call["activation"]] if call["activation"] else None
            cls = "SwcModeSwitchEvent"
        else:
            text = call["target"]
            if not text or text.startswith("/"):
                raise Reject("unknown port")
            pname, _, ename = text.partition("/")
            port = self.port(call, pname, ("R", "PR") if kind in ("receive_error", "received") else ("P", "PR"))
            iface = self.iface(port)
            if kind in ("receive_error", "received"):
                if iface["kind"] != "SR":
                    raise Reject("wrong port")
                ename, path = self.elem(iface, ename)
                fields["data"] = {"context_port": self.port_path(call, port), "target_data_element": path}
                cls, prefix = {"receive_error": ("DataReceiveErrorEvent", "data_receive_error_event_prefix"),
                               "received": ("DataReceivedEvent", "data_receive_event_prefix")}[kind]
            elif kind == "invoked":
                if iface["kind"] != "CS":
                    raise Reject("wrong port")
                ename, path = self.elem(iface, ename)
                fields["operation"] = {"context_port": self.port_path(call, port), "target_provided_operation": path}
                cls, prefix = "OperationInvokedEvent", "operation_invoked_event_prefix"
            else:
                if iface["kind"] != "MS":
                    raise Reject("wrong port")
                ename, path = self.elem(iface, "")
                fields["mode_group"] = {"context_port": self.port_path(call, port), "target_mode_group": path}
                cls, prefix = "SwcModeManagerErrorEvent", "swc_mode_manager_error_event_prefix"
            base = call["name"] or self.setting(prefix, short, port["name"], ename)
        self.kwargs(call["kwargs"], fields)
        return [Want(base, cls, (None, "events"), **fields)]

    @staticmethod
    def kwargs(kwargs, fields):
        if "bogus" in kwargs:
            raise Reject("arguments")
        fields["category"] = kwargs.get("category")

    def want_access(self, call, item):
        port = self.port(call, item["port"])
        iface = self.iface(port)
        prefix = item["prefix"].upper() if item["prefix"] is not None else None
        known = ("ARGUMENT", "ARG", "VALUE", "VAL", "READ", "WRITE", "SEND", "ASYNC", "SYNC", "ACCESS", "SWITCH")
        if prefix is not None and prefix not in known:
            raise Reject("prefix")
        args = dict(item["args"] or {})
        name = args.pop("name", None)
        path = self.port_path(call, port)
        ename = item["elem"][1:]
        run, fields = call["runnable"], {}
        kind = iface["kind"]
        if kind == "MS" and not iface["elems"]:
            raise Reject("element")
        ename, target = self.elem(iface, ename)

        def base(setting):
            return name or self.setting(setting, port["name"], ename)
        if kind in ("SR", "NV"):
            if port["dir"] == "PR":
                raise Reject("wrong port")
            where, setting = {
                ("R", "READ"): ("data_read_access", "data_read_access_prefix"),
                ("R", None): ("data_receive_point_by_argument", "data_receive_point_prefix"),
                ("R", "ARG"): ("data_receive_point_by_argument", "data_receive_point_prefix"),
                ("R", "ARGUMENT"): ("data_receive_point_by_argument", "data_receive_point_prefix"),
                ("R", "VAL"): ("data_receive_point_by_value", "data_receive_point_prefix"),
                ("R", "VALUE"): ("data_receive_point_by_value", "data_receive_point_prefix"),
                ("P", None): ("data_send_point", "data_send_point_prefix"),
                ("P", "SEND"): ("data_send_point", "data_send_point_prefix"),
                ("P", "WRITE"): ("data_write_access", "data_write_access_prefix"),
            }.get((port["dir"], prefix), ("any", None))
            if where == "any":
                return "any"
            text = base(setting)
            self.kwargs(args, fields)
            fields["accessed_variable"] = {"ar_variable_iref": {"port_prototype_ref": path, "target_data_prototype_ref": target}}
            return Want(text, "VariableAccess", (run, where), **fields)
        if kind == "PA":
            if prefix is not None:
                return "any"
            text = base("parameter_access_prefix")
            self.kwargs(args, fields)
            fields["accessed_parameter"] = {"autosar_parameter": {"port_prototype": path, "target_data_prototype": target}}
            return Want(text, "ParameterAccess", (run, "parameter_access"), **fields)
        if kind == "CS":
            if port["dir"] == "P":
                raise Reject("wrong port")
            if prefix not in (None, "SYNC", "ASYNC"):
                return "any"
            text = base("server_call_point_prefix")
            self.kwargs(args, fields)
            fields["operation"] = {"context_port": path, "target_required_operation": target}
            cls = "AsynchronousServerCallPoint" if prefix == "ASYNC" else "SynchronousServerCallPoint"
            return Want(text, cls, (run, "server_call_point"), **fields)
        if port["dir"] == "PR":
            raise Reject("wrong port")
        group = {"context_port": path, "target_mode_group": target}
        if prefix is None:
            if args or name:
                return "any"
            return Want(None, "ModeAccessPoint", (run, "mode_access_point"), ident=None, mode_group=group)
        if prefix == "ACCESS":
            text = base("mode_access_point_prefix")
            self.kwargs(args, fields)
            fields["name"] = text
            return Want(text, "ModeAccessPoint", (run, "mode_access_point"), ident=fields, mode_group=group)
        if prefix == "SWITCH":
            if port["dir"] == "R":
                raise Reject("wrong port")
            text = base("mode_switch_point_prefix")
            self.kwargs(args, fields)
            return Want(text, "ModeSwitchPoint", (run, "mode_switch_point"), mode_group=group, **fields)
        return "any"


# --- reading the live objects

def text_of(value, mod):
    """Plain form of an attribute for comparison with a wanted one"""
    if value is None or isinstance(value, (str, bool, int, float)):
        return value
    if hasattr(value, "dest") and hasattr(value, "value") and not hasattr(value, "name"):
        return str(value)
    if hasattr(value, "name") and hasattr(value, "value") and hasattr(type(value), "__members__"):
        return value.name
    if isinstance(value, (list, tuple)):
        return [text_of(v, mod) for v in value]
    return value


def mismatch(obj, want, mod, path=""):
    """Where obj differs from the wanted fields, or None"""
    for key, expect in want.items():
        have = getattr(obj, key, "<no attribute>")
        here = f"{path}{key}"
        if isinstance(expect, dict):
            if have is None:
                return f"{here}: absent"
            res = mismatch(have, expect, mod, here + ".")
        elif isinstance(expect, list) and expect and isinstance(expect[0], dict):
            if not isinstance(have, (list, tuple)) or len(have) != len(expect):
                return f"{here}: {len(expect)} values expected"
            res = next((r for r in (mismatch(h, e, mod, f"{here}[{i}].")
                                    for i, (h, e) in enumerate(zip(have, expect))) if r), None)
        elif isinstance(expect, tuple):
            res = None
            if str(have) != expect[0] or getattr(getattr(have, "dest", None), "name", None) != expect[1]:
                res = f"{here}: {have} ({getattr(getattr(have, 'dest', None), 'name', None)}), expected {expect}"
        else:
            plain = text_of(have, mod)
            res = None
            if key == "name":
                if not isinstance(plain, str) or not fits(plain, expect):
                    res = f"{here}: {plain!r}, expected {expect!r} or that with a number"
            elif plain != expect and not (isinstance(expect, str) and str(plain) == expect):
                res = f"{here}: {plain!r}, expected {expect!r}"
        if res:
            return res
    return None


def fits(name, base):
    """base, or base with a number appended"""
    return name == base or re.fullmatch(re.escape(base) + r"_\d+", name) is not None


def derived(name, base, bases):
    """base, or base renamed in steps because entries called one of bases were added"""
    if fits(name, base):
        return True
    match = re.fullmatch(r"(.*)_\d+", name)
    return match is not None and (bases is None or match[1] in bases) and derived(match[1], base, bases)


def entry_name(entry):
    """Short name of an entry of any list (None for unnamed ones)"""
    if hasattr(entry, "ident") and not hasattr(entry, "name"):
        return entry.ident.name if entry.ident is not None else None
    return entry.name


LISTS = {"behavior": ["runnables", "events", "exclusive_areas"]}


def lists_of(beh):
    """{(runnable name or None, attribute): live list}"""
    out = {(None, name): list(getattr(beh, name)) for name in LISTS["behavior"]}
    for run in beh.runnables:
        for attr in ACCESS_LISTS:
            out[run.name, attr] = list(getattr(run, attr))
    return out


def strip(form, rest_of):
    """Canonical form without the named lists"""
    return {k: v for k, v in form.items() if k not in rest_of}


class Boom(Exception):
    """Raised by a failing argument iterator"""


def failing(items):
    """Iterates and then fails"""
    yield from items
    raise Boom("argument iterator failed")


def run(plan, env):
    """One run"""
    world = World(plan, env)
    history = []
    static = canon.canon([world.packages[0], world.packages[1]])
    before = [snapshot(world, i) for i in range(len(world.comps))]
    for number, call in enumerate(plan["calls"]):
        env.steps += 1
        if not 0 <= call["c"] < len(world.comps):
            raise Invalid("component")
        outcome = step(world, env, call, before, number)
        history.append((call["do"], call.get("kind"), outcome))
        env.log(number, call["do"], call.get("kind"), outcome)
    if canon.canon([world.packages[0], world.packages[1]]) != static:
        raise Violation("interfaces-changed", "port interfaces or mode groups differ after builder calls")
    wrong = refs.wrong_refs(world.ws.packages, env.mod)
    if wrong:
        raise Violation("wrong-reference", wrong)
    if plan["write"]:
        serialise(world, env)
    env.shape(*history)


def snapshot(world, i):
    """Everything observable of component i: canonical form, and the entries of each list by identity"""
    form = canon.canon(world.comps[i])
    lists = {}
    for key, values in lists_of(world.behs[i]).items():
        lists[key] = [(v, canon.canon(v)) for v in values]
    options = [(k, v, canon.canon(v)) for k, v in world.behs[i].port_api_options.items()]
    return form, lists, options


def unchanged(before, after, what, call):
    """A rejected call left everything as it was"""
    res = canon.diff(before[0], after[0])
    if res:
        raise Violation(f"{what}-changed-state", f"{brief(call)}: {res[0]}: {res[1]!r:.200} became {res[2]!r:.200}")
    for key, values in before[1].items():
        if [id(v) for v, _ in values] != [id(v) for v, _ in after[1].get(key, [])]:
            raise Violation(f"{what}-changed-state", f"{brief(call)}: entries of {key} were replaced")


def brief(call):
    return f"{call['do']} {call.get('kind', '')} {({k: v for k, v in call.items() if k not in ('do', 'kind')})}"[:400]


def step(world, env, call, before, number):
    """One builder call, judged"""
    ci = call["c"]
    what = call["do"] if call["do"] != "event" else call["kind"]
    try:
        want = wanted(world, env, call)
        reason = None
    except Reject as exc:
        want, reason = None, str(exc)
    func, args, kwargs = prepare(world, env, call)
    if func is None:
        return "no runnable"
    args_before = copy.deepcopy((clean(args), kwargs))
    raised = result = None
    try:
        result = func(*args, **kwargs)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        raised = exc
    if (clean(args), kwargs) != args_before:
        raise Violation("arguments-changed", f"{brief(call)}: arguments of the caller changed")
    after = snapshot(world, ci)
    for other in range(len(world.comps)):
        if other != ci:
            unchanged(before[other], snapshot(world, other), "other-component", call)
    if raised is not None:
        if want is not None and "any" not in want:
            raise Violation(f"{what}-raised", f"{brief(call)}: {describe(raised)}")
        unchanged(before[ci], after, f"rejected-{what}", call)
        if reason:
            env.probe(f"rejected: {reason}")
        if reason == "iterator failed":
            env.fault("argument iterator fails")
            env.probe("iterator failed")
        return f"rejected {reason}"
    if want is None:
        raise Violation(f"{what}-not-rejected", f"{brief(call)}: accepted although: {reason}")
    if call["do"] == "options":
        options(world, env, call, want, before[ci], after)
    else:
        added(world, env, call, want, before[ci], after, result)
    before[ci] = after
    return "ok"


def clean(args):
    """Arguments that can be compared"""
    return [a for a in args if not hasattr(a, "__next__")]


def wanted(world, env, call):
    """Entries the call must add; raises Reject"""
    do = call["do"]
    if do == "event":
        want = world.want_event(call)
        if want is None:
            raise Reject("unsupported")
        return want
    if do == "area":
        return [Want(call["name"], "ExclusiveArea", (None, "exclusive_areas"))]
    beh = world.behs[call["c"]]
    if do == "runnable":
        if any(r.name == call["name"] for r in beh.runnables):
            raise Reject("duplicate")
        fields = {"symbol": call["name"] if call["symbol"] == "" else call["symbol"],
                  "can_be_invoked_concurrently": call["conc"], "minimum_start_interval": call["start"]}
        areas = call["areas"]
        asked = [] if areas is None else [areas] if isinstance(areas, str) else list(areas)
        have = [a.name for a in beh.exclusive_areas]
        if any(a not in have for a in asked):
            raise Reject("area")
        world.kwargs(call["kwargs"], fields)
        out = Want(call["name"], "RunnableEntity", (None, "runnables"), **fields)
        out.areas = {f"/Comps/{world.comps[call['c']].name}/{beh.name}/{a}" for a in asked}
        return [out]
    if do == "options":
        if call["how"] == "int":
            raise Reject("arguments")
        ports = [p["name"] for p in world.plan["components"][call["c"]]["ports"]]
        chosen = ports if call["how"] == "*" else call["ports"][:1] if call["how"] == "one" else call["ports"]
        if call["how"] == "one" and not call["ports"]:
            raise Reject("unknown port")
        if any(c not in ports for c in chosen):
            raise Reject("unknown port")
        if call["how"] == "fail":
            raise Reject("iterator failed")
        if call["bad"] and chosen:
            raise Reject("arguments")
        return chosen
    world.runnable(call)
    out = []
    for item in call["items"][:1] if call["how"] == "one" else call["items"]:
        try:
            out.append(world.want_access(call, item))
        except Reject as exc:
            if out and str(exc) != "iterator failed":
                env.probe("rejected: second of several")
            raise
    if call["how"] == "fail":
        raise Reject("iterator failed")
    return out


def prepare(world, env, call):
    """The library call to make"""
    do = call["do"]
    beh = world.behs[call["c"]]
    if do == "area":
        return beh.create_exclusive_area, [call["name"]], {}
    if do == "runnable":
        kwargs = {**call["kwargs"], "can_enter_leave": copy.deepcopy(call["areas"]), "minimum_start_interval": call["start"],
                  "can_be_invoked_concurrently": call["conc"]}
        if call["symbol"] != "":
            kwargs["symbol"] = call["symbol"]
        return beh.create_runnable, [call["name"]], kwargs
    if do == "options":
        ports = list(call["ports"])
        arg = {"*": "*", "list": ports, "one": ports[0] if ports else "", "iter": iter(ports), "int": 5,
               "fail": failing(ports)}[call["how"]]
        kwargs = {"enable_take_address": call["take"], "indirect_api": call["indirect"]}
        if call["bad"]:
            kwargs["error_handling"] = "no such value"
        return beh.create_port_api_options, [arg], kwargs
    if do == "access":
        found = [r for r in beh.runnables if r.name == call["runnable"]]
        if not found:
            return None, None, None
        items = [access_item(item, call["how"] == "tuple-list") for item in call["items"]]
        if not items:
            raise Invalid("no items")
        arg = {"one": items[0], "list": items, "tuple-list": items, "iter": iter(items), "fail": failing(items)}[call["how"]]
        return found[0].create_port_access, [arg], {}
    kind = call["kind"]
    kwargs = dict(call["kwargs"])
    if call["name"] is not None:
        kwargs["event_name"] = call["name"]
    args = [call["runnable"]]
    if kind == "unsupported":
        return (beh.create_data_send_completed_event if len(call["target"]) % 2 else beh.create_data_write_completed_event,
                args + [call["target"]], kwargs)
    if kind in ("background", "init"):
        return getattr(beh, f"create_{kind}_event"), args, kwargs
    if kind == "timing":
        return beh.create_timing_event, args + [call["period"], call["offset"]], kwargs
    if kind == "mode_switch":
        one, two = call["target"][0], call["target"][-1]
        arg = {"str": one, "tuple": (one, two), "list": [one, two], "three": (one, two, one), "int": 7}[call["how"]]
        if call["activation"]:
            kwargs["activation"] = [None, world.mod.enumeration.ModeActivationKind.ON_ENTRY,
                                    world.mod.enumeration.ModeActivationKind.ON_EXIT][call["activation"]]
        return beh.create_swc_mode_mode_switch_event, args + [arg], kwargs
    name = {"receive_error": "create_data_receive_error_event", "received": "create_data_received_event",
            "invoked": "create_operation_invoked_event", "manager_error": "create_swc_mode_manager_error_event"}[kind]
    return getattr(beh, name), args + [call["target"]], kwargs


def access_item(item, force):
    """str or (str, dict) as create_port_access takes them"""
    text = item["port"] + item["elem"]
    if item["prefix"] is not None:
        text = item["prefix"] + (": " if item["space"] else ":") + text
    if item["args"] is not None:
        return (text, dict(item["args"]))
    return (text, None) if force or item["tuple"] else text


def added(world, env, call, want, before, after, result):
    """Exactly the wanted entries were added, everything else is as before"""
    rest = canon.diff(rest_of(before[0]), rest_of(after[0]))
    if rest:
        raise Violation("unrelated-change", f"{brief(call)}: {rest[0]}: {rest[1]!r:.200} became {rest[2]!r:.200}")
    if [(k, v) for k, _, v in before[2]] != [(k, v) for k, _, v in after[2]]:
        raise Violation("unrelated-change", f"{brief(call)}: port API options changed")
    expect, free = {}, 0
    for entry in want:
        if entry == "any":
            free += 1
        else:
            expect.setdefault(entry.where, []).append(entry)
    total_new = 0
    for key, now in after[1].items():
        old = before[1].get(key, [])
        new = now[len(old):]
        wants = expect.get(key, [])
        if key not in before[1] and new:
            raise Violation("unrelated-change", f"{brief(call)}: a new runnable has {key[1]}")
        total_new += len(new) if key in before[1] else 0
        if [id(v) for v, _ in now[:len(old)]] != [id(v) for v, _ in old]:
            raise Violation("entries-replaced", f"{brief(call)}: earlier entries of {key} were removed, replaced or reordered")
        bases = {w.base for w in wants}
        for (obj, form), (_, oldform) in zip(now, old):
            if form == oldform:
                continue
            if key == (None, "runnables"):
                res = canon.diff(without_accesses(oldform), without_accesses(form))
                if res:
                    raise Violation("unrelated-change", f"{brief(call)}: runnable: {res[0]}: {res[1]!r:.200} became {res[2]!r:.200}")
                continue
            oldname = name_in(oldform)
            nameless = without_name(form), without_name(oldform)
            if nameless[0] != nameless[1] or (not free and oldname not in bases) \
                    or not derived(entry_name(obj) or "", oldname or "", None if free else bases):
                raise Violation("earlier-entry-changed", f"{brief(call)}: {key}: {oldname}: {canon.diff(oldform, form)!r:.300}")
            env.probe("name clash")
        names = [n for n in (entry_name(v) for v, _ in now) if n is not None]
        if len(set(names)) != len(names) and key != (None, "exclusive_areas"):
            raise Violation("names-not-unique", f"{brief(call)}: {key}: {sorted(names)}")
        if free:
            continue
        if len(new) != len(wants):
            raise Violation("wrong-number-of-entries",
                            f"{brief(call)}: {key}: {len(new)} added, {len(wants)} asked for" + (
                                "" if wants else f" (expected in {sorted(map(str, expect))})"))
        taken = [name_in(f) for _, f in old]
        for (obj, _), entry in zip(new, wants):
            check_entry(world, env, call, obj, entry, taken + [w.base for w in wants if w is not entry])
    missing = [k for k in expect if k not in after[1]]
    if missing and not free:
        raise Violation("wrong-number-of-entries", f"{brief(call)}: nothing in {missing}")
    if free and total_new != len(want):
        raise Violation("wrong-number-of-entries", f"{brief(call)}: {total_new} added, {len(want)} asked for")
    if call["do"] in ("event", "runnable"):
        last = after[1][None, "events" if call["do"] == "event" else "runnables"][-1][0]
        if result is not last:
            raise Violation("wrong-result", f"{brief(call)}: the call returned something else than the entry it added")


def check_entry(world, env, call, obj, entry, taken):
    """A new entry is what was asked for"""
    if type(obj).__name__ != entry.cls:
        raise Violation("wrong-entry", f"{brief(call)}: a {type(obj).__name__} instead of a {entry.cls}")
    res = mismatch(obj, entry.fields, world.mod)
    if res:
        raise Violation("wrong-entry", f"{brief(call)}: {entry.cls}: {res}")
    if entry.base is not None:
        name = entry_name(obj)
        clash = any(t is not None and (derived(t, entry.base, None) or derived(entry.base, t, None)) for t in taken)
        if clash:
            env.probe("name clash")
        if name is None or not derived(name, entry.base, taken) or (not clash and name != entry.base):
            raise Violation("wrong-name", f"{brief(call)}: named {name!r}, expected {entry.base!r}" + (" or numbered" if clash else ""))
    if hasattr(entry, "areas"):
        have = {str(getattr(a, "exclusive_area", None)) for a in obj.can_enter_leave}
        if have != entry.areas:
            raise Violation("wrong-entry", f"{brief(call)}: areas {sorted(have)}, expected {sorted(entry.areas)}")


def options(world, env, call, chosen, before, after):
    """Exactly the options of the chosen ports were set"""
    rest = canon.diff(no_options(before[0]), no_options(after[0]))
    if rest:
        raise Violation("unrelated-change", f"{brief(call)}: {rest[0]}: {rest[1]!r:.200} became {rest[2]!r:.200}")
    old = {k: f for k, _, f in before[2]}
    new = {k: f for k, _, f in after[2]}
    live = {k: v for k, v, _ in after[2]}
    if set(new) != set(old) | set(chosen):
        raise Violation("wrong-options", f"{brief(call)}: options for {sorted(new)}, expected {sorted(set(old) | set(chosen))}")
    for name, form in new.items():
        if name not in chosen:
            if form != old[name]:
                raise Violation("wrong-options", f"{brief(call)}: options of {name} changed")
            continue
        if name in old:
            env.probe("options replaced")
        port = world.port(call, name)
        res = mismatch(live[name], {"port": world.port_path(call, port), "enable_take_address": call["take"],
                                    "indirect_api": call["indirect"], "error_handling": None}, world.mod)
        if res:
            raise Violation("wrong-options", f"{brief(call)}: {name}: {res}")


def rest_of(form):
    """A component without the lists that builder calls add to"""
    return {k: {n: x for n, x in v.items() if n not in LISTS["behavior"]}
            if isinstance(v, dict) and v.get("$") == "SwcInternalBehavior" else v for k, v in form.items()}


def without_accesses(form):
    """A runnable without its access points"""
    return {k: v for k, v in form.items() if k not in ACCESS_LISTS}


def no_options(form):
    """A component without port API options"""
    return {k: {n: x for n, x in v.items() if n != "port_api_options"}
            if isinstance(v, dict) and v.get("$") == "SwcInternalBehavior" else v for k, v in form.items()}


def name_in(form):
    """Name in a canonical entry"""
    if form.get("$") == "ModeAccessPoint":
        return form["ident"]["name"] if form.get("ident") else None
    return form.get("name")


def without_name(form):
    """Canonical entry without its name"""
    if form.get("$") == "ModeAccessPoint" and form.get("ident"):
        form = {**form, "ident": {k: v for k, v in form["ident"].items() if k != "name"}}
    return {k: v for k, v in form.items() if k != "name"}


def serialise(world, env):
    """What was built can be written and read back"""
    env.probe("serialised")
    doc = env.mod.document.Document()
    names = [len(b.exclusive_areas) != len({a.name for a in b.exclusive_areas}) for b in world.behs]
    for package in world.ws.packages:
        doc.append(package)
    try:
        text = env.mod.writer.Writer().write_str(doc)
        back = env.mod.reader.Reader().read_str(text)
    finally:
        for package in world.ws.packages:
            package.parent = world.ws
    res = canon.diff(canon.canon([p for p in world.ws.packages]), canon.canon([p for p in back.packages]))
    if res and not any(names):
        raise Violation("serialised-form-differs", f"{res[0]}: {res[1]!r:.300} read back as {res[2]!r:.300}")
