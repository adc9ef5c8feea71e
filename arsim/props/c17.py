"""C17: ports, component prototypes and connectors are what was asked for, a rejected call changes nothing"""
import copy
import itertools

from .. import canon, refs
from ..core import Invalid, Violation, describe

PROPERTY = "C17"
NEEDS_DISK = False
QUICK = 9100
THOROUGH = 500000
RULE = ("a run makes 5-40 calls (ports of every direction and interface kind with com-specs as options, pairs, objects or "
        "iterators that fail half-way; component prototypes; connectors between inner and outer ports; further interface "
        "elements; lookups; bad names, kinds, directions, options, duplicates) on components and compositions, and compares "
        "everything after every call with a reference of what the call asks for; distinct = different sequence of (call kind, "
        "outcome)")
COMPONENTS = {"real": ["autosar.xml.element", "autosar.xml.workspace", "autosar.xml.reader/writer (reload)"],
              "simulated": ["argument iterators that fail"], "oracle": ["reference of the parts each call must add"]}
ASSUMPTIONS = ["interfaces and component types are in packages", "what a PR port may be connected to is not judged",
               "a connector may be rejected when the name made of its parts is in use"]
STEP_UNIT = "builder calls"
PROBES = ["rejected: name in use", "rejected: unknown port", "rejected: direction", "rejected: unknown component", "rejected: option",
          "rejected: element", "rejected: interface", "rejected: com-spec", "rejected: component type", "rejected: format",
          "rejected: junk", "iterator failed", "assembly", "delegation", "pass-through", "com-spec object", "several com-specs",
          "element added later", "looked up", "serialised", "connector name in use"]
NAMES = ["A", "B", "C", "A_B", "B_C", "In", "Out", "p", "P", "x.y"]
ELEMS = ["E", "F", "e", "G_1"]
KINDS = ["SR", "SR", "SR", "CS", "CS", "MS", "NV", "PA"]
CLASSES = {"SR": "SenderReceiverInterface", "NV": "NvDataInterface", "CS": "ClientServerInterface", "MS": "ModeSwitchInterface",
           "PA": "ParameterInterface"}
DESTS = {"SR": "SENDER_RECEIVER_INTERFACE", "NV": "NV_DATA_INTERFACE", "CS": "CLIENT_SERVER_INTERFACE", "MS": "MODE_SWITCH_INTERFACE",
         "PA": "PARAMETER_INTERFACE"}
PORTS = {"P": ("ProvidePortPrototype", "P_PORT_PROTOTYPE"), "R": ("RequirePortPrototype", "R_PORT_PROTOTYPE"),
         "PR": ("PRPortPrototype", "PR_PORT_PROTOTYPE")}

PACKAGES = {"I": ["Interfaces", "Interfaces/Sub", "Types"], "T": ["Comps", "Comps/Sub", "Types"]}

# (interface kind, side, queued) -> (class, attribute of the reference, options)
SPECS = {
    ("SR", "P", False): ("NonqueuedSenderComSpec", "data_element_ref", {
        "init_value": [0, 5, 1.5, "on", ["A", 1, 2], ["R", ["A", 0], "t"], {"const": "/C/c"}, None], "uses_end_to_end_protection": [True, False],
        "transmission_acknowledge": [0, 1.5]}),
    ("SR", "P", True): ("QueuedSenderComSpec", "data_element_ref", {
        "uses_end_to_end_protection": [True, False], "transmission_acknowledge": [0, 0.25]}),
    ("SR", "R", False): ("NonqueuedReceiverComSpec", "data_element_ref", {
        "init_value": [0, 7, 2.5, "off", ["A", 3], {"const": "/C/d"}, None], "alive_timeout": [0, 10, 0.5], "enable_update": [True, False],
        "handle_never_received": [True, False], "uses_end_to_end_protection": [True, False]}),
    ("SR", "R", True): ("QueuedReceiverComSpec", "data_element_ref", {
        "queue_length": [0, 1, 10], "uses_end_to_end_protection": [True, False]}),
    ("CS", "P", False): ("ServerComSpec", "operation_ref", {"queue_length": [0, 1, 4]}),
    ("CS", "R", False): ("ClientComSpec", "operation_ref", {"e2e_call_respone_timeout": [0, 0.5, 3]}),
    ("MS", "P", False): ("ModeSwitchSenderComSpec", "mode_group_ref", {
        "enhanced_mode_api": [True, False], "mode_switched_ack": [0, 0.5], "queue_length": [0, 1, 3]}),
    ("MS", "R", False): ("ModeSwitchReceiverComSpec", "mode_group_ref", {
        "enhanced_mode_api": [True, False], "supports_async": [True, False]}),
}
BAD = [{"bogus": 1}, {"data_element_ref": None, "operation_ref": None}, {"init_value": {"set": 1}}, {"queue_length": "many"}]


def generate(rng, profile):
    interfaces = []
    for i in range(rng.choice([1, 2, 3, 5])):
        kind = rng.choice(KINDS)
        interfaces.append({"path": free_path(rng, "I", interfaces), "kind": kind,
                           "elems": [[n, rng.random() < 0.3] for n in rng.sample(ELEMS, 1 if kind == "MS" and rng.random() < 0.85 else
                                                                                 0 if kind == "MS" else rng.choice([0, 1, 1, 2, 3]))]})
    comps = []
    for i in range(rng.choice([2, 3, 4])):
        comps.append({"path": free_path(rng, "T", comps), "kind": "A" if i == 0 else "C" if i == 1 else rng.choice("AC")})
    plan = {"interfaces": interfaces, "comps": comps, "write": rng.random() < 0.15, "calls": []}
    # a rough idea of what will exist, to aim calls at
    known = {"ports": [{} for _ in comps], "protos": [{} for _ in comps]}
    if rng.random() < 0.7:
        for ci, comp in enumerate(comps):
            for _ in range(rng.choice([1, 2, 3])):
                plan["calls"].append(gen_port(rng, ci, interfaces, known, plain=True))
        for ci, comp in enumerate(comps):
            for _ in range(rng.choice([0, 1, 2, 3]) if comp["kind"] == "C" else 0):
                plan["calls"].append(gen_proto(rng, ci, comps, known))
    for _ in range(rng.choice([5, 10, 20, 40])):
        plan["calls"].append(gen_call(rng, interfaces, comps, known))
    return plan


def free_path(rng, letter, known):
    """A path no other interface or component has"""
    used = {d["path"] for d in known}
    return rng.choice([f"/{p}/{letter}{i}" for p in PACKAGES[letter] for i in range(3) if f"/{p}/{letter}{i}" not in used])


def short(desc):
    """The name at the end of a path"""
    return desc["path"].rpartition("/")[2]


def gen_options(rng, kind, side, queued):
    options = SPECS.get((kind, side, queued), (None, None, {"init_value": [0]}))[2]
    out = {key: rng.choice(options[key]) for key in options if rng.random() < 0.5}
    if rng.random() < 0.06:
        out.update(rng.choice(BAD))
    return out


def gen_spec(rng, iface, side):
    if rng.random() < 0.25:
        return None
    how = rng.choice(["dict", "dict", "dict", "dict", "pairs", "pairs", "object", "objects", "mixed", "iter", "fail", "junk"])
    spec = {"how": how, "options": [], "objects": []}
    if how == "junk":
        spec["junk"] = rng.choice([5, "text", [5], True])
        return spec
    elems = list(iface["elems"])
    if how in ("dict", "pairs", "mixed", "iter", "fail"):
        if len(elems) == 1 and rng.random() < 0.9 or iface["kind"] == "MS":
            queued = bool(elems) and elems[0][1] and iface["kind"] == "SR"
            if how == "dict":
                spec["options"] = [[None, gen_options(rng, iface["kind"], side, queued)]]
            else:
                spec["options"] = [[elems[0][0] if elems else "E", gen_options(rng, iface["kind"], side, queued)]]
        else:
            chosen = rng.sample(elems, rng.randrange(len(elems) + 1)) + ([["Nope", False]] if rng.random() < 0.1 else [])
            for name, queued in chosen:
                spec["options"].append([name, gen_options(rng, iface["kind"], side, queued and iface["kind"] == "SR")])
    if how in ("object", "objects", "mixed", "fail"):
        for _ in range(1 if how == "object" else rng.choice([1, 2])):
            target = rng.choice(elems)[0] if elems else "E"
            spec["objects"].append({"side": side if rng.random() < 0.93 else "PR".replace(side, ""), "elem": target,
                                    "kind": rng.choice(["SR", "CS", "MS"]) if iface["kind"] not in ("SR", "CS", "MS") else iface["kind"]})
    return spec


def gen_call(rng, interfaces, comps, known):
    ci = rng.randrange(len(comps)) if rng.random() < 0.5 else 1
    do = rng.choice(["port", "port", "port", "port", "proto", "proto", "connect", "connect", "connect", "lookup", "element", "append"])
    if comps[ci]["kind"] != "C" and do in ("proto", "connect"):
        do = "port"
    call = {"do": do, "c": ci}
    if do == "port":
        return gen_port(rng, ci, interfaces, known)
    if do == "proto":
        return gen_proto(rng, ci, comps, known)
    if do == "connect":
        call["ends"] = gen_ends(rng, ci, known)
    elif do == "lookup":
        ends = list(known["ports"][ci]) or ["A"]
        call.update(port=rng.choice(ends) if rng.random() < 0.9 else "Nope", what=rng.choice(["data", "operation", "mode", "names", "names"]),
                    elem=rng.choice([None, None] + ELEMS), side=rng.choice("PR"))
    elif do == "element":
        fi = rng.randrange(len(interfaces))
        call.update(**{"if": fi}, name=rng.choice(ELEMS + ["H", "K"]), queued=rng.random() < 0.3)
        if interfaces[fi]["kind"] == "MS":
            call["do"] = "lookup"
            call.update(port="A", what="names", elem=None, side="P")
    else:
        call.update(what=rng.choice(["port", "component", "connector", "junk-port", "junk-component", "junk-connector"]),
                    name=rng.choice(["App1", "App2", "App3"]), kind=rng.choice(["P", "R", "PR"]))
    return call


def gen_port(rng, ci, interfaces, known, plain=False):
    fi = rng.randrange(len(interfaces)) if rng.random() > 0.03 else -1
    way = rng.choice(["P", "P", "R", "R", "PR"])
    name = rng.choice(NAMES)
    call = {"do": "port", "c": ci, "dir": way, "name": name, "if": fi, "alias": rng.random() < 0.3,
            "category": rng.choice([None, None, None, "C"]), "bogus": rng.random() < 0.03 and not plain}
    iface = interfaces[fi] if fi >= 0 else {"kind": "SR", "elems": [["E", False]]}
    for side in way:
        call[f"{side.lower()}spec"] = None if plain else gen_spec(rng, iface, side)
    if way == "R":
        call["unconnected"] = rng.choice([None, None, True, False])
    if plain or all(call[f"{side.lower()}spec"] is None for side in way):
        if fi >= 0 and not call["bogus"] and name not in known["protos"][ci]:
            known["ports"][ci].setdefault(name, way)
    return call


def gen_proto(rng, ci, comps, known):
    ti = rng.choice([i for i in range(len(comps)) if i != ci])
    name = rng.choice([None, None, "A", "B", "Inst", "A_B", "C", "Inst2"])
    call = {"do": "proto", "c": ci, "type": ti if rng.random() > 0.06 else rng.choice([-1, -2]), "name": name,
            "bogus": rng.random() < 0.04, "category": rng.choice([None, None, "C"])}
    name = name or short(comps[ti])
    if call["type"] >= 0 and not call["bogus"] and name not in known["ports"][ci]:
        known["protos"][ci].setdefault(name, ti)
    return call


def gen_ends(rng, ci, known):
    """Two ends of a connector, usually fitting ones"""
    pool = [(name, way, False) for name, way in known["ports"][ci].items()]
    for proto, ti in known["protos"][ci].items():
        pool += [(f"{proto}/{name}", way, True) for name, way in known["ports"][ti].items()]
    if not pool or rng.random() < 0.1:
        return [rng.choice(["", "Nope", "Nope/In", "A/B/C", "A", "x.y", "Inst/Nope"]), rng.choice(pool)[0] if pool else "A"][::rng.choice([1, -1])]
    one = rng.choice(pool)
    want = [x for x in pool if x[0] != one[0] and (x[1] == one[1]) == (x[2] != one[2])]
    two = rng.choice(want) if want and rng.random() < 0.8 else rng.choice(pool)
    return [one[0], two[0]]


class Reject(Exception):
    """The call must raise"""


class Free(Exception):
    """The call may raise"""


class Boom(Exception):
    """Raised by a failing argument iterator"""


class World:
    """The workspace under test and what it should contain"""

    def __init__(self, plan, env):
        self.plan, self.env, self.mod, self.ar = plan, env, env.mod, env.mod.element
        self.ws = env.mod.workspace.Workspace()
        self.packages = self.ws.make_packages("Interfaces", "Modes", "Comps", "Types")
        made = {path: self.ws.make_packages(path) for path in ("Interfaces", "Interfaces/Sub", "Types", "Comps", "Comps/Sub")}
        self.interfaces = []
        self.elems = []                         # per interface: {name: queued} in order
        for desc in plan["interfaces"]:
            obj = getattr(self.ar, CLASSES[desc["kind"]])(short(desc))
            made[desc["path"][1:].rpartition("/")[0]].append(obj)
            self.interfaces.append(obj)
            self.elems.append({})
            for name, queued in desc["elems"]:
                self.add_element(len(self.interfaces) - 1, name, queued)
        self.comps, self.parts = [], []         # per component: {name: ("port", dir, interface) | ("proto", type) | ("connector",)}
        for desc in plan["comps"]:
            cls = self.ar.CompositionSwComponentType if desc["kind"] == "C" else self.ar.ApplicationSoftwareComponentType
            obj = cls(short(desc))
            made[desc["path"][1:].rpartition("/")[0]].append(obj)
            self.comps.append(obj)
            self.parts.append({})
        self.objects = [{} for _ in self.comps]
        self.unit = self.ar.Unit("U")
        self.packages[1].append(self.unit)

    def add_element(self, fi, name, queued):
        kind, obj = self.plan["interfaces"][fi]["kind"], self.interfaces[fi]
        if name in self.elems[fi]:
            return False
        if kind in ("SR", "NV"):
            props = None
            if queued:
                ar = self.ar
                props = ar.SwDataDefProps(ar.SwDataDefPropsConditional(impl_policy=self.mod.enumeration.SwImplPolicy.QUEUED))
            obj.create_data_element(name, sw_data_def_props=props)
        elif kind == "CS":
            obj.create_operation(name)
        elif kind == "PA":
            obj.create_parameter(name)
        else:
            group = self.ar.ModeDeclarationGroup(f"GI{fi}", ["On", "Off"])
            self.packages[1].append(group)
            obj.create_mode_group(name, group.ref())
        self.elems[fi][name] = queued and kind == "SR"
        return True

    def path(self, ci, name=None):
        base = self.plan["comps"][ci]["path"]
        return base if name is None else f"{base}/{name}"

    # --- com-specs

    def options(self, options):
        """Python values of planned options"""
        out = {}
        for key, value in options.items():
            if isinstance(value, dict):
                value = self.mod.reference.ConstantRef(value["const"]) if "const" in value else {1, 2}
            out[key] = copy.deepcopy(value)
        return out

    def spec_object(self, desc, fi):
        cls = SPECS[desc["kind"], desc["side"], False][0]
        reference = self.mod.reference
        ref = {"SR": ("data_element_ref", reference.VariableDataPrototypeRef), "CS": ("operation_ref", reference.ClientServerOperationRef),
               "MS": ("mode_group_ref", reference.ModeDeclarationGroupPrototypeRef)}[desc["kind"]]
        return getattr(self.ar, cls)(**{ref[0]: ref[1](f"{self.plan['interfaces'][fi]['path']}/{desc['elem']}")})

    def spec_argument(self, spec, fi):
        """(argument to pass, objects in it)"""
        if spec is None:
            return None, []
        how = spec["how"]
        if how == "junk":
            return copy.deepcopy(spec["junk"]), []
        objects = [self.spec_object(d, fi) for d in spec["objects"]]
        pairs = [(n, self.options(o)) for n, o in spec["options"]]
        if how == "dict":
            if len(pairs) == 1 and pairs[0][0] is None:
                return pairs[0][1], []
            return dict((n or "E", o) for n, o in pairs), []
        if how == "object":
            if not objects:
                raise Invalid("no object")
            return objects[0], objects[:1]
        items = [(n or "E", o) for n, o in pairs]
        mixed = objects + items if how != "mixed" else (objects[:1] + items + objects[1:])
        if how == "iter":
            return iter(mixed), objects
        if how == "fail":
            return failing(mixed), objects
        return mixed, objects

    def want_specs(self, spec, side, fi, way):
        """[(class, reference attribute, path, options)], wanted objects or not; raises Reject or Free"""
        if spec is None:
            return []
        kind = self.plan["interfaces"][fi]["kind"]
        elems = self.elems[fi]
        how = spec["how"]
        if how == "junk":
            raise Reject("com-spec")
        if way == "PR" and how not in ("dict", "object", "objects"):
            raise Free("form")
        if how in ("object", "objects", "mixed", "fail", "iter") and any(d["side"] != side for d in spec["objects"]):
            if way == "PR":
                raise Free("side")
            raise Reject("com-spec")
        if how == "fail":
            raise Reject("iterator failed")
        if how in ("object", "objects"):
            return []
        options = spec["options"]
        names = [n or "E" for n, _ in options]
        if len(set(names)) != len(names):
            raise Free("repeated")
        if how != "dict" and not options:
            return []
        if (kind, side, False) not in SPECS:
            raise Reject("interface")
        if not elems:
            raise Reject("interface")
        single = len(elems) == 1
        out = []
        if single:
            if how == "dict" and not options:
                options = [[None, {}]]
            name, opts = options[0]
            if len(options) > 1 or name is not None or how != "dict":
                raise Free("pair for the only element")
            name = next(iter(elems))
            options = [[name, opts]]
        elif any(n is None for n, _ in options):
            options = [[k, v] for k, v in options[0][1].items()]
            if any(not isinstance(v, dict) for _, v in options):
                raise Reject("option")
        for name, opts in options:
            if name not in elems:
                raise Reject("element")
            cls, attr, known = SPECS[kind, side, elems[name]]
            if any(k not in known for k in opts) or any(isinstance(v, dict) and "const" not in v for v in opts.values()) \
                    or opts.get("queue_length") == "many":
                raise Reject("option")
            out.append((cls, attr, f"{self.plan['interfaces'][fi]['path']}/{name}", opts))
        return out


def failing(items):
    """Iterates and then fails"""
    yield from items
    raise Boom("argument iterator failed")


# --- reading the live objects

def value_form(value, ar):
    """What an init value is"""
    if value is None:
        return None
    kind = type(value).__name__
    if kind == "ConstantReference":
        return {"const": str(value.constant_ref)}
    if kind == "NumericalValueSpecification":
        plain = value.value
        return getattr(plain, "value", plain)
    if kind == "TextValueSpecification":
        return value.value
    if kind == "ArrayValueSpecification":
        return ["A"] + [value_form(v, ar) for v in value.elements]
    if kind == "RecordValueSpecification":
        return ["R"] + [value_form(v, ar) for v in value.fields]
    return kind


def spec_problem(obj, want, ar):
    """Where a com-spec differs from the wanted one, or None"""
    cls, attr, path, options = want
    if type(obj).__name__ != cls:
        return f"{type(obj).__name__} instead of {cls}"
    if str(getattr(obj, attr)) != path:
        return f"{attr} {getattr(obj, attr)} instead of {path}"
    for name, have in vars(obj).items():
        if name.startswith("_") or name in (attr, "parent"):
            continue
        expect = options.get(name)
        if name == "init_value":
            have = value_form(have, ar)
        elif name in ("transmission_acknowledge", "mode_switched_ack") and have is not None:
            have = have.timeout
        if expect is None and have in (None, []):
            continue
        if have != expect or isinstance(have, bool) != isinstance(expect, bool):
            return f"{name}: {have!r} instead of {expect!r}"
    return None


def match_specs(have, wants, objects, ar, where):
    """The com-specs of a port are the wanted ones, in any order"""
    left = list(have)
    for obj in objects:
        found = [i for i, h in enumerate(left) if h is obj]
        if not found:
            raise Violation("com-spec-lost", f"{where}: a given {type(obj).__name__} is not in the port")
        left.pop(found[0])
    for want in wants:
        problems = []
        for i, obj in enumerate(left):
            problem = spec_problem(obj, want, ar)
            if problem is None:
                left.pop(i)
                break
            problems.append(problem)
        else:
            raise Violation("com-spec-wrong", f"{where}: {want[0]} for {want[2]} {want[3]}: {problems[:3] or 'absent'}")
    if left:
        raise Violation("com-spec-added", f"{where}: unasked {type(left[0]).__name__}")


def snapshot(world):
    """Everything observable"""
    lists = []
    for comp in world.comps:
        lists.append([list(comp.ports), list(getattr(comp, "components", [])), list(getattr(comp, "connectors", []))])
    return canon.canon(world.packages), lists


def unchanged(before, after, call, kind):
    """Nothing changed"""
    res = canon.diff(before[0], after[0])
    if res:
        raise Violation(kind, f"{call}: {res[0]}: {res[1]!r:.200} became {res[2]!r:.200}")
    if [[[id(x) for x in y] for y in z] for z in before[1]] != [[[id(x) for x in y] for y in z] for z in after[1]]:
        raise Violation(kind, f"{call}: parts were replaced")


def run(plan, env):
    """One run"""
    for desc in plan["interfaces"]:
        if desc["kind"] not in CLASSES or (desc["kind"] == "MS" and len(desc["elems"]) > 1) or \
                len({n for n, _ in desc["elems"]}) != len(desc["elems"]) or any(not n for n, _ in desc["elems"]):
            raise Invalid("interface")
    paths = [d["path"] for d in plan["interfaces"] + plan["comps"]]
    if len(set(paths)) != len(paths) or not plan["comps"] or \
            any(p[1:].rpartition("/")[0] not in PACKAGES[p.rpartition("/")[2][0]] for p in paths):
        raise Invalid("names")
    world = World(plan, env)
    history = []
    before = snapshot(world)
    for number, call in enumerate(plan["calls"]):
        env.steps += 1
        if not 0 <= call["c"] < len(world.comps):
            raise Invalid("component")
        if call["do"] in ("proto", "connect") and plan["comps"][call["c"]]["kind"] != "C":
            raise Invalid("composition")
        if call["do"] == "element":
            if plan["interfaces"][call["if"]]["kind"] == "MS" or not call["name"]:
                raise Invalid("element")
            if world.add_element(call["if"], call["name"], call["queued"]):
                env.probe("element added later")
            outcome, before = "ok", snapshot(world)
        elif call["do"] == "lookup":
            lookup(world, env, call)
            after = snapshot(world)
            unchanged(before, after, call, "lookup-changed-state")
            outcome = "ok"
        elif call["do"] == "append" and "junk" not in call["what"] and call["name"] in world.parts[call["c"]]:
            outcome = "skipped"
        else:
            outcome, before = step(world, env, call, before)
        names_found(world, f"after {call}")
        history.append((call["do"], outcome))
        env.log(number, call["do"], outcome)
    wrong = refs.wrong_refs(world.ws.packages, env.mod)
    if wrong:
        raise Violation("wrong-reference", wrong)
    if plan["write"]:
        serialise(world, env)
    env.shape(*history)


def step(world, env, call, before):
    """One builder call, judged"""
    brief = f"{call}"[:500]
    what = call["do"]
    try:
        check, reason, free = plan_call(world, call), None, False
    except Reject as exc:
        check, reason, free = None, str(exc), False
    except Free as exc:
        check, reason, free = None, str(exc), True
    func, args, kwargs, objects = prepare(world, call)
    raised = result = None
    try:
        result = func(*args, **kwargs)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        raised = exc
    after = snapshot(world)
    if raised is not None:
        if check is not None and not may_clash(world, env, call):
            raise Violation(f"{what}-raised", f"{brief}: {describe(raised)}")
        unchanged(before, after, brief, f"rejected-{what}-changed-state")
        if reason and not free:
            env.probe(reason if reason == "iterator failed" else f"rejected: {reason}")
            if reason == "iterator failed":
                env.fault("argument iterator fails")
        return f"rejected {reason}", before
    if reason and not free:
        raise Violation(f"{what}-not-rejected", f"{brief}: accepted although: {reason}")
    added(world, env, call, before, after, result, check, objects, brief)
    return "ok", after


def plan_call(world, call):
    """What an accepted call must have added; raises Reject or Free"""
    ci, parts = call["c"], world.parts[call["c"]]
    if call["do"] == "port":
        if call["if"] == -1 or call["bogus"]:
            raise Reject("junk")
        if not 0 <= call["if"] < len(world.interfaces):
            raise Invalid("interface")
        free, wants = None, {}
        for side in call["dir"]:
            try:
                wants[side] = world.want_specs(call.get(f"{side.lower()}spec"), side, call["if"], call["dir"])
            except Free as exc:
                free = exc
        if call["name"] in parts:
            raise Reject("name in use")
        if free:
            raise free
        return wants
    if call["do"] == "proto":
        if call["type"] < 0:
            raise Reject("component type")
        if call["type"] >= len(world.comps) or call["type"] == ci:
            raise Invalid("type")
        if call["bogus"]:
            raise Reject("junk")
        name = call["name"] or short(world.plan["comps"][call["type"]])
        if name in parts:
            raise Reject("name in use")
        return name
    if call["do"] == "append":
        if call["what"].startswith("junk"):
            raise Reject("junk")
        if call["what"] in ("component", "connector") and world.plan["comps"][ci]["kind"] != "C":
            raise Reject("junk")
        if call["name"] in parts:
            raise Invalid("appended twice")
        return True
    ends = [resolve(world, ci, text) for text in call["ends"]]
    (proto1, type1, port1), (proto2, type2, port2) = ends
    dir1, dir2 = [world.parts[t][p][1] for _, t, p in ends]
    pr = "PR" in (dir1, dir2)
    if (proto1 is None) != (proto2 is None):
        if pr:
            raise Free("pr port")
        if dir1 != dir2:
            raise Reject("direction")
    else:
        if pr:
            raise Free("pr port")
        if dir1 == dir2:
            raise Reject("direction")
    return ends


def resolve(world, ci, text):
    """(prototype name or None, component index, port name) of a port named in a composition"""
    parts = text.split("/")
    if len(parts) > 2:
        raise Reject("format")
    if len(parts) == 1:
        if world.parts[ci].get(text, ("none",))[0] != "port":
            raise Reject("unknown port")
        return None, ci, text
    proto = world.parts[ci].get(parts[0], ("none",))
    if proto[0] != "proto" or proto[1] is None:
        raise Reject("unknown component")
    if world.parts[proto[1]].get(parts[1], ("none",))[0] != "port":
        raise Reject("unknown port")
    return parts[0], proto[1], parts[1]


def may_clash(world, env, call):
    """Whether a connector may be rejected for its derived name"""
    if call["do"] != "connect":
        return False
    pieces = [p for text in call["ends"] for p in text.split("/")]
    clash = any("_".join(order) in world.parts[call["c"]] for order in itertools.permutations(pieces))
    if clash:
        env.probe("connector name in use")
    return clash


def prepare(world, call):
    """(function, arguments, keywords, com-spec objects per side)"""
    comp, ar = world.comps[call["c"]], world.ar
    if call["do"] == "port":
        name = {"P": ["create_p_port", "create_provide_port"], "R": ["create_r_port", "create_require_port"],
                "PR": ["create_pr_port", "create_pr_port"]}[call["dir"]][1 if call["alias"] else 0]
        fi = max(call["if"], 0)
        args, objects, kwargs = [call["name"], world.interfaces[fi] if call["if"] >= 0 else world.unit], {}, {}
        if not call["name"]:
            raise Invalid("name")
        for side in call["dir"]:
            arg, objects[side] = world.spec_argument(call.get(f"{side.lower()}spec"), fi)
            args.append(arg)
        if call["dir"] == "R":
            args.append(call["unconnected"])
        if call["category"]:
            kwargs["category"] = call["category"]
        if call["bogus"]:
            kwargs["bogus"] = 1
        return getattr(comp, name), args, kwargs, objects
    if call["do"] == "proto":
        source = world.comps[call["type"]] if call["type"] >= 0 else {-1: world.unit, -2: None}[call["type"]]
        kwargs = {"name": call["name"] or ("X" if source is None else None)}
        if call["bogus"]:
            kwargs["bogus"] = 1
        if call["category"]:
            kwargs["category"] = call["category"]
        return comp.create_component_prototype, [source], kwargs, {}
    if call["do"] == "connect":
        return comp.create_connector, [*call["ends"], world.ws], {}, {}
    what = call["what"]
    cls = {"port": getattr(ar, PORTS[call["kind"]][0]), "component": ar.SwComponentPrototype, "connector": ar.AssemblySwConnector,
           "junk-port": ar.SwComponentPrototype, "junk-component": ar.RequirePortPrototype, "junk-connector": ar.ProvidePortPrototype}[what]
    func = getattr(comp, f"append_{what.replace('junk-', '')}", None)
    if func is None:
        def func(_obj):
            raise TypeError("not a composition")
    return func, [cls(call["name"])], {}, {}


def added(world, env, call, before, after, result, check, objects, brief):
    """Exactly the wanted part was added"""
    ci, ar = call["c"], world.ar
    what = {"port": 0, "proto": 1, "connect": 2}.get(call["do"])
    if what is None:
        what = {"port": 0, "component": 1, "connector": 2}[call["what"]]
    for i, (old, new) in enumerate(zip(before[1], after[1])):
        for k in range(3):
            extra = new[k][len(old[k]):]
            if [id(x) for x in new[k][:len(old[k])]] != [id(x) for x in old[k]] or len(extra) != (1 if (i, k) == (ci, what) else 0):
                raise Violation("parts-wrong", f"{brief}: {[x.name for x in old[k]]} became {[x.name for x in new[k]]}")
    part = after[1][ci][what][-1]
    res = canon.diff(before[0], canon.canon(without(world, ci, what)))
    restore(world, ci, what, part)
    if res:
        raise Violation("unrelated-change", f"{brief}: {res[0]}: {res[1]!r:.200} became {res[2]!r:.200}")
    if part.name in world.parts[ci]:
        raise Violation("name-not-unique", f"{brief}: {part.name} is used twice")
    if part.parent is not world.comps[ci]:
        raise Violation("parent-wrong", f"{brief}: parent of {part.name} is {type(part.parent).__name__}")
    if call["do"] == "append":
        world.parts[ci][part.name] = {"port": ("port", call["kind"], None), "component": ("proto", None), "connector": ("connector",)}[call["what"]]
        world.objects[ci][part.name] = part
        return
    if result is not part:
        raise Violation("result-wrong", f"{brief}: returned {type(result).__name__}, not the new part")
    if call["do"] == "port":
        check_port(world, env, call, part, check, objects, brief)
        world.parts[ci][part.name] = ("port", call["dir"], call["if"])
    elif call["do"] == "proto":
        want = (check, world.path(call["type"]), {"C": "COMPOSITION_SW_COMPONENT_TYPE", "A": "APPLICATION_SW_COMPONENT_TYPE"}[
            world.plan["comps"][call["type"]]["kind"]], call["category"])
        have = (part.name, str(part.type_ref), part.type_ref.dest.name, part.category)
        if have != want:
            raise Violation("prototype-wrong", f"{brief}: {have} instead of {want}")
        world.parts[ci][part.name] = ("proto", call["type"])
    else:
        ends = [resolve(world, ci, text) for text in call["ends"]]
        check_connector(world, env, ci, part, ends, brief)
        world.parts[ci][part.name] = ("connector",)
    world.objects[ci][part.name] = part
    if hasattr(part, "ref") and call["do"] != "connect" and str(part.ref()) != world.path(ci, part.name):
        raise Violation("wrong-reference", f"{brief}: {part.ref()}")


def live_list(world, ci, what):
    return getattr(world.comps[ci], ["ports", "components", "connectors"][what])


def without(world, ci, what):
    """The packages with the new part taken out for a moment"""
    live_list(world, ci, what).pop()
    return world.packages


def restore(world, ci, what, part):
    live_list(world, ci, what).append(part)


def check_port(world, env, call, part, check, objects, brief):
    """A new port is as asked for"""
    kind = world.plan["interfaces"][call["if"]]["kind"]
    want = (PORTS[call["dir"]][0], call["name"], world.plan["interfaces"][call["if"]]["path"], DESTS[kind], call["category"])
    ref = part.port_interface_ref
    have = (type(part).__name__, part.name, str(ref), getattr(getattr(ref, "dest", None), "name", None), part.category)
    if have != want:
        raise Violation("port-wrong", f"{brief}: {have} instead of {want}")
    if call["dir"] == "R" and part.allow_unconnected is not call["unconnected"]:
        raise Violation("port-wrong", f"{brief}: allow_unconnected {part.allow_unconnected}")
    if check is None:
        return
    for side in call["dir"]:
        have = part.com_spec if len(call["dir"]) == 1 else part.provided_com_spec if side == "P" else part.required_com_spec
        if objects[side]:
            env.probe("com-spec object")
        if len(check[side]) > 1:
            env.probe("several com-specs")
        match_specs(have, check[side], objects[side], world.ar, brief)


def check_connector(world, env, ci, part, ends, brief):
    """A new connector joins the two ports in their roles"""
    def port_ref(end):
        return world.path(end[1], end[2]), PORTS[world.parts[end[1]][end[2]][1]][1]

    def form(ref):
        return str(ref), getattr(getattr(ref, "dest", None), "name", None)

    def inner(iref):
        return None if iref is None else (str(iref.component_ref), form(iref.port_ref))
    inside = [e for e in ends if e[0] is not None]
    sides = [world.parts[e[1]][e[2]][1] for e in ends]
    options = []
    for one, two, side1, side2 in ((ends[0], ends[1], *sides), (ends[1], ends[0], *reversed(sides))):
        if len(inside) == 1:
            if one[0] is not None:
                options.append(("DelegationSwConnector", (world.path(ci, one[0]), port_ref(one)), port_ref(two)))
        elif side1 != "R" and side2 != "P":
            if inside:
                options.append(("AssemblySwConnector", (world.path(ci, one[0]), port_ref(one)), (world.path(ci, two[0]), port_ref(two))))
            else:
                options.append(("PassThroughSwConnector", port_ref(one), port_ref(two)))
    kind = type(part).__name__
    if kind == "AssemblySwConnector":
        have = (kind, inner(part.provide_port), inner(part.require_port))
        env.probe("assembly")
    elif kind == "DelegationSwConnector":
        have = (kind, inner(part.inner_port), form(part.outer_port))
        env.probe("delegation")
    else:
        have = (kind, form(part.provide_port), form(part.require_port))
        env.probe("pass-through")
    if have not in options:
        raise Violation("connector-wrong", f"{brief}: {have} instead of {options}")


def names_found(world, where):
    """Every part is found by its name, and nothing else is"""
    for ci, parts in enumerate(world.parts):
        comp = world.comps[ci]
        for name, part in parts.items():
            obj = world.objects[ci][name]
            if comp.find(name) is not obj or world.ws.find(world.path(ci, name)) is not obj:
                raise Violation("not-found", f"{where}: {world.path(ci, name)}")
            if part[0] == "port":
                if (comp.find_p_port(name) is obj) != (part[1] != "R") or (comp.find_r_port(name) is obj) != (part[1] != "P"):
                    raise Violation("not-found", f"{where}: {part[1]} port {world.path(ci, name)} by direction")
        if comp.find("Nope") is not None or comp.find_p_port("Nope") is not None or comp.find_r_port("Nope") is not None:
            raise Violation("found-nothing", f"{where}: an object called Nope")


def lookup(world, env, call):
    """Elements of a port's interface"""
    env.probe("looked up")
    ci, comp = call["c"], world.comps[call["c"]]
    if call["what"] == "names":
        for attr, side in (("provide_ports", "P"), ("require_ports", "R"), ("pr_ports", "PR")):
            have = [p.name for p in getattr(comp, attr)]
            want = [n for n, p in world.parts[ci].items() if p[0] == "port" and p[1] == side]
            if have != want:
                raise Violation("ports-wrong", f"{call}: {attr} {have} instead of {want}")
        return
    part = world.parts[ci].get(call["port"])
    if part is None or part[0] != "port" or part[2] is None:
        return
    port = world.objects[ci][call["port"]]
    iface, elems = world.plan["interfaces"][part[2]], list(world.elems[part[2]])
    kind = {"data": "SR", "operation": "CS", "mode": "MS"}[call["what"]]
    name = call["elem"]
    if iface["kind"] != kind:
        want = "raises"
    elif call["what"] == "mode":
        want = elems[0] if elems else None
    elif name is None:
        want = elems[0] if len(elems) == 1 else "raises"
    else:
        want = name if name in elems else None
    func = {"data": comp.get_data_element_in_port, "operation": comp.get_operation_in_port,
            "mode": comp.get_mode_declaration_group_in_port}[call["what"]]
    try:
        have = func(port) if call["what"] == "mode" else func(port, name)
        have = have and str(have.ref())
    except Exception:  # pylint: disable=broad-exception-caught
        have = "raises"
    if want not in (None, "raises"):
        want = f"{world.plan['interfaces'][part[2]]['path']}/{want}"
    if have != want and not (want is None and have == "raises"):
        raise Violation("lookup-wrong", f"{call}: {have} instead of {want}")


def serialise(world, env):
    """What was built can be written and read back"""
    env.probe("serialised")
    doc = env.mod.document.Document()
    for package in world.ws.packages:
        doc.append(package)
    try:
        text = env.must("write", env.mod.writer.Writer().write_str, doc)
        back = env.must("read", env.mod.reader.Reader().read_str, text)
    finally:
        for package in world.ws.packages:
            package.parent = world.ws
    res = canon.diff(canon.canon(list(world.ws.packages)), canon.canon(list(back.packages)))
    if res:
        raise Violation("serialised-form-differs", f"{res[0]}: {res[1]!r:.300} read back as {res[2]!r:.300}")
