"""C18: an element built step by step is the element built at once; a step that fails changes nothing else"""
import copy

from .. import canon, gen, interrupt, refs, work
from ..core import Invalid, Violation, describe

PROPERTY = "C18"
QUICK = 10400
THOROUGH = 200000
RULE = ("a run constructs elements in a package, then grows them and the parts inside them by append, extend and create "
        "calls, some with wrong arguments, failing iterators or interrupted at an arbitrary library line, and adds elements "
        "by the make functions; after each call the whole package is compared with what its description asks for, at the "
        "end with the same elements constructed at once; distinct = different sequences of (class, method, outcome)")
COMPONENTS = {"real": ["autosar.xml.element", "autosar.xml.reference", "autosar.xml.writer", "autosar.xml.reader"],
              "simulated": ["exceptions at chosen executed lines (interrupt)", "iterators that fail"],
              "oracle": ["the description of the elements (gen.conforms)", "the same elements constructed at once",
                         "independent expansion of the make functions"]}
ASSUMPTIONS = ["names given to parts of one element differ"]
PROBES = ["appended", "created", "extended", "made", "rejected", "iterator failed", "interrupted before", "interrupted after",
          "grown twice", "argument list shared", "serialised", "deep target"]

# class: {method: (constructor parameter, item classes, mode)}; "+X" stands for a reference of class X
GROW = {
    "Code": {"append_artifact_descriptor": ("artifact_descriptors", ["AutosarEngineeringObject"], "append")},
    "SwcImplementation": {"append_code_descriptor": ("code_descriptors", ["Code"], "append")},
    "SwDataDefProps": {"append": ("variants", ["SwDataDefPropsConditional"], "append")},
    "ImplementationDataTypeElement": {"append": ("sub_elements", ["ImplementationDataTypeElement"], "append")},
    "ImplementationDataType": {"append": ("sub_elements", ["ImplementationDataTypeElement"], "append")},
    "ApplicationRecordDataType": {"append": ("elements", ["ApplicationRecordElement"], "append"),
                                  "extend": ("elements", ["ApplicationRecordElement"], "extend")},
    "DataTypeMappingSet": {"append": ("data_type_maps", ["DataTypeMap"], "append")},
    "ValueList": {"append": ("values", ["NumericalValue", "#"], "append")},
    "SwValues": {"append": ("values", ["NumericalValue", "ValueGroup", "#"], "append")},
    "ValueGroup": {"append": ("values", ["NumericalValue", "ValueGroup", "#"], "append")},
    "ArrayValueSpecification": {"append": ("elements", [
        "TextValueSpecification", "NumericalValueSpecification", "NotAvailableValueSpecification", "ConstantReference",
        "ArrayValueSpecification", "RecordValueSpecification", "ApplicationValueSpecification"], "append")},
    "RecordValueSpecification": {"append": ("fields", [
        "TextValueSpecification", "NumericalValueSpecification", "NotAvailableValueSpecification", "ConstantReference",
        "ArrayValueSpecification", "RecordValueSpecification", "ApplicationValueSpecification"], "append")},
    "ModeDeclarationGroup": {"append_mode_declaratation": ("mode_declarations", ["ModeDeclaration"], "append"),
                             "create_mode_declaration": ("mode_declarations", ["ModeDeclaration"], "create"),
                             "append_mode_transition": ("mode_transitions", ["ModeTransition"], "append")},
    "SenderReceiverInterface": {"append_data_element": ("data_elements", ["VariableDataPrototype"], "append"),
                                "create_data_element": ("data_elements", ["VariableDataPrototype"], "create"),
                                "append_invalidation_policy": ("invalidation_policies", ["InvalidationPolicy"], "append"),
                                "create_invalidation_policy": ("invalidation_policies", ["InvalidationPolicy"], "create")},
    "NvDataInterface": {"append_data_element": ("data_elements", ["VariableDataPrototype"], "append"),
                        "create_data_element": ("data_elements", ["VariableDataPrototype"], "create")},
    "ParameterInterface": {"append_parameter": ("parameters", ["ParameterDataPrototype"], "append"),
                           "create_parameter": ("parameters", ["ParameterDataPrototype"], "create")},
    "ClientServerOperation": {"append_argument": ("arguments", ["ArgumentDataPrototype"], "append"),
                              "create_argument": ("arguments", ["ArgumentDataPrototype"], "create"),
                              "create_in_argument": ("arguments", ["ArgumentDataPrototype"], "create"),
                              "create_inout_argument": ("arguments", ["ArgumentDataPrototype"], "create"),
                              "create_out_argument": ("arguments", ["ArgumentDataPrototype"], "create"),
                              "append_possible_error_ref": ("possible_error_refs", ["+ApplicationErrorRef"], "append"),
                              "create_possible_error_ref": ("possible_error_refs", ["+ApplicationErrorRef"], "create")},
    "ClientServerInterface": {"append_operation": ("operations", ["ClientServerOperation"], "append"),
                              "create_operation": ("operations", ["ClientServerOperation"], "create"),
                              "append_possible_errors": ("possible_errors", ["ApplicationError"], "append"),
                              "create_possible_error": ("possible_errors", ["ApplicationError"], "create")},
    "ModeSwitchInterface": {"create_mode_group": ("mode_group", ["ModeDeclarationGroupPrototype"], "replace")},
    "ProvidePortPrototype": {"append_com_spec": ("com_spec", gen.SUBCLASSES["ProvidePortComSpec"], "append")},
    "RequirePortPrototype": {"append_com_spec": ("com_spec", gen.SUBCLASSES["RequirePortComSpec"], "append")},
    "PRPortPrototype": {"append_com_spec": ("provided_com_spec", gen.SUBCLASSES["ProvidePortComSpec"], "append"),
                        "append_com_spec ": ("required_com_spec", gen.SUBCLASSES["RequirePortComSpec"], "append")},
    "ServerComSpec": {"append_transformation_com_spec_props": (
        "transformation_com_spec_props", ["EndToEndTransformationComSpecProps"], "append")},
    "ApplicationSoftwareComponentType": {"append_port": (
        "ports", ["ProvidePortPrototype", "RequirePortPrototype", "PRPortPrototype"], "append")},
    "CompositionSwComponentType": {
        "append_port": ("ports", ["ProvidePortPrototype", "RequirePortPrototype", "PRPortPrototype"], "append"),
        "append_component": ("components", ["SwComponentPrototype"], "append"),
        "append_connector": ("connectors", ["AssemblySwConnector", "DelegationSwConnector", "PassThroughSwConnector"],
                             "append")},
    "ArVariableInImplementationDataInstanceRef": {"append_context_data_protype_ref": (
        "context_data_prototype_refs", ["+AbstractImplementationDataTypeElementRef"], "append")},
    "VariableInAtomicSWCTypeInstanceRef": {"append_context_data_protype_ref": (
        "context_data_prototype_refs", ["+ApplicationCompositeElementDataPrototypeRef"], "append")},
    "RunnableEntity": {
        "append_activation_reason": ("activation_reasons", ["ExecutableEntityActivationReason"], "append"),
        "append_can_enter_leave": ("can_enter_leave", ["ExclusiveAreaRefConditional"], "append"),
        "append_exclusive_area_nesting_order": ("exclusive_area_nesting_order", ["+ExclusiveAreaNestingOrderRef"], "append"),
        "append_runs_insides": ("runs_insides", ["ExclusiveAreaRefConditional"], "append"),
        "append_argument": ("argument", ["RunnableEntityArgument"], "append"),
        "append_async_server_call_result_point": ("async_server_call_result_point", ["AsynchronousServerCallResultPoint"],
                                                  "append"),
        "append_data_read_access": ("data_read_access", ["VariableAccess"], "append"),
        "append_data_receive_point_by_argument": ("data_receive_point_by_argument", ["VariableAccess"], "append"),
        "append_data_receive_point_by_value": ("data_receive_point_by_value", ["VariableAccess"], "append"),
        "append_data_send_point": ("data_send_point", ["VariableAccess"], "append"),
        "append_data_write_access": ("data_write_access", ["VariableAccess"], "append"),
        "append_external_triggering_point": ("external_triggering_point", ["ExternalTriggeringPoint"], "append"),
        "append_internal_triggering_point": ("internal_triggering_point", ["InternalTriggeringPoint"], "append"),
        "append_mode_access_point": ("mode_access_point", ["ModeAccessPoint"], "append"),
        "append_mode_switch_point": ("mode_switch_point", ["ModeSwitchPoint"], "append"),
        "append_parameter_access": ("parameter_access", ["ParameterAccess"], "append"),
        "append_read_local_variable": ("read_local_variable", ["VariableAccess"], "append"),
        "append_write_local_variable": ("write_local_variable", ["VariableAccess"], "append"),
        "append_server_call_point": ("server_call_point", ["AsynchronousServerCallPoint", "SynchronousServerCallPoint"],
                                     "append"),
        "append_wait_point": ("wait_point", ["WaitPoint"], "append")},
    "PortApiOption": {"append_port_arg_value": ("port_arg_values", ["PortDefinedArgumentValue"], "append"),
                      "append_supported_feature": ("supported_features", ["CommunicationBufferLocking"], "append")},
    "SwcInternalBehavior": {
        "append_data_type_mapping": ("data_type_mappings", ["+DataTypeMappingSetRef"], "append"),
        "append_exclusive_area": ("exclusive_areas", ["ExclusiveArea"], "append"),
        "create_exclusive_area": ("exclusive_areas", ["ExclusiveArea"], "create"),
        "append_runnable": ("runnables", ["RunnableEntity"], "append"),
        "append_event": ("events", gen.SUBCLASSES["RteEvent"], "append"),
        "append_port_api_option": ("port_api_options", ["PortApiOption"], "append")},
}
for _name in ("ClientComSpec", "NonqueuedReceiverComSpec", "QueuedReceiverComSpec"):
    GROW[_name] = GROW["ServerComSpec"]
for _name in gen.SUBCLASSES["RteEvent"]:
    GROW[_name] = {"append_disabled_mode": ("disabled_modes", ["RModeInAtomicSwcInstanceRef"], "append")}
# arguments a creating method settles by itself
FIXED = {"create_in_argument": {"direction": {"e": "ArgumentDirection.IN"}},
         "create_inout_argument": {"direction": {"e": "ArgumentDirection.INOUT"}},
         "create_out_argument": {"direction": {"e": "ArgumentDirection.OUT"}}}
JUNK = ["None", "object", "class", "unit"]
MAKERS = ["value_table", "rational", "internal", "physical", "constant"]
FAVOURED = ["ApplicationRecordDataType", "ApplicationRecordDataType", "ModeSwitchInterface", "ClientServerInterface",
            "SenderReceiverInterface", "NvDataInterface", "ParameterInterface", "ModeDeclarationGroup"]
TARGETS = sorted(c for c in GROW if c in gen.DIST)


# --- plans

def generate(rng, profile):
    """Elements, then calls"""
    g = gen.Gen(rng, size=2, density=rng.choice([0.1, 0.25, 0.4]), exotic_text=rng.choice([0, 0.3]))
    plan = {"elements": [], "ops": [], "write": rng.random() < 0.3}
    for i in range(rng.choice([1, 2, 2, 3])):
        desc = g.aimed(rng.choice(FAVOURED if rng.random() < 0.45 else TARGETS))
        desc["a"]["name"] = f"E{i}"
        plan["elements"].append(desc)
    state = copy.deepcopy(plan["elements"])
    focus = None
    for number in range(rng.choice([2, 5, 10, 20])):
        roll = rng.random()
        if roll < 0.12:
            earlier = [o for o in plan["ops"] if o["op"] == "make" and o["how"] == "constant"]
            if earlier and rng.random() < 0.4:
                op = {**copy.deepcopy(rng.choice(earlier)), "name": f"M{number}"}     # the same data again
            else:
                op = make_op(rng, g, f"M{number}")
            plan["ops"].append(op)
            if op["bad"] is None:
                state.append(expand(op))
                found = [t for t in targets(state) if t[0][0] == len(state) - 1]
                if found and rng.random() < 0.6:
                    focus = rng.choice(found)
            continue
        found = targets(state)
        if not found:
            break
        if focus is None or rng.random() < 0.5:
            focus = rng.choice(found)
        path, target = focus
        if not any(t is target for _, t in found):
            continue
        methods = sorted(GROW[target["$"]])
        creating = [m for m in methods if GROW[target["$"]][m][2] in ("create", "replace")]
        method = rng.choice(creating if creating and rng.random() < 0.4 else methods)
        param, classes, mode = GROW[target["$"]][method]
        op = {"op": "grow", "at": path, "class": target["$"], "method": method, "junk": None, "at_line": None, "exc": None,
              "items": [item(rng, g, rng.choice(classes), f"{'N'}{number}", method)
                        for _ in range(rng.choice([0, 1, 2, 3]) if mode == "extend" else 1)]}
        if mode == "replace" and isinstance(target["a"].get(param), dict) and rng.random() < 0.5:
            op["items"][0]["a"]["name"] = target["a"][param]["a"]["name"]
        if roll < 0.28:
            op["junk"] = rng.choice(JUNK + (["keyword"] if mode in ("create", "replace") else [])
                                    + (["iterator", "late"] if mode == "extend" else []))
            lists = sorted(k for k, v in op["items"][0]["a"].items() if isinstance(v, list)) \
                if mode in ("create", "replace") and "a" in op["items"][0] else []
            if lists and rng.random() < 0.5:
                op["junk"], op["list"] = "in a list", rng.choice(lists)
        elif roll < 0.45:
            op["at_line"] = rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 13, 21, 40])
            op["exc"] = rng.choice(sorted(interrupt.EXCEPTIONS))
        elif roll < 0.55:
            op["shared"] = True
        plan["ops"].append(op)
        if op["junk"] is None and op["at_line"] is None:
            put(target, param, copy.deepcopy(op["items"]), mode)
        else:
            focus = None
    return plan


def item(rng, g, cls, name, method):
    """One new part"""
    if cls == "#":
        return rng.choice([g.integer(), g.floating()])
    if cls.startswith("+"):
        return g.ref(cls[1:])
    desc = g.obj(cls, 1, name=name)
    if desc["$"] == "PortApiOption":
        desc["a"]["port"] = {"r": "PortPrototypeRef", "v": f"/Swc/App/Port{name}", "d": "P_PORT_PROTOTYPE"}
    if method == "create_invalidation_policy":
        desc["a"].setdefault("data_element_ref", g.ref("VariableDataPrototypeRef"))
        desc["a"].setdefault("handle_invalid", g.enum("HandleInvalid"))
    desc["a"].update(FIXED.get(method, {}))
    return desc


def targets(state):
    """[(path, desc)] of every part that can grow"""
    out = []

    def walk(desc, path):
        if isinstance(desc, dict):
            if "$" in desc:
                if desc["$"] in GROW:
                    out.append((path, desc))
                for key, val in desc["a"].items():
                    if key in ("desc", "long_name", "introduction", "annotations") or \
                            (desc["$"] == "ValueGroup" and isinstance(val, dict)):
                        continue
                    walk(val, path + [key])
        elif isinstance(desc, list):
            for i, val in enumerate(desc):
                walk(val, path + [i])
    walk(state, [])
    return out


def put(target, param, items, mode):
    """Record growth in a description"""
    if mode == "replace":
        target["a"][param] = items[0]
        return
    have = target["a"].get(param, [])
    if isinstance(have, dict) and have.get("$") == "SwValues":      # a value group takes over the values of the object
        have = have["a"].get("values", [])
    if not isinstance(have, list):
        have = [have]
    if param == "data_type_mappings":
        have = [{"r": "DataTypeMappingSetRef", "v": x, "d": "DATA_TYPE_MAPPING_SET"} if isinstance(x, str) else x for x in have]
    if have + items:
        target["a"][param] = have + items


def make_op(rng, g, name):
    """A call of one of the make functions"""
    how = rng.choice(MAKERS)
    op = {"op": "make", "how": how, "name": name, "bad": None, "kwargs": {}}
    if how == "value_table":
        if rng.random() < 0.4:
            op["rows"] = [g.ident("V") for _ in range(rng.choice([1, 2, 3, 7]))]
        else:
            op["rows"] = []
            for i in range(rng.choice([1, 2, 3])):
                value = g.ident("V") if rng.random() < 0.7 else g.integer()
                limits = [g.integer() for _ in range(rng.choice([1, 2]))]
                op["rows"].append({"t": limits + [value]})
        if rng.random() < 0.4:
            op["kwargs"]["default_value"] = rng.choice([g.integer(), g.text()])
        if rng.random() < 0.4:
            op["kwargs"]["auto_label"] = rng.random() < 0.5
        if rng.random() < 0.2:
            op["bad"] = rng.choice(["long row", "row type"])
    elif how == "rational":
        for key in ("scaling_factor", "offset", "lower_limit", "upper_limit", "default_value"):
            if rng.random() < 0.6:
                op["kwargs"][key] = rng.choice([g.integer(), rng.choice([0.1, 1.0, -2.5, 1e-7, 0.25])])
        for key in ("lower_limit", "upper_limit"):
            if key in op["kwargs"] and rng.random() < 0.4:
                op["kwargs"][key + "_type"] = g.enum("IntervalType")
    elif how in ("internal", "physical"):
        desc = g.obj("InternalConstraint" if how == "internal" else "PhysicalConstraint", 0)
        op["kwargs"] = desc["a"]
    else:
        op["value"] = data(rng, g, 0)
        if rng.random() < 0.2:
            op["bad"] = rng.choice(["marker", "label", "long"])
    return op


def data(rng, g, depth):
    """Python data for make_value: plain, {"t": [label, value]}, {"l": ["A" or "R" ..., values]}"""
    roll = rng.random()
    if roll < 0.3 and depth < 3:
        value = {"l": [rng.choice(["A", "R", "a", "ARRAY", "record", "Array"])]
                 + [data(rng, g, depth + 1) for _ in range(rng.choice([1, 1, 2, 3]))]}
    elif roll < 0.4:
        value = None
    else:
        value = rng.choice([g.integer(), g.text(), rng.choice([0.5, -1.25, 1e22, 3.0])])
    if rng.random() < 0.3:
        if value is None and rng.random() < 0.5:
            return {"t": [g.ident("L"), None, rng.randrange(256)]}
        return {"t": [g.ident("L"), value]}
    return value


def python(desc):
    """The Python value of a data description"""
    if isinstance(desc, dict):
        if "t" in desc:
            return tuple(python(x) for x in desc["t"])
        return [python(x) for x in desc["l"]]
    return desc


def spec(desc):
    """The value specification that data stands for"""
    label = pattern = None
    if isinstance(desc, dict) and "t" in desc:
        label, desc, pattern = (desc["t"] + [None])[:3]
    args = {} if label is None else {"label": label}
    if isinstance(desc, dict):
        if desc["l"][0].upper() in ("A", "ARRAY"):
            return {"$": "ArrayValueSpecification", "a": {**args, "elements": [spec(x) for x in desc["l"][1:]]}}
        return {"$": "RecordValueSpecification", "a": {**args, "fields": [spec(x) for x in desc["l"][1:]]}}
    if desc is None:
        return {"$": "NotAvailableValueSpecification", "a": {**args, **({} if pattern is None else {"default_pattern": pattern})}}
    if isinstance(desc, str):
        return {"$": "TextValueSpecification", "a": {**args, "value": desc}}
    return {"$": "NumericalValueSpecification", "a": {**args, "value": desc}}


def expand(op):
    """The description of the element a make call has to yield"""
    kw = op["kwargs"]
    if op["how"] == "constant":
        return {"$": "ConstantSpecification", "a": {"name": op["name"], "value": spec(op["value"])}}
    if op["how"] in ("internal", "physical"):
        cls = "InternalConstraint" if op["how"] == "internal" else "PhysicalConstraint"
        rule = {"$": "DataConstraintRule", "a": {op["how"]: {"$": cls, "a": kw}}}
        return {"$": "DataConstraint", "a": {"name": op["name"], "rules": [rule]}}
    scales = []
    if op["how"] == "value_table":
        for i, row in enumerate(op["rows"]):
            parts = row["t"] if isinstance(row, dict) else [i, i, row]
            low, high, value = parts if len(parts) == 3 else [parts[0], parts[0], parts[1]]
            args = {"content": {"$": "CompuConst", "a": {"value": value}}, "lower_limit": low, "upper_limit": high}
            if isinstance(value, str) and kw.get("auto_label", True):
                args["label"] = value
            scales.append({"$": "CompuScale", "a": args})
    else:
        content = {"$": "CompuRational", "a": {"numerator": [kw.get("offset", 0), float(kw.get("scaling_factor", 1))],
                                               "denominator": [1]}}
        scales.append({"$": "CompuScale", "a": {"content": content, **{k: kw[k] for k in (
            "lower_limit", "upper_limit", "lower_limit_type", "upper_limit_type") if k in kw}}})
    args = {"compu_scales": scales}
    if "default_value" in kw:
        args["default_value"] = kw["default_value"]
    return {"$": "CompuMethod", "a": {"name": op["name"], "int_to_phys": {"$": "Computation", "a": args}}}


# --- runs

class World:
    """The live package and its description"""

    def __init__(self, plan, env):
        self.env, self.mod = env, env.mod
        self.state = copy.deepcopy(plan["elements"])
        self.live = {}          # id(description) -> object
        self.keep = []          # descriptions stay alive, so that an id stands for one of them
        self.package = env.mod.element.Package("Pkg")
        self.doc = env.mod.document.Document([self.package])
        for desc in self.state:
            self.package.append(env.build(self.construct, desc))

    def construct(self, desc):
        """gen.build, remembering which object each description became"""
        seen = []
        self.keep.append(desc)
        obj = gen.build(desc, self.mod, seen, spoil=True)
        self.live.update((id(d), o) for d, o in seen)
        return obj

    def adopt(self, desc, obj):
        """Learn which object each part of a description became, from the attributes"""
        if isinstance(desc, list):
            for part, live in zip(desc, obj if isinstance(obj, list) else [obj]):
                self.adopt(part, live)
        elif isinstance(desc, dict) and "$" in desc and type(obj).__name__ == desc["$"]:
            self.live[id(desc)] = obj
            for key, val in desc["a"].items():
                self.adopt(val, getattr(obj, key, None))

    def at(self, path):
        """The description at a path"""
        here = self.state
        for step in path:
            if isinstance(here, dict):
                here = here.get("a", {}).get(step) if "$" in here else None
                if isinstance(here, dict) and "$" not in here:
                    here = None
            elif isinstance(here, list) and isinstance(step, int) and step < len(here):
                here = here[step]
            elif step != 0 or here is None:
                here = None
            if here is None:
                return None
        return here


def parents(packages, mod):
    """[(path, path of the parent)] of everything that knows its parent, found by walking public state"""
    paths = {}
    order = []

    def walk(obj, path, depth):
        if depth > 40 or id(obj) in paths:
            return
        paths[id(obj)] = path
        order.append(obj)
        for name, val in refs.public(obj):
            if isinstance(val, dict):
                val = list(val.values())
            for i, part in enumerate(val if isinstance(val, (list, tuple)) else [val]):
                if type(part).__module__ == mod.element.__name__ and hasattr(part, "__dict__"):
                    walk(part, f"{path}.{name}[{i}]", depth + 1)
    for i, package in enumerate(packages):
        walk(package, f"[{i}]", 0)
    return [(paths[id(obj)], paths.get(id(obj.parent), "outside")) for obj in order
            if getattr(obj, "parent", None) is not None]


def run(plan, env):
    """One run"""
    if not all(gen.valid(d) for d in plan["elements"]):
        raise Invalid("elements")
    names = [d["a"].get("name") for d in plan["elements"]] + [op["name"] for op in plan["ops"] if op["op"] == "make"]
    if len(set(names)) != len(names) or not all(names):
        raise Invalid("names")
    world = World(plan, env)
    before = canon.canon(world.package)
    agree(world, "construction")
    history = []
    for number, op in enumerate(plan["ops"]):
        env.steps += 1
        if op["op"] == "make":
            outcome, before = make(world, op, before)
            history.append((op["how"], outcome))
        else:
            outcome, before = grow(world, op, before)
            history.append((op["class"], op["method"], outcome))
        env.log(number, *history[-1])
    grown = [(h[0], h[1]) for h in history if h[-1] == "ok" and len(h) == 3]
    if len(set(grown)) < len(grown):
        env.probe("grown twice")
    at_once(world)
    if plan["write"]:
        serialise(world)
    env.shape(*history)


def agree(world, where):
    """The live elements carry what their descriptions ask for"""
    if len(world.package.elements) != len(world.state):
        raise Violation("element-count", f"{where}: {len(world.package.elements)} elements instead of {len(world.state)}")
    for desc, live in zip(world.state, world.package.elements):
        res = gen.conforms(desc, live, world.mod)
        if res:
            raise Violation("content-differs", f"after {where}: {desc['$']}{res}")


def at_once(world):
    """The same elements, constructed at once, are the same"""
    other = world.mod.element.Package("Pkg")
    doc = world.mod.document.Document([other])
    for desc in world.state:
        other.append(world.env.must("construct-at-once", gen.build, desc, world.mod))
    res = canon.diff(canon.canon(other), canon.canon(world.package))
    if res:
        raise Violation("differs-from-constructed", f"{res[0]}: constructed at once {res[1]!r:.200}, grown {res[2]!r:.200}")
    res = canon.diff(parents(doc.packages, world.mod), parents(world.doc.packages, world.mod))
    if res:
        raise Violation("parent-differs", f"{res}")
    wrong = refs.wrong_refs(world.doc.packages, world.mod)
    if wrong:
        raise Violation("wrong-reference", wrong)


def serialise(world):
    """What was grown can be written and read back"""
    env = world.env
    env.probe("serialised")
    text = env.must("write", env.mod.writer.Writer().write_str, world.doc)
    back = env.must("read", env.mod.reader.Reader().read_str, text)
    res = canon.diff(canon.canon(list(world.doc.packages)), canon.canon(list(back.packages)))
    if res:
        raise Violation("serialised-form-differs", f"{res[0]}: {res[1]!r:.300} read back as {res[2]!r:.300}")


def make(world, op, before):
    """A make function, then append to the package"""
    e, env = world.mod.element, world.env
    kwargs = {k: gen.build(v, world.mod) for k, v in op["kwargs"].items()}
    brief = f"make {op['how']} {op.get('rows', op.get('value', op['kwargs']))}, bad={op['bad']}"[:400]

    def call():
        if op["how"] == "constant":
            value = python(op["value"])
            if op["bad"]:
                value = {"marker": ["X", value], "label": (5, value), "long": ("L", 1, 2, 3)}[op["bad"]]
            return e.ConstantSpecification.make_constant(op["name"], value)
        if op["how"] == "internal":
            return e.DataConstraint.make_internal(op["name"], **kwargs)
        if op["how"] == "physical":
            return e.DataConstraint.make_physical(op["name"], **kwargs)
        if op["how"] == "rational":
            return e.CompuMethod(op["name"], int_to_phys=e.Computation.make_rational(**kwargs))
        rows = [python(r) for r in op["rows"]]
        if op["bad"]:
            rows.append((1, 2, 3, "x") if op["bad"] == "long row" else None)
        return e.CompuMethod(op["name"], int_to_phys=e.Computation.make_value_table(rows, **kwargs))
    raised = made = None
    try:
        made = call()
    except Exception as exc:  # pylint: disable=broad-exception-caught
        raised = exc
    if op["bad"]:
        if raised is None:
            raise Violation("make-not-rejected", brief)
        same(before, canon.canon(world.package), brief, "rejected-make-changed-state")
        env.probe("rejected")
        return "rejected", before
    if raised is not None:
        raise Violation("make-raised", f"{brief}: {describe(raised)}") from raised
    desc = copy.deepcopy(expand(op))
    env.must("append", world.package.append, made)
    world.state.append(desc)
    world.adopt(desc, made)
    env.probe("made")
    after = canon.canon(world.package)
    agree(world, brief)
    return "ok", after


def same(before, after, call, kind):
    """Nothing changed"""
    res = canon.diff(before, after)
    if res:
        raise Violation(kind, f"{call}: {res[0]}: {res[1]!r:.200} became {res[2]!r:.200}")


def failing(items):
    """An iterable that fails after its items"""
    yield from items
    raise RuntimeError("iterator failed")


def junk(kind, world):
    """A value no method takes"""
    return {"None": None, "object": object(), "class": world.mod.element.Unit,
            "unit": world.mod.element.Unit("Wrong")}[kind]


def grow(world, op, before):
    """One append, extend or create call"""
    env, mod = world.env, world.mod
    target = world.at(op["at"])
    if op["method"] not in GROW[op["class"]] or not op["items"] and op["method"] != "extend" or \
            not all(map(gen.valid, op["items"])):
        raise Invalid("call")
    if not isinstance(target, dict) or target.get("$") != op["class"] or id(target) not in world.live:
        return "skipped", before        # the part was not added, because its call was interrupted
    obj = world.live[id(target)]
    if len(op["at"]) > 2:
        env.probe("deep target")
    param, _, mode = GROW[op["class"]][op["method"]]
    func = getattr(obj, op["method"].strip())
    items = copy.deepcopy(op["items"])
    world.keep.append(items)
    brief = f"{op['class']}.{op['method'].strip()}({items}) junk={op['junk']} line={op['at_line']}"[:400]
    args, kwargs, result_of = [], {}, None
    if mode in ("append", "extend"):
        built = [env.build(world.construct, x) for x in items]
        args = [list(built)] if mode == "extend" else built
    elif isinstance(items[0], dict) and "$" in items[0]:
        kwargs = {k: env.build(world.construct, v) for k, v in items[0]["a"].items() if k not in FIXED.get(op["method"], {})}
        result_of = items[0]
    else:
        args = [items[0]["v"]]
        result_of = items[0]
    if op["junk"] == "keyword":
        kwargs["no_such_parameter"] = 1
    elif op["junk"] == "in a list":
        if not isinstance(kwargs.get(op.get("list")), list):
            return "skipped", before
        kwargs[op["list"]].append(junk("object", world))
    elif op["junk"] in ("iterator", "late"):
        if mode != "extend":
            raise Invalid("junk")
        args = [failing(args[0])] if op["junk"] == "iterator" else [args[0] + [junk("unit", world)]]
    elif op["junk"]:
        if mode == "create" and op["method"] != "create_invalidation_policy" or mode == "replace":
            kwargs = {**kwargs, "desc": junk(op["junk"], world)}
            if op["junk"] == "None" or not kwargs.get("name"):
                return "skipped", before
        elif mode == "create":
            kwargs["data_element_ref"] = junk(op["junk"], world)
        else:
            args = [junk(op["junk"], world)]
    raised = result = None
    if op["at_line"] is not None:
        with interrupt.clock(op["at_line"], op["exc"]) as clock:
            try:
                result = func(*args, **kwargs)
            except BaseException as exc:  # pylint: disable=broad-exception-caught
                raised = exc
        if clock.fired:
            env.fault(op["exc"])
            return interrupted(world, op, target, obj, items, before, brief)
        brief += " (not interrupted)"
    else:
        try:
            result = func(*args, **kwargs)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            raised = exc
    after = canon.canon(world.package)
    if op["junk"]:
        if raised is None:
            raise Violation("call-not-rejected", brief)
        same(before, after, brief, "rejected-call-changed-state")
        env.probe("iterator failed" if op["junk"] == "iterator" else "rejected")
        if op["junk"] == "iterator":
            env.fault("argument iterator fails")
        return "rejected", before
    if raised is not None:
        raise Violation("call-raised", f"{brief}: {describe(raised)}") from raised
    if result_of is not None:
        if result is None:
            raise Violation("no-result", brief)
        if not contains(getattr(obj, param), result):
            raise Violation("result-not-added", f"{brief}: the returned object is not in {param}")
        world.live[id(result_of)] = result
        gen.spoil_lists("", kwargs)
    put(target, param, items, mode)
    agree(world, brief)
    if op.get("shared") and mode == "extend":
        args[0].append("changed afterwards")
        same(after, canon.canon(world.package), brief, "argument-list-shared")
        env.probe("argument list shared")
    env.probe({"append": "appended", "extend": "extended"}.get(mode, "created"))
    return "ok", after


def contains(held, obj):
    """Whether an attribute holds this very object"""
    held = list(held.values()) if isinstance(held, dict) else held if isinstance(held, (list, tuple)) else [held]
    return any(x is obj for x in held)


def interrupted(world, op, target, obj, items, before, brief):
    """After an interrupted call: everything else is untouched, the target holds the old parts and maybe new ones"""
    env = world.env
    param, _, mode = GROW[op["class"]][op["method"]]
    after = canon.canon(world.package)
    if canon.diff(before, after) is None:
        env.probe("interrupted before")
        return "interrupted before", before
    for done in range(1, len(items) + 1):
        trial = copy.deepcopy(target)
        put(trial, param, items[:done], mode)
        if gen.conforms(trial, obj, world.mod) is None:
            break
    else:
        raise Violation("interrupted-call-left-damage", f"{brief}: {canon.diff(before, after)!r:.300}")
    held = getattr(obj, param)
    held = list(held.values()) if isinstance(held, dict) else held if isinstance(held, list) else [held]
    for desc, part in zip(items[:done], held[-done:]):
        if isinstance(desc, dict) and "$" in desc:
            world.live[id(desc)] = part
        for holder in (part, getattr(part, "ident", None)):     # what was attached last may not know its parent yet
            if hasattr(holder, "parent") and holder.parent is None:
                holder.parent = obj
    put(target, param, items[:done], mode)
    agree(world, brief)
    env.probe("interrupted after")
    return "interrupted after", canon.canon(world.package)
