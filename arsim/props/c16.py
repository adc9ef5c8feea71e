"""C16: loading a configuration file is all-or-nothing"""
import copy
import errno
import json
import posixpath
import tomllib

from .. import canon, work
from ..core import Invalid, Violation, describe

PROPERTY = "C16"
QUICK = 19500
THOROUGH = 400000
RULE = ("a run makes 2-9 configuration loads (and API calls between them) on one workspace: valid, invalid at a random place, "
        "damaged on disk, missing, or under disk faults; after each the configuration is compared with a reference model that "
        "applies all or nothing, at the end with a new workspace that made only the successful loads, and the documents both "
        "write; distinct = different sequence of (content shape, damage, faults fired, outcome)")
COMPONENTS = {"real": ["autosar.xml.workspace", "autosar.xml.element (BehaviorSettings)", "autosar.xml.writer", "CPython io stack, tomllib"],
              "simulated": ["results of open/read below the scratch directory (simio)"],
              "oracle": ["reference model of the configuration", "new workspace with only the successful loads"]}
ASSUMPTIONS = ["unknown keys may be ignored or rejected", "namespace base references are absolute"]
PROBES = ["invalid rejected", "unreadable", "damaged rejected", "damaged accepted", "success after failure", "documents written",
          "loaded by constructor", "invalid after valid entries", "namespace redefined", "premature end", "not a file", "same file again"]

ROLES = {"APPLICATION_DATA_TYPE": "ApplicationDataType", "BASE_TYPE": "BaseType", "COMPONENT_TYPE": "ComponentType",
         "COMPU_METHOD": "CompuMethod", "DATA_CONSTRAINT": "DataConstraint", "IMPLEMENTATION_DATA_TYPE": "ImplementationDataType",
         "MODE_DECLARATION": "ModeDeclaration", "PORT_INTERFACE": "PortInterface", "UNIT": "Unit", "CONSTANT": "Constant"}
KNOWN_ROLES = {**{k: k for k in ROLES}, **{v: k for k, v in ROLES.items()}}
PATHS = ["DataTypes", "/DataTypes/BaseTypes", "A/B", "../X", ".", "/", "Units/"]
BASES = ["/", "/Base", "/Base/Sub"]
PACKAGES = ["/Units", "/Types", "/Types/Sub", "/Comps", "/Gone"]
TYPES = ["Unit", "SwBaseType", "CompuMethod", "ImplementationDataType", "SwComponentType", "ApplicationSoftwareComponentType",
         "ConstantSpecification", "ARElement"]
SETTINGS = ["background_event_prefix", "data_receive_error_event_prefix", "data_receive_event_prefix", "init_event_prefix",
            "operation_invoked_event_prefix", "swc_mode_manager_error_event_prefix", "swc_mode_switch_event_prefix",
            "timing_event_prefix", "data_read_access_prefix", "data_receive_point_prefix", "data_send_point_prefix",
            "data_write_access_prefix", "mode_access_point_prefix", "mode_switch_point_prefix", "parameter_access_prefix",
            "server_call_point_prefix", "wait_point_prefix"]
# (section, how): an entry that makes the content invalid
POISON = [("namespace", "role"), ("namespace", "path"), ("namespace", "table"), ("namespace", "section"),
          ("document", "type"), ("document", "item"), ("document", "table"), ("document", "section"),
          ("document_mapping", "no_package"), ("document_mapping", "no_types"), ("document_mapping", "empty_types"),
          ("document_mapping", "type_name"), ("document_mapping", "type_kind"), ("document_mapping", "type_item"),
          ("document_mapping", "suffix_kind"), ("document_mapping", "suffix_item"), ("document_mapping", "table"),
          ("document_mapping", "section"), ("document_mapping", "function"), ("behavior", "name"), ("behavior", "value"),
          ("behavior", "section")]


def gen_config(rng):
    """A valid configuration, as nested dicts in file order"""
    sections = rng.sample(["namespace", "document", "document_mapping", "behavior"], rng.choice([1, 2, 3, 4, 4]))
    out = {}
    for section in sections:
        if section == "namespace":
            table = {}
            for name in rng.sample(["Default", "AUTOSAR_Platform", "A b", "x.y"], rng.choice([0, 1, 1, 2, 3])):
                entry = {}
                for role in rng.sample(sorted(KNOWN_ROLES) + ["!Custom", "!x", "!BaseType"], rng.choice([0, 1, 2, 5])):
                    entry[role] = rng.choice(PATHS)
                if rng.random() < 0.4:
                    entry["base_ref"] = rng.choice(BASES)
                table[name] = entry
            out[section] = table
        elif section == "document":
            table = {}
            for name in rng.sample(["Types", "Units", "All", "a.b"], rng.choice([0, 1, 1, 2])):
                entry = {}
                if rng.random() < 0.9:
                    entry["packages"] = rng.choice(PACKAGES) if rng.random() < 0.4 else rng.sample(PACKAGES, rng.choice([0, 1, 2]))
                table[name] = entry
            out[section] = table
        elif section == "document_mapping":
            table = {}
            for i in range(rng.choice([0, 1, 1, 2])):
                entry = {"package_ref": rng.choice(PACKAGES),
                         "element_types": rng.choice(TYPES) if rng.random() < 0.4 else rng.sample(TYPES, rng.choice([1, 2]))}
                if rng.random() < 0.6:
                    entry["suffix_filters"] = "_Impl" if rng.random() < 0.3 else rng.sample(["_Impl", "_D", ""], rng.choice([0, 1, 2]))
                table[f"m{i}"] = entry
            out[section] = table
        else:
            out[section] = {name: rng.choice(["E", "IT", "", "x_y"]) for name in rng.sample(SETTINGS, rng.choice([0, 1, 3, 9]))}
    return out


def poison(rng, config):
    """Make one entry invalid; -> label"""
    section, how = rng.choice(POISON)
    table = config.setdefault(section, {})
    names = list(table)

    def some(default):
        if names and rng.random() < 0.7:
            return rng.choice(names)
        table[default] = {"package_ref": "/Units", "element_types": "Unit"} if section == "document_mapping" else {}
        return default
    if how == "section":
        config[section] = rng.choice([5, "x", [1], True])
    elif section == "behavior":
        if how == "name":
            table[rng.choice(["no_such_prefix", "init_event", "Init_event_prefix", "__class__", "set_value"])] = "X"
        else:
            table[rng.choice(SETTINGS)] = rng.choice([1, True, ["a"], 1.5])
    elif how == "table":
        table["zz"] = rng.choice([5, "x", True])
    elif section == "namespace":
        entry = table[some("Bad")]
        if how == "role":
            entry[rng.choice(["NoSuchRole", "basetype", "Custom", "Base_Type"])] = "X"
        else:
            entry[rng.choice(sorted(KNOWN_ROLES) + ["!Custom"])] = rng.choice([5, True, ["a"]])
    elif section == "document":
        entry = table[some("Bad")]
        entry["packages"] = rng.choice([5, True, 1.5]) if how == "type" else [rng.choice(PACKAGES), 7]
    else:
        entry = table[some("bad")]
        if how == "no_package":
            entry.pop("package_ref")
        elif how == "no_types":
            entry.pop("element_types")
        elif how == "empty_types":
            entry["element_types"] = []
        elif how == "type_name":
            entry["element_types"] = [rng.choice(TYPES), rng.choice(["NoSuchElement", "unit", ""])]
        elif how == "type_kind":
            entry["element_types"] = rng.choice([5, True])
        elif how == "type_item":
            entry["element_types"] = ["Unit", 5]
        elif how == "function":
            entry["element_types"] = [rng.choice(["make_unique_name_in_list", "split_ref", "re", "ar_enum"])]
        elif how == "suffix_kind":
            entry["suffix_filters"] = rng.choice([5, True])
        else:
            entry["suffix_filters"] = ["_Impl", 5]
    if rng.random() < 0.3:
        # move the section to another place of the file
        keys = list(config)
        rng.shuffle(keys)
        items = {k: config[k] for k in keys}
        config.clear()
        config.update(items)
    return f"{section}.{how}"


def generate(rng, profile):
    ops = []
    for i in range(rng.choice([2, 3, 3, 5, 9])):
        if rng.random() < 0.12:
            ops.append({"do": "api", "config": gen_config(rng)})
            continue
        op = {"do": "load", "config": gen_config(rng), "poison": None, "damage": None, "faults": [], "missing": None}
        roll = rng.random()
        if roll < 0.42:
            op["poison"] = poison(rng, op["config"])
        elif roll < 0.52:
            op["damage"] = {"how": rng.choice(["cut", "flip", "flip", "drop", "dup", "nul", "utf8", "junk"]), "at": rng.random(),
                            "arg": rng.randrange(256)}
        elif roll < 0.62:
            op["faults"] = [rng.choice([
                {"kind": "read", "do": "errno", "at": rng.choice([0.0, 0.5, 0.999]), "arg": rng.choice(work.READ_ERRNOS)},
                {"kind": "open", "do": "errno", "at": 0.0, "arg": rng.choice([errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOENT])},
                {"kind": "read", "do": "eof", "at": rng.random()}])]
        elif roll < 0.66:
            op["missing"] = rng.choice(["missing", "directory", "empty"])
        if rng.random() < 0.5:
            op["faults"] += work.benign_input(rng)
        ops.append(op)
    return {"ops": ops, "constructor": rng.random() < 0.2, "write": rng.random() < 0.3, "quote": rng.random() < 0.5,
            "same_name": rng.random() < 0.5}


# --- the file

def emit(config, quote):
    """TOML text"""
    lines = []
    inline = [(k, v) for k, v in config.items() if not isinstance(v, dict)]
    for key, value in inline:
        lines.append(f"{toml_key(key, quote)} = {toml_value(value)}")
    for section, table in config.items():
        if not isinstance(table, dict):
            continue
        plain = {k: v for k, v in table.items() if not isinstance(v, dict)}
        lines.append(f"[{toml_key(section, quote)}]")
        for key, value in plain.items():
            lines.append(f"{toml_key(key, quote)} = {toml_value(value)}")
        for name, entry in table.items():
            if isinstance(entry, dict):
                lines.append(f"[{toml_key(section, quote)}.{toml_key(name, quote)}]")
                for key, value in entry.items():
                    lines.append(f"    {toml_key(key, quote)} = {toml_value(value)}")
        lines.append("")
    return "\n".join(lines)


def toml_key(key, quote):
    if not quote and key and all(c.isascii() and (c.isalnum() or c in "_-") for c in key):
        return key
    return json.dumps(key)


def toml_value(value):
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, (int, float)):
        return repr(value)
    if isinstance(value, str):
        return json.dumps(value)
    return "[" + ", ".join(toml_value(v) for v in value) + "]"


def damaged(data, damage):
    """Bytes after damage on the disk"""
    if not data:
        return data
    at = min(int(damage["at"] * len(data)), len(data) - 1)
    how, arg = damage["how"], damage["arg"]
    if how == "cut":
        return data[:at]
    if how == "flip":
        return data[:at] + bytes([data[at] ^ (1 << (arg % 8))]) + data[at + 1:]
    if how == "drop":
        return data[:at] + data[at + 1 + arg % 40:]
    if how == "dup":
        return data[:at] + data[max(0, at - arg % 60):at] + data[at:]
    if how == "nul":
        return data[:at] + bytes(1 + arg % 20) + data[at + 1 + arg % 20:]
    if how == "utf8":
        return data[:at] + b"\xff\xfe" + data[at:]
    return data[:at] + bytes([arg]) + data[at:]


# --- reference model

class Bad(Exception):
    """Must be rejected"""


class Unsure(Exception):
    """May be rejected or taken as it stands"""


def judge(config, mod):
    """Effect of a parsed configuration as (list of changes); raises Bad or Unsure"""
    changes, unsure = [], False
    for key in config:
        if key not in ("namespace", "document", "document_mapping", "behavior"):
            unsure = True
    sections = {k: config.get(k, {}) for k in ("namespace", "document", "document_mapping", "behavior")}
    for section, table in sections.items():
        if not isinstance(table, dict):
            raise Bad(f"{section} is not a table")
    for name, entry in sections["namespace"].items():
        if not isinstance(entry, dict):
            raise Bad("namespace is not a table")
        roles = {}
        base = entry.get("base_ref", "/" + name)
        if not isinstance(base, str) or not base.startswith("/"):
            unsure = True
        for role, path in entry.items():
            if role == "base_ref":
                continue
            if not role.startswith("!") and role not in KNOWN_ROLES:
                raise Bad(f"unknown role {role}")
            if not isinstance(path, str):
                raise Bad("path is not a string")
            if isinstance(base, str):
                roles[role[1:] if role.startswith("!") else mod.enumeration.PackageRole[KNOWN_ROLES[role]]] = (base, path)
        changes.append(("namespace", name, base, roles))
    for name, entry in sections["document"].items():
        if not isinstance(entry, dict):
            raise Bad("document is not a table")
        unsure = unsure or bool(set(entry) - {"packages"})
        packages = entry.get("packages", [])
        if isinstance(packages, dict):
            unsure = True
        elif isinstance(packages, str):
            packages = [packages]
        elif not isinstance(packages, list) or not all(isinstance(p, str) for p in packages):
            raise Bad("packages are not strings")
        changes.append(("document", f"{name}.arxml", list(packages)))
    for entry in sections["document_mapping"].values():
        if not isinstance(entry, dict):
            raise Bad("mapping is not a table")
        unsure = unsure or bool(set(entry) - {"package_ref", "element_types", "suffix_filters"})
        if "package_ref" not in entry or "element_types" not in entry:
            raise Bad("mapping is incomplete")
        if not isinstance(entry["package_ref"], str):
            unsure = True
        types = entry["element_types"]
        types = [types] if isinstance(types, str) else types
        if not isinstance(types, list) or not types or not all(isinstance(t, str) for t in types):
            raise Bad("element types are not names")
        for name in types:
            found = getattr(mod.element, name, None)
            if not isinstance(found, type):
                raise Bad(f"{name} is no element type")
            if not issubclass(found, mod.element.ARObject):
                unsure = True
        suffixes = entry.get("suffix_filters", [])
        suffixes = [suffixes] if isinstance(suffixes, str) else suffixes
        if not isinstance(suffixes, list) or not all(isinstance(s, str) for s in suffixes):
            raise Bad("suffixes are not strings")
        changes.append(("mapping", entry["package_ref"], list(types), list(suffixes)))
    for name, value in sections["behavior"].items():
        if name not in vars(mod.element.BehaviorSettings()):
            raise Bad(f"unknown setting {name}")
        if not isinstance(value, str):
            raise Bad("setting is not a string")
        changes.append(("setting", name, value))
    if unsure:
        raise Unsure()
    return changes


class Model:
    """What the configuration of the workspace should be"""

    def __init__(self):
        self.namespaces, self.documents, self.mappings, self.settings = {}, [], [], {}

    def apply(self, changes):
        for change in changes:
            if change[0] == "namespace":
                self.namespaces[change[1]] = change[2:]
            elif change[0] == "document":
                self.documents.append(change[1:])
            elif change[0] == "mapping":
                self.mappings.append(change[1:])
            else:
                self.settings[change[1]] = change[2]


def state(ws):
    """Canonical configuration of a workspace"""
    return canon.canon({"namespaces": ws.namespaces, "documents": ws.documents, "mappings": ws.document_mappings,
                        "settings": dict(vars(ws.behavior_settings)), "root": ws.document_root,
                        "packages": [p.name for p in ws.packages]})


def check_model(ws, model, mod, where):
    """Observable configuration equals the model"""
    if list(ws.namespaces) != list(model.namespaces) and set(ws.namespaces) != set(model.namespaces):
        raise Violation("wrong-namespaces", f"{where}: {list(ws.namespaces)}, expected {list(model.namespaces)}")
    roles = list(mod.enumeration.PackageRole) + ["Custom", "x", "BaseType"]
    for name, (base, wanted) in model.namespaces.items():
        if getattr(ws.get_namespace(name), "base_ref", base) != base:
            raise Violation("wrong-namespaces", f"{where}: {name}: base {ws.get_namespace(name).base_ref}, expected {base}")
        for role in roles:
            try:
                have = ws.get_package_ref_by_role(name, role)
            except Exception:  # pylint: disable=broad-exception-caught
                have = None
            want = None
            if role in wanted:
                want = posixpath.normpath(posixpath.join(*wanted[role]))
            if have != want:
                raise Violation("wrong-namespaces", f"{where}: {name}.{role}: {have}, expected {want}")
    have = [(d.file_path, list(d.package_refs)) for d in ws.documents]
    if have != [tuple(d) for d in model.documents]:
        raise Violation("wrong-documents", f"{where}: {have}, expected {model.documents}")
    have = [(m.package_ref, sorted({t.__name__ for t in (m.element_types if isinstance(m.element_types, (tuple, list))
                                                         else [m.element_types])}), list(m.suffix_filters))
            for m in ws.document_mappings]
    want = [(p, sorted(set(t)), s) for p, t, s in model.mappings]
    if have != want:
        raise Violation("wrong-mappings", f"{where}: {have}, expected {want}")
    settings = {k: v for k, v in vars(ws.behavior_settings).items() if v is not None}
    if settings != model.settings:
        raise Violation("wrong-settings", f"{where}: {settings}, expected {model.settings}")


def named(roles):
    """Role names as create_namespace takes them"""
    return {("!" + r if isinstance(r, str) else ROLES[r.name]): v for r, v in roles.items()}


def run(plan, env):
    """One run"""
    disk, mod = env.disk, env.mod
    ws, model = None, Model()
    done, outcomes, failed = [], [], False
    if not plan["constructor"]:
        ws = mod.workspace.Workspace()
    for number, op in enumerate(plan["ops"]):
        env.steps += 1
        if op["do"] == "api":
            if ws is None:
                ws = mod.workspace.Workspace()
            try:
                changes = judge(op["config"], mod)
            except (Bad, Unsure) as exc:
                raise Invalid("api") from exc
            env.must("api", api_call, ws, changes, mod)
            model.apply(changes)
            done.append(("api", changes))
            outcomes.append("api")
            continue
        outcome, ws, model = load(plan, op, ws, model, env, number, done, failed)
        failed = failed or outcome.startswith("rejected")
        if outcome == "ok" and failed:
            env.probe("success after failure")
        outcomes.append(outcome)
        env.log(number, outcome)
    if ws is not None:
        compare_with_new(plan, ws, done, env, mod)
    env.log(disk.digest())
    env.shape([(sorted(o["config"]) if isinstance(o.get("config"), dict) else None, o.get("poison"),
                (o.get("damage") or {}).get("how")) for o in plan["ops"]], outcomes, sorted(env.faults))


def api_call(ws, changes, mod):
    for change in changes:
        if change[0] == "namespace":
            ws.create_namespace(change[1], {name: path for name, (_, path) in named(change[3]).items()}, change[2])
        elif change[0] == "document":
            ws.create_document(change[1], list(change[2]))
        elif change[0] == "mapping":
            ws.create_document_mapping(change[1], tuple(getattr(mod.element, t) for t in change[2]), list(change[3]))
        else:
            ws.behavior_settings.set_value(change[1], change[2])


def parsed(data):
    """Independent parse; None if it isn't a configuration file"""
    try:
        return tomllib.loads(data.decode("utf-8"))
    except (tomllib.TOMLDecodeError, UnicodeDecodeError, RecursionError, ValueError):
        return None


def load(plan, op, ws, model, env, number, done, failed):
    """One load, judged -> (outcome, workspace, model)"""
    disk, mod = env.disk, env.mod
    same = plan.get("same_name") and op["missing"] not in ("missing", "directory")
    name = "config.toml" if same else f"config{number}.toml"
    data = emit(op["config"], plan["quote"]).encode()
    if parsed(data) is None:
        raise Invalid("not TOML")
    if op["damage"]:
        data = damaged(data, op["damage"])
        env.fault(f"file {op['damage']['how']}")
    if op["missing"] == "empty":
        data = b""
    if op["missing"] == "directory":
        disk.mkdir(name)
    elif op["missing"] != "missing":
        if number and same:
            env.probe("same file again")
        disk.put(name, data)
    path = disk.path(name)
    counts = None
    if op["missing"] not in ("missing", "directory"):
        disk.begin([f for f in op["faults"] if f["kind"] == "chunks"])
        with open(path, "rb") as handle:
            handle.read()
        counts = disk.counts()
        disk.end()
    else:
        env.fault("no such file" if op["missing"] == "missing" else "directory instead of file")
    before = state(ws) if ws is not None else None
    disk.begin(op["faults"], counts)
    error = None
    made = ws
    try:
        if ws is None:
            made = mod.workspace.Workspace(path)
            env.probe("loaded by constructor")
        else:
            ws.load_config(path)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        error = exc
    fired = env.fired(disk.end())
    what = op["poison"] or (op["damage"] or {}).get("how") or op["missing"] or "valid"
    where = f"load {number} ({what}), faults {fired}"
    if error is not None:
        if ws is not None:
            res = canon.diff(before, state(ws))
            if res:
                raise Violation("failed-load-changed-workspace", f"{where}: {describe(error)}; {res[0]}: "
                                f"{res[1]!r:.200} became {res[2]!r:.200}")
    harmful = any(not f.startswith("chunked") and not f.endswith(":short") and "EINTR" not in f and not f.endswith(":eof")
                  for f in fired)
    if harmful or op["missing"] in ("missing", "directory"):
        env.probe("unreadable" if harmful else "not a file")
        if error is None:
            raise Violation("unreadable-accepted", f"{where}: returned normally")
        return "rejected unreadable", ws, model
    if any(f.endswith(":eof") for f in fired):
        env.probe("premature end")
        return premature(data, error, ws, made, model, env, where, done)
    config = parsed(data)
    verdict, changes = "bad", None
    if config is not None:
        try:
            verdict, changes = "good", judge(config, mod)
        except Bad as exc:
            where += f" [{exc}]"
        except Unsure:
            verdict = "unsure"
    if verdict == "bad":
        if error is None:
            raise Violation("invalid-accepted", f"{where}: returned normally for {data[:600]!r}")
        env.probe("damaged rejected" if op["damage"] else "invalid rejected")
        if op["poison"] and len(config or {}) > 1:
            env.probe("invalid after valid entries")
        return "rejected invalid", ws, model
    if verdict == "unsure":
        # nothing is known of the result: the run goes on with the workspace only if nothing was applied
        if error is None:
            return "unsure", None, Model() if not done else reset(done)
        return "rejected unsure", ws, model
    if error is not None:
        raise Violation("valid-rejected", f"{where}: {describe(error)}; content {data[:600]!r}")
    if op["damage"]:
        env.probe("damaged accepted")
    if any(c[0] == "namespace" and c[1] in model.namespaces for c in changes):
        env.probe("namespace redefined")
    model = copy.deepcopy(model) if ws is None else model
    model.apply(changes)
    check_model(made, model, mod, where)
    done.append(("load", data))
    return "ok", made, model


def reset(done):
    """Start over with a new workspace"""
    done.clear()
    return Model()


def premature(data, error, ws, made, model, env, where, done):
    """The file ended early: the load stands for one of the file's prefixes, or failed"""
    if error is not None:
        return "rejected premature end", ws, model
    for size in range(len(data), -1, -1):
        config = parsed(data[:size])
        if config is None:
            continue
        try:
            changes = judge(config, env.mod)
        except (Bad, Unsure):
            continue
        trial = copy.deepcopy(model)
        trial.apply(changes)
        try:
            check_model(made, trial, env.mod, where)
        except Violation:
            continue
        done.append(("load", data[:size]))
        return "ok", made, trial
    raise Violation("partly-applied", f"{where}: the configuration equals that of no prefix of the file")


def populate(ws, mod):
    """Something to write"""
    ar = mod.element
    units, types, comps = ws.make_packages("Units", "Types", "Comps")
    for name in ("m", "km", "m_D"):
        units.append(ar.Unit(name))
    types.append(ar.SwBaseType("uint8"))
    types.create_package("Sub").append(ar.CompuMethod("C"))
    comps.append(ar.ApplicationSoftwareComponentType("App"))
    comps.append(ar.ApplicationSoftwareComponentType("App_Impl"))


def compare_with_new(plan, ws, done, env, mod):
    """A new workspace that only made the successful loads is the same"""
    disk = env.disk
    new = mod.workspace.Workspace()
    for i, (kind, what) in enumerate(done):
        if kind == "api":
            env.must("api", api_call, new, what, mod)
        else:
            disk.put(f"again{i}.toml", what)
            env.must("clean-load", new.load_config, disk.path(f"again{i}.toml"))
    res = canon.diff(state(new), state(ws))
    if res:
        raise Violation("differs-from-new-workspace", f"{res[0]}: new workspace {res[1]!r:.200}, this {res[2]!r:.200}")
    if not plan["write"]:
        return
    outputs = []
    for each, out in ((new, "out_new"), (ws, "out_this")):
        populate(each, mod)
        disk.mkdir(out)
        each.set_document_root(disk.path(out))
        error = None
        try:
            each.write_documents()
        except Exception as exc:  # pylint: disable=broad-exception-caught
            error = type(exc).__name__
        files = {k.split("/", 1)[1]: v for k, v in disk.snapshot().items() if k.startswith(out + "/")}
        outputs.append((error, files))
    if outputs[0] != outputs[1]:
        raise Violation("documents-differ", f"new workspace: {outputs[0][0]} {sorted(outputs[0][1])}, "
                        f"this: {outputs[1][0]} {sorted(outputs[1][1])}")
    if outputs[0][1]:
        env.probe("documents written")
