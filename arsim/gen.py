"""Model generator: random element descriptions (plain JSON) and their construction.

A description is what a replay file stores and what the minimiser shrinks:
    {"$": "CompuMethod", "a": {"name": "A1", "unit_ref": {"r": "UnitRef", "v": "/u/U", "d": "UNIT"}}}
Which parameters exist is read from the committed schema.json, not from the code
under test, so the generated population does not change with the code.
"""
import json
import math
import os

SCHEMA = json.load(open(os.path.join(os.path.dirname(__file__), "schema.json"), encoding="utf-8"))
CLASSES = SCHEMA["classes"]
ENUMS = SCHEMA["enums"]
REFS = SCHEMA["refs"]
PACKAGEABLE = [c for c in SCHEMA["collectable"] if "ARElement" in CLASSES[c]["bases"]]

SUBCLASSES = {
    "SwcSupportedFeature": ["CommunicationBufferLocking"],
    "ProvidePortComSpec": ["ModeSwitchSenderComSpec", "NonqueuedSenderComSpec", "NvProvideComSpec",
                           "ParameterProvideComSpec", "QueuedSenderComSpec", "ServerComSpec"],
    "RequirePortComSpec": ["ClientComSpec", "ModeSwitchReceiverComSpec", "NonqueuedReceiverComSpec",
                           "NvRequireComSpec", "ParameterRequireComSpec", "QueuedReceiverComSpec"],
    "RteEvent": ["AsynchronousServerCallReturnsEvent", "BackgroundEvent", "DataReceiveErrorEvent",
                 "DataReceivedEvent", "DataSendCompletedEvent", "DataWriteCompletedEvent",
                 "ExternalTriggerOccurredEvent", "InitEvent", "InternalTriggerOccurredEvent",
                 "ModeSwitchedAckEvent", "OperationInvokedEvent", "SwcModeManagerErrorEvent",
                 "SwcModeSwitchEvent", "TimingEvent", "TransformerHardErrorEvent"],
}

# Parameters the library documents as not (yet) carried by its ARXML reader or writer,
# or that are an alternative spelling of another parameter.  See DESIGN.md, "Scope".
SKIP = {
    ("*", "admin_data"),        # not written, not read (known finding, probed separately)
    ("*", "service_kind"),      # "implement later" in the reader (known finding, probed separately)
    ("*", "default_pattern_format"),  # number format hint, "currently not used"
}

# Integer parameters that must not be negative
POSITIVE = {"array_size", "bit_position", "max_delta_counter", "max_delta_counter_init", "max_error_state_init",
            "max_error_state_invalid", "max_error_state_valid", "max_no_new_repeated_data",
            "max_number_of_elements", "min_ok_state_init", "min_ok_state_invalid", "min_ok_state_valid",
            "on_transition_value", "queue_length", "sync_counter_init", "window_size", "window_size_init",
            "window_size_invalid", "window_size_valid", "default_pattern"}
POSITIVE_IN = {("ModeDeclaration", "value"), ("DataFilter", "offset"), ("DataFilter", "period"), ("SwBaseType", "size"), ("SwBaseType", "max_size"),
               ("SwBaseType", "alignment"), ("SwBitRepresentation", "position"), ("SwBitRepresentation", "num_bits")}
# Optional in the signature, but without it there is nothing the older schemas could express
NEEDED = {("ExclusiveAreaRefConditional", "exclusive_area")}
ALIGNMENTS = [1, 8, 32, 64, "UNSPECIFIED", "UNKNOWN", "BOOLEAN", "PTR"]

TEXT_ALPHABET = (
    ["a", "b", "Z", "0", "9", "_", "-", ".", " ", "/", ":", ";", ",", "(", ")", "#", "%"] * 3
    + ["&", "<", ">", '"', "'", "&amp;", "]]>", "<!--", "&#10;", "\u00e5", "\u00df", "\u4e2d", "\U0001f697",
       "\u2028", "\u0085", "\u00a0", "\ufeff", "\t", "\n", "\r", "\\", "{", "}", "%s", "$"]
)
IDENT_FIRST = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
IDENT_REST = IDENT_FIRST + "0123456789_"
SPECIAL_FLOATS = ["inf", "-inf", "nan", "0.0", "-0.0", "1e-07", "5e-324", "1.7976931348623157e+308", "0.1", "1e+22",
                  "123456789012345.6", "3.0000000000000004", "-2.5", "1e+30", "100.0", "1200.0", "65535.0", "1e-05",
                  "12345678901234567890.0"]
SPECIAL_INTS = [0, 1, -1, 2, 7, 8, 10, 100, 127, 128, 255, 256, 65535, 65536, -128, -32768, 2**31 - 1, 2**31, 2**32 - 1,
                2**63, 2**64 - 1, -2**63, 10**20]


def _mentioned(types):
    """Concrete classes whose instances a parameter may hold"""
    out = set()
    for t in types:
        if isinstance(t, dict):
            for key, val in t.items():
                if key == "obj":
                    out |= set(SUBCLASSES.get(val, [val])) & set(CLASSES)
                elif key == "list":
                    out |= _mentioned(val)
                elif key == "tuple":
                    out |= _mentioned([x for alt in val for x in alt])
    return out


def _routes():
    """{class: [(holding class, parameter)]} and {class: distance from an element of a package}"""
    holders, dist, layer = {}, {c: 0 for c in PACKAGEABLE}, list(PACKAGEABLE)
    while layer:
        ahead = []
        for cls in layer:
            for param, info in CLASSES[cls]["params"].items():
                if ("*", param) in SKIP or (cls, param) in SKIP:
                    continue
                for held in sorted(_mentioned(info["type"])):
                    if held not in dist:
                        dist[held] = dist[cls] + 1
                        ahead.append(held)
                    if dist[held] > dist[cls]:
                        holders.setdefault(held, []).append((cls, param))
        layer = ahead
    return holders, dist


class Gen:
    """Random descriptions.  `size` bounds nesting, `density` the share of optional parameters used."""

    def __init__(self, rng, size=3, density=0.35, exotic_text=0.25):
        self.rng = rng
        self.size = size
        self.density = density
        self.exotic = exotic_text
        self.serial = 0
        self.aims = {}              # class -> (parameter, class to put there): the way to an aimed-at class
        self.boost = 0              # how many more times
        self.target = None          # aimed-at class: nearly all of its parameters are given

    # --- leaves

    def ident(self, prefix=None):
        """A SHORT-NAME, unique within this generator"""
        self.serial += 1
        rng = self.rng
        if prefix is None:
            prefix = rng.choice(IDENT_FIRST) + "".join(rng.choice(IDENT_REST) for _ in range(rng.randrange(0, 4)))
        if self.exotic and rng.random() < 0.02:
            prefix += "x" * rng.randrange(60, 140)
        if prefix[-1].isdigit():
            prefix += "q"           # so that prefix and serial number stay separable
        return f"{prefix}{self.serial}"

    def text(self, edge_space=True):
        """Non-empty character data"""
        rng = self.rng
        if rng.random() >= self.exotic:
            return "".join(rng.choice(IDENT_REST + "   .-") for _ in range(rng.randrange(1, 14))).strip() or "t"
        if rng.random() < 0.03:
            return "long " * rng.randrange(200, 2000) + "end"
        out = "".join(rng.choice(TEXT_ALPHABET) for _ in range(rng.randrange(1, 10)))
        return out if out.strip() else "t" + out

    def integer(self):
        rng = self.rng
        return rng.choice(SPECIAL_INTS) if rng.random() < 0.5 else rng.randrange(-1000, 100000)

    def posint(self):
        return abs(self.integer())

    def floating(self):
        rng = self.rng
        if rng.random() < 0.4:
            return {"f": rng.choice(SPECIAL_FLOATS)}
        return {"f": repr(rng.choice([rng.uniform(-1e3, 1e3), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-12, 13),
                                      round(rng.uniform(0, 10), 2)]))}

    def path(self):
        rng = self.rng
        return "/" + "/".join(rng.choice(["Pkg", "DataTypes", "P1", "Ports", "N", "Elem_2", "x"])
                              for _ in range(rng.randrange(1, 5)))

    def enum(self, name):
        return {"e": f"{name}.{self.rng.choice(ENUMS[name])}"}

    def ref(self, name):
        return {"r": name, "v": self.path(), "d": self.rng.choice(REFS[name])}

    # --- composite

    def value(self, types, depth, cls, param):
        """A value for a parameter of the given type alternatives"""
        rng = self.rng
        alts = [t for t in types if t != "none"]
        param_aim, aim = self.aims.get(cls, (None, None))
        if param_aim == param and self.boost > 0:
            alts = [t for t in alts if aim in _mentioned([t])] or alts
        alt = rng.choice(alts)
        if isinstance(alt, dict):
            if "list" in alt:
                return [self.value(alt["list"], depth + 1, cls, param) for _ in range(rng.choice([1, 1, 2, 3]))]
            if "tuple" in alt:
                return {"t": [self.value(t, depth, cls, param) for t in alt["tuple"]]}
            if "enum" in alt:
                return self.enum(alt["enum"])
            if "ref" in alt:
                return self.ref(alt["ref"])
            if "obj" in alt:
                return self.obj(alt["obj"], depth + 1)
        if alt == "str":
            # a bare string is also accepted where a reference is: then it must be a path
            if any(isinstance(t, dict) and "ref" in t for t in alts):
                return self.path()
            return self.text()
        if alt == "int":
            return self.posint() if param in POSITIVE or (cls, param) in POSITIVE_IN else self.integer()
        if alt == "float":
            return self.floating()
        if alt == "bool":
            return rng.random() < 0.5
        raise ValueError(f"{cls}.{param}: {alt}")

    def obj(self, cls, depth=0, name=None):
        """A description of an instance of cls"""
        rng = self.rng
        if cls in SUBCLASSES:
            aimed = [c for c in SUBCLASSES[cls] if c in self.aims or c == self.target] if self.boost > 0 else []
            cls = rng.choice(aimed or SUBCLASSES[cls])
        custom = getattr(self, "obj_" + cls, None)
        if custom is not None:
            made = custom(depth, name)
            if made is not None:
                return made
        args = {}
        full = cls == self.target and self.boost > 0
        self.boost -= full
        for param, info in CLASSES[cls]["params"].items():
            if ("*", param) in SKIP or (cls, param) in SKIP:
                continue
            if param == "name":
                args["name"] = name or self.ident()
                continue
            if not info["req"] and (cls, param) not in NEEDED:
                prob = 0.75 if full else self.density if depth < self.size else self.density * 0.25
                if param in ("desc", "long_name", "category", "uuid"):
                    prob *= 0.7 if full else 0.3
                if param in ("introduction", "annotations"):
                    prob *= 0.4 if full else 0.08
                if param == "parts":
                    prob = 0.95
                if self.aims.get(cls, (None,))[0] == param and self.boost > 0:
                    prob = 1
                if rng.random() >= prob:
                    continue
                if prob < 1 and not full and depth >= self.size + 3 and self._recursive(info["type"]):
                    continue
            special = getattr(self, f"arg_{cls}_{param}", None) or getattr(self, f"arg_{param}", None)
            val = special(depth) if special else self.value(info["type"], depth, cls, param)
            if val is not None:
                args[param] = val
        # an interval type is a property of its limit
        for side in ("lower", "upper"):
            if f"{side}_limit" not in args:
                args.pop(f"{side}_limit_type", None)
        return {"$": cls, "a": args}

    def aimed(self, target=None):
        """An element that holds an instance of a class drawn evenly from all classes"""
        rng = self.rng
        self.target = target or rng.choice(TARGETS)
        self.aims, here, self.boost = {}, self.target, 2
        while DIST[here]:
            holder, param = rng.choice([h for h in HOLDERS[here] if DIST[h[0]] < DIST[here]])
            self.aims[holder] = (param, here)
            here = holder
        out = self.obj(here)
        self.aims, self.target, self.boost = {}, None, 0
        return out

    @staticmethod
    def _recursive(types):
        return '"obj"' in json.dumps(types)

    # --- parameters with constraints the annotations do not express

    def arg_category(self, depth):
        return self.ident("CAT") if self.rng.random() < 0.5 else self.text()

    def arg_uuid(self, depth):
        return "-".join("%04x" % self.rng.randrange(65536) for _ in range(4))

    def arg_SwDataDefPropsConditional_alignment(self, depth):
        return self.rng.choice(ALIGNMENTS)

    def arg_display_format(self, depth):
        rng = self.rng
        return "%" + rng.choice(["", " ", "-", "+", "#"]) + rng.choice(["", "4", "10"]) + \
            rng.choice(["", ".2"]) + rng.choice("diouxXfeEgGcs")

    def arg_SwAxisCont_category(self, depth):
        return self.enum("CalibrationAxisCategory")

    def arg_SwAxisCont_sw_axis_index(self, depth):
        # a digit string is another spelling of the number
        return self.rng.choice([0, 1, 2, 3, 17]) if self.rng.random() < 0.5 else self.ident("A")

    def arg_ClientServerOperation_possible_error_refs(self, depth):
        refs = [self.path() if self.rng.random() < 0.25 else self.ref("ApplicationErrorRef")
                for _ in range(self.rng.choice([1, 1, 2]))]
        return refs[0] if len(refs) == 1 else refs

    def arg_ModeDeclarationGroup_mode_declarations(self, depth):
        out = []
        for _ in range(self.rng.choice([1, 2, 3])):
            roll = self.rng.random()
            out.append({"t": [self.ident(), self.posint()]} if roll < 0.25 else self.ident() if roll < 0.35 else
                       self.obj("ModeDeclaration", depth + 1))
        return out

    def arg_CompuScale_lower_limit(self, depth):
        return self.integer() if self.rng.random() < 0.5 else self.floating()

    arg_CompuScale_upper_limit = arg_CompuScale_lower_limit

    def _port_iref(self, kinds):
        ref = {"r": "PortPrototypeRef", "v": self.path(), "d": self.rng.choice(kinds)}
        return {"$": "PortInCompositionTypeInstanceRef",
                "a": {"component_ref": self.ref("SwComponentPrototypeRef"), "port_ref": ref}}

    def arg_AssemblySwConnector_provide_port(self, depth):
        return self._port_iref(["P_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"])

    def arg_AssemblySwConnector_require_port(self, depth):
        return self._port_iref(["R_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"])

    def arg_DelegationSwConnector_inner_port(self, depth):
        return self._port_iref(["P_PORT_PROTOTYPE", "R_PORT_PROTOTYPE"])

    def arg_SwcInternalBehavior_port_api_options(self, depth):
        # options are kept per port, so each names its own port
        out = []
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            desc = self.obj("PortApiOption", depth + 1)
            desc["a"]["port"] = {"r": "PortPrototypeRef", "v": f"/Swc/App/{self.ident('Port')}",
                                 "d": self.rng.choice(REFS["PortPrototypeRef"])}
            out.append(desc)
        return out

    def arg_ExternalTriggerOccurredEvent_trigger(self, depth):
        return self.obj("RTriggerInAtomicSwcInstanceRef", depth + 1)

    def arg_SwcModeManagerErrorEvent_mode_group(self, depth):
        return self.obj("PModeGroupInAtomicSwcInstanceRef", depth + 1)

    def obj_NumericalValue(self, depth, name):
        rng = self.rng
        fmt = rng.choice(ENUMS["ValueFormat"])
        if fmt in ("HEXADECIMAL", "BINARY") and rng.random() < 0.7:
            num = self.posint()
            value = {"HEXADECIMAL": hex(num), "BINARY": bin(num)}[fmt] if rng.random() < 0.5 else num
        else:
            value = self.integer() if rng.random() < 0.5 else self.floating()
            finite = isinstance(value, dict) and math.isfinite(float(value["f"]))
            fmt = "SCIENTIFIC" if finite and rng.random() < 0.5 else "DEFAULT"
        return {"$": "NumericalValue", "a": {"value": value, "value_format": {"e": f"ValueFormat.{fmt}"}}}

    # mixed content: text runs and inline elements alternate (adjacent runs would merge in XML)

    def mixed(self, inline):
        rng = self.rng
        if rng.random() < 0.5:
            return self.text()
        out = []
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < 0.5 and (not out or not isinstance(out[-1], str)):
                out.append(self.text())
            else:
                out.append(self.obj(rng.choice(inline), 9))
        return out

    def arg_LanguageLongName_parts(self, depth):
        return self.mixed(["TechnicalTerm", "EmphasisText", "Subscript", "Superscript", "IndexEntry"])

    def arg_LanguageOverviewParagraph_parts(self, depth):
        return self.mixed(["Break", "TechnicalTerm", "EmphasisText", "Subscript", "Superscript", "IndexEntry"])

    arg_LanguageParagraph_parts = arg_LanguageOverviewParagraph_parts

    def arg_LanguageVerbatim_parts(self, depth):
        return self.mixed(["Break", "TechnicalTerm", "EmphasisText"])

    def arg_EmphasisText_elements(self, depth):
        return self.text()

    def arg_SingleLanguageUnitNames_parts(self, depth):
        return self.mixed(["Subscript", "Superscript"])

    def _multi(self, cls, lang_cls, param, depth):
        out = {"$": cls, "a": {}}
        for name, info in CLASSES[cls]["params"].items():
            if name != param and self.rng.random() < self.density:
                out["a"][name] = self.value(info["type"], 9, cls, name)
        given = self.rng.random()
        if given < 0.2:
            out["a"][param] = self.obj(lang_cls, 9)
        elif given < 0.4:
            out["a"][param] = {"t": [self.enum("Language"), self.text()]}
        calls = self.rng.choice([1, 1, 1, 2, 3]) - (given < 0.4)
        if calls:
            out["calls"] = {"append": [self.obj(lang_cls, 9) for _ in range(calls)]}
        return out

    def obj_MultilanguageLongName(self, depth, name):
        return self._multi("MultilanguageLongName", "LanguageLongName", "long_name", depth)

    def obj_MultiLanguageOverviewParagraph(self, depth, name):
        return self._multi("MultiLanguageOverviewParagraph", "LanguageOverviewParagraph", "paragraph", depth)

    def obj_MultiLanguageParagraph(self, depth, name):
        return self._multi("MultiLanguageParagraph", "LanguageParagraph", "paragraph", depth)

    def obj_MultiLanguageVerbatim(self, depth, name):
        return self._multi("MultiLanguageVerbatim", "LanguageVerbatim", "element", depth)

    def obj_DocumentationBlock(self, depth, name):
        rng = self.rng
        items = [self.obj(rng.choice(["MultiLanguageParagraph", "MultiLanguageVerbatim"]), 9)
                 for _ in range(rng.choice([1, 1, 2, 3]))]
        given = rng.randrange(len(items) + 1) if rng.random() < 0.5 else 0
        out = {"$": "DocumentationBlock", "a": {}}
        if given:
            out["a"]["element"] = items[0] if given == 1 and rng.random() < 0.5 else items[:given]
        if items[given:]:
            out["calls"] = {"append": items[given:]}
        return out

    # --- documents

    def package(self, n_elements, depth=0, kinds=None, name=None, sub=True):
        """A package tree description"""
        rng = self.rng
        out = {"name": name or self.ident("P"), "attrs": {}, "elements": [], "packages": []}
        for key in ("desc", "long_name", "category", "uuid"):
            if rng.random() < self.density * 0.3:
                info = CLASSES["Package"]["params"][key]
                special = getattr(self, f"arg_{key}", None)
                out["attrs"][key] = special(0) if special else self.value(info["type"], 1, "Package", key)
        for _ in range(n_elements):
            out["elements"].append(self.aimed() if kinds is None and rng.random() < 0.3 else
                                   self.obj(rng.choice(kinds or PACKAGEABLE)))
        if sub and depth < 2:
            for _ in range(rng.choice([0, 0, 1, 2])):
                out["packages"].append(self.package(rng.randrange(0, 3), depth + 1, kinds))
        return out


HOLDERS, DIST = _routes()
TARGETS = sorted(DIST)


def valid(desc):
    """Whether a (minimised) description is still in the generated population"""
    if isinstance(desc, list):
        return all(valid(x) for x in desc)
    if isinstance(desc, dict):
        if "$" in desc:
            for param, info in CLASSES[desc["$"]]["params"].items():
                if (info["req"] or (desc["$"], param) in NEEDED) and param not in desc["a"] and "calls" not in desc:
                    return False
            return valid(list(desc["a"].values())) and valid(list(desc.get("calls", {}).values()))
        return all(valid(x) for x in desc.values())
    return not (isinstance(desc, str) and desc == "")


def build(desc, mod, seen=None, spoil=False):
    """Construct the live value a description stands for; `mod` holds the library modules.

    `seen`, when given, collects (description, object) of every class instance. With `spoil`, every list
    that was given to a constructor is changed afterwards: it stays the caller's.
    """
    if isinstance(desc, list):
        return [build(x, mod, seen, spoil) for x in desc]
    if isinstance(desc, dict):
        if "$" in desc:
            cls = getattr(mod.element, desc["$"])
            kwargs = {k: build(v, mod, seen, spoil) for k, v in desc["a"].items()}
            obj = cls(**kwargs)
            if spoil:
                spoil_lists(desc["$"], kwargs)
            for method, calls in desc.get("calls", {}).items():
                for arg in calls:
                    getattr(obj, method)(build(arg, mod, seen, spoil))
            if seen is not None:
                seen.append((desc, obj))
            return obj
        if "e" in desc:
            name, member = desc["e"].split(".")
            return getattr(getattr(mod.enumeration, name), member)
        if "r" in desc:
            return getattr(mod.reference, desc["r"])(desc["v"], getattr(mod.enumeration.IdentifiableSubTypes, desc["d"]))
        if "f" in desc:
            return float(desc["f"])
        if "t" in desc:
            return tuple(build(x, mod, seen, spoil) for x in desc["t"])
        raise ValueError(desc)
    return desc


def spoil_lists(cls, kwargs):
    """Change the lists that were given as arguments (Computation is a plain holder of the list it is given)"""
    if cls != "Computation":
        for value in kwargs.values():
            if isinstance(value, list):
                value.append("changed afterwards")


def build_package(desc, mod):
    """Construct a package tree"""
    package = mod.element.Package(desc["name"], **{k: build(v, mod) for k, v in desc["attrs"].items()})
    for elem in desc["elements"]:
        package.append(build(elem, mod))
    for sub in desc["packages"]:
        package.append(build_package(sub, mod))
    return package


def build_document(desc, mod):
    """Construct a document: {"schema_version": n, "packages": [...]}"""
    return mod.document.Document([build_package(p, mod) for p in desc["packages"]],
                                 schema_version=desc["schema_version"])


def is_nan(x):
    return isinstance(x, float) and math.isnan(x)


def conforms(desc, live, mod, path=""):
    """First place where a live value does not carry what its description asked for, or None.

    Guards against a constructor (or builder) silently dropping or replacing an argument,
    which a comparison of the built model with the read-back model cannot see.
    """
    if isinstance(live, dict):
        live = list(live.values())
    if isinstance(desc, dict):
        if "$" in desc:
            if type(live).__name__ != desc["$"]:
                return wrapped(desc, live, mod, path)
            if desc["$"] in TEXT_PARAM:
                return conforms_text(desc, live, mod, path)
            for key, val in desc["a"].items():
                attr = ALIAS.get((desc["$"], key), key)
                if attr is None:
                    continue
                if not hasattr(live, attr):
                    return f"{path}.{key}: no such attribute"
                res = conforms(val, getattr(live, attr), mod, f"{path}.{key}")
                if res:
                    return res
            for calls in desc.get("calls", {}).values():
                held = None
                for attr in ("parts", "elements", "paragraph", "long_name"):
                    held = getattr(live, attr, held)
                if not isinstance(held, list):
                    held = next((v for v in vars(live).values() if isinstance(v, list)), [])
                res = conforms(calls, held, mod, path + ".append")
                if res:
                    return res
            return None
        if "e" in desc:
            name, member = desc["e"].split(".")
            want = getattr(getattr(mod.enumeration, name), member)
            return None if live is want else f"{path}: {live!r} instead of {want}"
        if "r" in desc:
            if isinstance(live, list) and len(live) == 1:
                live = live[0]
            if not hasattr(live, "dest") and hasattr(live, "__dict__"):
                live = next((v for v in vars(live).values() if hasattr(v, "dest")), live)
            if str(live) != desc["v"] or getattr(getattr(live, "dest", None), "name", None) != desc["d"]:
                return f"{path}: reference {live} instead of {desc['v']}"
            return None
        if "f" in desc:
            if isinstance(live, list) and len(live) == 1:
                live = live[0]
            return _number(float(desc["f"]), live, path)
        if "t" in desc:
            return None if live is not None else f"{path}: lost"
    if isinstance(desc, list):
        if not isinstance(live, (list, tuple)):
            live = [live] if live is not None else []
            inner = live[0] if live else None
            for attr in ("parts", "elements", "variants", "values"):
                if isinstance(getattr(inner, attr, None), list):
                    live = getattr(inner, attr)
                    break
        if len(live) != len(desc):
            return f"{path}: {len(live)} items instead of {len(desc)}"
        for i, (want, have) in enumerate(zip(desc, live)):
            res = conforms(want, have, mod, f"{path}[{i}]")
            if res:
                return res
        return None
    if isinstance(desc, (int, float)) and not isinstance(desc, bool):
        if isinstance(live, list) and len(live) == 1:
            live = live[0]
        return _number(desc, live, path)
    if isinstance(desc, str) and isinstance(live, int) and desc[:2] in ("0x", "0b"):
        return _number(desc, live, path)
    if isinstance(desc, str):
        return None if desc in _texts(live) else f"{path}: {str(live)[:60]!r} instead of {desc[:60]!r}"
    return None if live == desc else f"{path}: {live!r} instead of {desc!r}"


ALIAS = {("InternalConstraint", "scale_constr"): "scale_constrs",
         ("PhysicalConstraint", "scale_constr"): "scale_constrs"}


# multi-language containers, and the constructor parameter that is an alternative to append
TEXT_PARAM = {"MultilanguageLongName": "long_name", "MultiLanguageOverviewParagraph": "paragraph",
              "MultiLanguageParagraph": "paragraph", "MultiLanguageVerbatim": "element", "DocumentationBlock": "element"}


def conforms_text(desc, live, mod, path):
    """conforms for a container whose items come from its constructor and from append"""
    param = TEXT_PARAM[desc["$"]]
    items = desc["a"].get(param, [])
    items = (items if isinstance(items, list) else [items]) + desc.get("calls", {}).get("append", [])
    if len(items) != len(live.elements):
        return f"{path}: {len(live.elements)} items instead of {len(items)}"
    for i, (want, have) in enumerate(zip(items, live.elements)):
        if "t" in want:
            res = conforms(want["t"][0], have.language, mod, f"{path}[{i}]") or \
                (None if have.parts == [want["t"][1]] else f"{path}[{i}]: {have.parts!r} instead of {want['t'][1]!r}")
        else:
            res = conforms(want, have, mod, f"{path}[{i}]")
        if res:
            return res
    for key, val in desc["a"].items():
        res = None if key == param else conforms(val, getattr(live, key), mod, f"{path}.{key}")
        if res:
            return res
    return None


def wrapped(desc, live, mod, path):
    """A single object may be stored as a one-element list, or inside a container object"""
    if isinstance(live, (list, tuple)) and desc["$"] in ("SwValues", "ValueGroup"):
        return conforms(desc["a"].get("values", []), live, mod, path)
    if isinstance(live, (list, tuple)) and len(live) == 1:
        return conforms(desc, live[0], mod, path)
    for val in vars(live).values() if hasattr(live, "__dict__") else ():
        if type(val).__name__ == desc["$"] or (isinstance(val, list) and len(val) == 1
                                               and type(val[0]).__name__ == desc["$"]):
            return conforms(desc, val, mod, path)
    return f"{path}: {type(live).__name__} instead of {desc['$']}"


def _number(want, have, path):
    if hasattr(have, "__dict__") and not hasattr(have, "value"):
        have = next((v for v in vars(have).values() if isinstance(v, (int, float))), have)
    have = getattr(have, "value", have)
    if isinstance(want, str):
        want = int(want, 0)
    if isinstance(have, str):
        try:
            have = float(have)
        except ValueError:
            pass
    if isinstance(have, (int, float)) and (float(have) == float(want) or (is_nan(have) and is_nan(want))):
        return None
    return f"{path}: {have!r} instead of {want!r}"


def _texts(live, depth=0):
    """Every text a value may stand for when it was given as a plain string"""
    if depth > 4 or live is None:
        return set()
    if isinstance(live, str):
        return {live}
    out = set()
    if isinstance(live, (list, tuple)):
        for item in live:
            out |= _texts(item, depth + 1)
    elif hasattr(live, "__dict__"):
        for key, val in vars(live).items():
            if key != "parent":
                out |= _texts(val, depth + 1)
    return out
