"""Random implementation data type graphs and an independent model of the header they give.

Description of one type:
    {"kind": "base"|"scalar"|"ref"|"array"|"record"|"pointer", "pkg": 0|1, "name": "T1",
     "native": "unsigned char" | None, "deps": [index or "missing" ...], "emitter": None|"RTE"|"rte"|"OTHER",
     "size": 4, "members": [{"name": "m", "how": "value"|"ref", "dep": i}], "broken": None|"category"|...}
"""
NATIVES = ["unsigned char", "signed int", "unsigned long long", "float", "double", "unsigned short", "char"]
# enumeration of the array element -> names in autosar.xml.enumeration and autosar.model.enumeration
ARRAY_OPTIONS = {
    "array_impl_policy": ["PAYLOAD_AS_ARRAY", "PAYLOAD_AS_POINTER_TO_ARRAY"],
    "array_size_handling": ["ALL_INDICES_DIFFERENT_ARRAY_SIZE", "ALL_INDICES_SAME_ARRAY_SIZE",
                            "INHERITED_FROM_ARRAY_ELEMENT_TYPE_SIZE"],
    "array_size_semantics": ["FIXED_SIZE", "VARIABLE_SIZE"]}
ARRAY_ENUMS = {"array_impl_policy": "ArrayImplPolicy", "array_size_handling": "ArraySizeHandling",
               "array_size_semantics": "ArraySizeSemantics"}


def random_graph(rng, n=None, sound=False):
    """Types in creation order; dependencies point to earlier types (sound: all of them can be requested)"""
    n = n or rng.choice([2, 3, 5, 8, 12])
    types = []
    for i in range(n):
        bases = [k for k, t in enumerate(types) if t["kind"] == "base"]
        impls = [k for k, t in enumerate(types) if t["kind"] != "base"]
        kind = rng.choice(["base", "scalar", "scalar", "ref", "ref", "array", "record", "pointer", "record"])
        if sound and i > 5:
            kind = rng.choice(["record", "record", "record", "record", "record", kind])
        if not bases:
            kind = "base"
        if kind == "ref" and not impls:
            kind = "scalar"
        t = {"kind": kind, "pkg": rng.randrange(2), "name": rng.choice(["A", "M", "z", "T_", "x", "B"]) + f"{i}",
             "emitter": rng.choice([None, None, None, None, "RTE", "rte", "OTHER", "BSW"])}
        if kind == "base":
            t["native"] = rng.choice(NATIVES + [None, None])
            t["emitter"] = None
        elif kind == "scalar":
            t["dep"] = dep(rng, bases)
        elif kind == "ref":
            t["dep"] = dep(rng, impls)
        elif kind == "pointer":
            t["how"] = "ref" if impls and rng.random() < 0.6 else "value"
            t["dep"] = dep(rng, impls if t["how"] == "ref" else bases)
        elif kind == "array":
            t["how"] = "ref" if impls and rng.random() < 0.6 else "value"
            t["dep"] = dep(rng, impls if t["how"] == "ref" else bases)
            t["size"] = rng.choice([1, 2, 10, 255])
        elif kind == "record":
            t["members"] = []
            for m in range(rng.choice([1, 2, 3, 4])):
                how = "ref" if impls and rng.random() < (0.9 if sound else 0.6) else "value"
                t["members"].append({"name": f"m{m}", "how": how, "dep": dep(rng, impls if how == "ref" else bases)})
        if kind != "base" and rng.random() < 0.06:
            t["broken"] = "category"
        if kind != "base" and rng.random() < 0.15:
            t["symbol"] = f"symbol_{i}"
        if kind == "array":
            for key, values in ARRAY_OPTIONS.items():
                if rng.random() < 0.15:
                    t[key] = rng.choice(values)
        types.append(t)
    if sound:
        for i, t in enumerate(types):
            t.pop("broken", None)
            for box in [t] + t.get("members", []):
                if box.get("dep") == "missing":
                    pool = [k for k in range(i) if (types[k]["kind"] == "base") == (t["kind"] == "scalar" or box.get("how") == "value")]
                    box["dep"] = pool[-1]
    return types


def dep(rng, pool):
    """Usually a recent type (deep graphs), sometimes missing"""
    if rng.random() < 0.04:
        return "missing"
    return pool[-1 - min(int(rng.expovariate(0.7)), len(pool) - 1)]


def valid(types):
    """Whether a (minimised) graph is still in the population"""
    names = set()
    for i, t in enumerate(types):
        if (t["pkg"], t["name"]) in names or not t["name"] or t["name"] in {x for _, x in names}:
            return False
        names.add((t["pkg"], t["name"]))
        if t["kind"] == "record" and not t.get("members"):
            return False
        if t["kind"] == "record" and len({m.get("name") for m in t["members"]}) != len(t["members"]):
            return False
        for how, d in edges(t):
            if d == "missing":
                continue
            if not isinstance(d, int) or d >= i or d < 0:
                return False
            if (how == "value") != (types[d]["kind"] == "base"):
                return False
    return True


def edges(t):
    """(how, dependency) of a type"""
    if t["kind"] == "base":
        return []
    if t["kind"] == "scalar":
        return [("value", t["dep"])]
    if t["kind"] == "ref":
        return [("ref", t["dep"])]
    if t["kind"] in ("array", "pointer"):
        return [(t["how"], t["dep"])]
    return [(m["how"], m["dep"]) for m in t["members"]]


def path(t):
    return ["/DataTypes/Base", "/Other"][t["pkg"]] + "/" + t["name"]


def build(types, ws, mod):
    """Create the elements in a workspace"""
    e = mod.element
    for name in ("/DataTypes/Base", "/Other"):
        ws.make_packages(name)

    def ref_of(d, how):
        target = "/No/Such" if d == "missing" else path(types[d])
        return e.SwBaseTypeRef(target) if how == "value" else \
            e.ImplementationDataTypeRef(target, mod.enumeration.IdentifiableSubTypes.IMPLEMENTATION_DATA_TYPE)

    def props(how, d):
        if how == "value":
            return e.SwDataDefPropsConditional(base_type_ref=ref_of(d, how))
        return e.SwDataDefPropsConditional(impl_data_type_ref=ref_of(d, how))
    cat = {"value": "VALUE", "ref": "TYPE_REFERENCE"}
    for t in types:
        package = ws.find(path(t).rsplit("/", 1)[0])
        if t["kind"] == "base":
            package.append(e.SwBaseType(t["name"], native_declaration=t.get("native")))
            continue
        args = {}
        if t.get("emitter") is not None:
            args["type_emitter"] = t["emitter"]
        if t.get("symbol"):
            args["symbol_props"] = e.SymbolProps("Symbol", symbol=t["symbol"])
        broken = t.get("broken")
        if t["kind"] in ("scalar", "ref"):
            how = "value" if t["kind"] == "scalar" else "ref"
            category = cat[how]
            args["sw_data_def_props"] = props(how, t["dep"])
        elif t["kind"] == "pointer":
            category = "DATA_REFERENCE"
            target = e.SwPointerTargetProps(cat[t["how"]] if broken != "category" else "UNION", props(t["how"], t["dep"]))
            args["sw_data_def_props"] = e.SwDataDefPropsConditional(ptr_target_props=target)
        elif t["kind"] == "array":
            category = "ARRAY"
            args["sub_elements"] = [e.ImplementationDataTypeElement(
                "elem", category=cat[t["how"]] if broken != "category" else "ARRAY", array_size=t.get("size", 1),
                **{key: mod.enumeration.__dict__[ARRAY_ENUMS[key]][t[key]] for key in ARRAY_OPTIONS if t.get(key)},
                sw_data_def_props=props(t["how"], t["dep"]))]
        else:
            category = "STRUCTURE"
            args["sub_elements"] = [e.ImplementationDataTypeElement(m["name"], category=cat[m["how"]],
                                                                    sw_data_def_props=props(m["how"], m["dep"]))
                                    for m in t["members"]]
            if broken == "category":
                args["sub_elements"].append(e.ImplementationDataTypeElement("last", category="UNION"))
        if broken == "category" and t["kind"] in ("scalar", "ref"):
            category = "UNION"
        package.append(e.ImplementationDataType(t["name"], category=category, **args))


def requestable(types, i):
    """Whether a request for type i can succeed"""
    seen, todo = set(), [i]
    while todo:
        k = todo.pop()
        if k == "missing" or types[k].get("broken"):
            return False
        if k not in seen:
            seen.add(k)
            todo.extend(d for _, d in edges(types[k]))
    return True


def closure(types, requested):
    """Every type the requested ones need by name (arrays and records inline native base types)"""
    need = set()

    def walk(i):
        if i in need:
            return
        need.add(i)
        t = types[i]
        for how, d in edges(t):
            if how == "value" and t["kind"] in ("array", "record"):
                continue
            walk(d)
    for i in requested:
        walk(i)
    return need


def emitted(types, i):
    """Whether the header carries a definition for this type"""
    t = types[i]
    if t["kind"] == "base":
        return bool(t.get("native"))
    return t.get("emitter") is None or t["emitter"].upper() == "RTE"


def definition(types, i):
    """Names a definition of type i uses, in order"""
    t = types[i]
    out = []
    for how, d in edges(t):
        if how == "value" and t["kind"] in ("array", "record"):
            out.append(types[d].get("native") or types[d]["name"])
        else:
            out.append(types[d]["name"])
    return out
