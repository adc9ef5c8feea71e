"""Random workspaces with document sets, and an independent model of the files they produce.

Description:
    {"packages": [...package descriptions...],
     "documents": [{"file": "a.arxml", "packages": ["/A", "/A/B"]}],
     "mappings": [{"package": "/A/B", "types": ["Unit"], "suffixes": ["_Init"]}],
     (both: "plain": true when lists of one item are given as that item, empty ones left out)
     "config": bool}    # documents and mappings through a config file instead of calls
"""
from . import canon, gen, work
from .core import describe

SUFFIXES = ["_Init", "_Ext", "_D", "X", "", "_"]
TYPE_CHOICES = ["Unit", "CompuMethod", "DataConstraint", "SwBaseType", "ImplementationDataType", "ConstantSpecification",
                "ApplicationPrimitiveDataType", "ModeDeclarationGroup", "SwAddrMethod", "SenderReceiverInterface",
                "ApplicationSoftwareComponentType", "CompositionSwComponentType", "SwcImplementation", "PortInterface",
                "SwComponentType", "DataTypeMappingSet", "ARElement", "AtomicSoftwareComponentType",
                "ValueSpecification", "ParameterInterface"]


def random_workspace(rng, small=False):
    """A workspace description"""
    g = gen.Gen(rng, size=rng.choice([1, 1, 2]), density=rng.choice([0.1, 0.25, 0.5]),
                exotic_text=rng.choice([0.0, 0.0, 0.2]))
    kinds = rng.sample(gen.PACKAGEABLE, rng.randrange(2, 7))
    desc = {"packages": [], "documents": [], "mappings": [], "config": rng.random() < 0.3}
    for _ in range(rng.choice([1, 1, 2, 3])):
        package = g.package(rng.randrange(0, 4 if small else 7), kinds=kinds)
        desc["packages"].append(package)
    for package in all_packages(desc):
        relate(rng, g, package[1], kinds)
    paths = [path for path, _ in all_packages(desc)]
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        desc["documents"].append(random_document(rng, paths, i))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        desc["mappings"].append(random_mapping(rng, paths, kinds))
    if not desc["documents"] and not desc["mappings"]:
        desc["documents"].append(random_document(rng, paths, 0))
    return desc


def relate(rng, g, package, kinds):
    """Give some elements partners named by suffix, or just similar"""
    names = {e["a"]["name"] for e in package["elements"]}
    for elem in list(package["elements"]):
        if rng.random() < 0.5:
            name = elem["a"]["name"] + rng.choice(SUFFIXES[:4])
            if name not in names:
                names.add(name)
                where = rng.randrange(len(package["elements"]) + 1)
                package["elements"].insert(where, g.obj(rng.choice(kinds), 0, name))


def random_document(rng, paths, i):
    """One entry of the document set"""
    count = rng.choice([0, 1, 1, 1, 2, 3])
    refs, used = [], set()
    for _ in range(count):
        ref = rng.choice(paths) if rng.random() < 0.93 else "/No/Such"
        if ref.rsplit("/", 1)[-1] not in used or rng.random() < 0.05:
            used.add(ref.rsplit("/", 1)[-1])
            refs.append(ref)
    return {"file": rng.choice(["doc", "Platform", "out", "a b"]) + f"{i}.arxml", "packages": refs,
            **({"plain": True} if rng.random() < 0.4 else {})}


def random_mapping(rng, paths, kinds):
    """One split rule"""
    types = rng.sample(TYPE_CHOICES, rng.choice([1, 1, 2]))
    if rng.random() < 0.7:
        types.append(rng.choice(kinds))
    return {"package": rng.choice(paths) if rng.random() < 0.95 else "/No/Such", "types": types,
            "suffixes": rng.sample(SUFFIXES, rng.choice([0, 1, 2, 3])), **({"plain": True} if rng.random() < 0.4 else {})}


def all_packages(desc):
    """(path, package description) of every package"""
    out = []

    def walk(package, path):
        here = f"{path}/{package['name']}"
        out.append((here, package))
        for sub in package["packages"]:
            walk(sub, here)
    for package in desc["packages"]:
        walk(package, "")
    return out


def find_package(desc, path):
    for here, package in all_packages(desc):
        if here == path:
            return package
    return None


def valid(desc):
    """Whether a (minimised) description can be built"""
    if not gen.valid(desc.get("packages", [])):
        return False
    seen = set()
    for path, package in all_packages(desc):
        names = [e["a"]["name"] for e in package["elements"]] + [p["name"] for p in package["packages"]]
        if path in seen or len(set(names)) != len(names) or "" in names:
            return False
        seen.add(path)
    return all(d.get("file") for d in desc.get("documents", [])) and \
        all("package" in m and "types" in m for m in desc.get("mappings", []))


def toml_text(text):
    """A TOML basic string"""
    import json
    return json.dumps(text, ensure_ascii=False)


def toml_list(items):
    return "[" + ", ".join(toml_text(i) for i in items) + "]"


def one(items, desc):
    """A list as it is given to the library"""
    return items[0] if desc.get("plain") and len(items) == 1 else list(items)


def toml_value(items, desc):
    items = one(items, desc)
    return toml_text(items) if isinstance(items, str) else toml_list(items)


def config_text(desc):
    """The document set as a config file"""
    lines = []
    for doc in desc["documents"]:
        lines.append(f"[document.{toml_text(doc['file'][:-len('.arxml')])}]")
        if doc["packages"] or not doc.get("plain"):
            lines.append(f"packages = {toml_value(doc['packages'], doc)}")
        lines.append("")
    for i, mapping in enumerate(desc["mappings"]):
        lines += [f"[document_mapping.m{i}]", f"package_ref = {toml_text(mapping['package'])}",
                  f"element_types = {toml_value(mapping['types'], mapping)}"]
        if mapping["suffixes"] or not mapping.get("plain"):
            lines.append(f"suffix_filters = {toml_value(mapping['suffixes'], mapping)}")
        lines.append("")
    return "\n".join(lines)


class ConfigRejected(Exception):
    """The workspace does not accept a valid document set"""


def build_workspace(desc, mod, root, config_path=None):
    """Construct the live workspace; the document set through calls (or the given config file)"""
    ws = mod.workspace.Workspace(document_root=root)
    for package in desc["packages"]:
        ws.append(gen.build_package(package, mod))
    try:
        configure(ws, desc, mod, config_path)
    except Exception as exc:
        raise ConfigRejected(describe(exc)) from exc
    return ws


def configure(ws, desc, mod, config_path):
    """The document set through calls (or the given config file)"""
    if config_path is not None:
        ws.load_config(config_path)
    else:
        for doc in desc["documents"]:
            add_document(ws, doc)
        for mapping in desc["mappings"]:
            add_mapping(ws, mapping, mod)


def add_document(ws, doc):
    if doc.get("plain") and not doc["packages"]:
        ws.create_document(doc["file"])
    else:
        ws.create_document(doc["file"], one(doc["packages"], doc))


def add_mapping(ws, mapping, mod):
    types = [getattr(mod.element, t) for t in mapping["types"]]
    types = types[0] if mapping.get("plain") and len(types) == 1 else tuple(types)
    ws.create_document_mapping(mapping["package"], types, one(mapping["suffixes"], mapping))


def predict(desc, mod):
    """Reference model: ordered list of (file, content) the document set stands for, or ("error", why).

    Content is a list of (package path, package kind of content):
        ("whole", path)                      the package with everything in it, at its path
        ("split", package path, [names])     the package chain with only these elements, in this order
    """
    out = []
    for doc in desc["documents"]:
        content, refs = [], []
        for ref in doc["packages"]:
            package = find_package(desc, ref)
            if package is None:
                if any(path + "/" + e["a"]["name"] == ref for path, p in all_packages(desc) for e in p["elements"]):
                    return out, ("error", doc["file"])
                continue
            if ref in refs:
                return out, ("error", doc["file"])
            refs.append(ref)
        for ref in refs:
            if not any(ref.startswith(other + "/") for other in refs):
                content.append(("whole", ref))
        out.append((doc["file"], content))
    for mapping in desc["mappings"]:
        package = find_package(desc, mapping["package"])
        if package is None:
            continue
        types = tuple(getattr(mod.element, t) for t in mapping["types"])
        present = [e["a"]["name"] for e in package["elements"]]
        for elem in package["elements"]:
            if not issubclass(getattr(mod.element, elem["$"]), types):
                continue
            name = elem["a"]["name"]
            chosen = {name} | {name + s for s in mapping["suffixes"] if s and name + s in present}
            out.append((name + ".arxml", [("split", mapping["package"], sorted(chosen))]))
    return out, None


def expected_canon(desc, content, mod):
    """Canonical packages a file should contain when read back"""
    root = mod.element.Package("root")
    for item in content:
        package = find_package(desc, item[1])
        parts = item[1].strip("/").split("/")
        box = root
        for part in parts[:-1]:
            inner = next((p for p in box.packages if p.name == part), None)
            if inner is None:
                inner = mod.element.Package(part)
                box.append(inner)
            box = inner
        if item[0] == "whole":
            box.append(gen.build_package(package, mod))
        else:
            elems = {e["a"]["name"]: e for e in package["elements"]}
            inner = mod.element.Package(parts[-1])
            for name in item[2]:
                inner.append(gen.build(elems[name], mod))
            box.append(inner)
    return [canon.canon(p) for p in root.packages]


def schema(rng):
    return rng.choice(work.SCHEMA_VERSIONS)
