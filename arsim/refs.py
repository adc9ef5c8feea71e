"""What a model contains, found by walking public state (independently of the library's own lookups)"""


def public(obj):
    """(name, value) of public attributes and properties, without the back pointer"""
    names = [n for n in vars(obj) if not n.startswith("_")]
    for klass in type(obj).__mro__:
        for name, val in vars(klass).items():
            if isinstance(val, property) and not name.startswith("_"):
                names.append(name)
    for name in dict.fromkeys(names):
        if name in ("parent", "behavior_settings"):
            continue
        try:
            yield name, getattr(obj, name)
        except Exception:  # pylint: disable=broad-exception-caught
            continue


def slots(obj, mod):
    """{attribute: [identifiable objects directly in it, in order]} of an identifiable object"""
    ident = mod.element.Identifiable
    out = {}
    for name, value in public(obj):
        if isinstance(value, ident):
            out[name] = [value]
        elif isinstance(value, dict):
            found = [v for v in value.values() if isinstance(v, ident)]
            if found:
                out[name] = found
        elif isinstance(value, (list, tuple)):
            found = [v for v in value if isinstance(v, ident)]
            if found:
                out[name] = found
    return out


def contained(packages, mod):
    """[(structural path, object)] of every identifiable object below a list of packages, in order"""
    out, seen = [], set()

    def walk(obj, path):
        here = f"{path}/{obj.name}"
        if id(obj) in seen:
            return
        seen.add(id(obj))
        out.append((here, obj))
        for children in slots(obj, mod).values():
            for child in children:
                walk(child, here)
    for package in packages:
        walk(package, "")
    return out


def wrong_refs(packages, mod):
    """First object whose own reference is not the path it is contained at, as text, or None"""
    for path, obj in contained(packages, mod):
        if not hasattr(obj, "ref"):
            continue
        try:
            ref = obj.ref()
        except Exception as exc:  # pylint: disable=broad-exception-caught
            return f"{type(obj).__name__} {path}: ref() raises {type(exc).__name__}: {exc}"
        if str(ref) != path:
            return f"{type(obj).__name__} {path}: ref() is {ref}"
    return None
