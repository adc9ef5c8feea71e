"""Canonical, order-preserving description of a live model, for comparison.

Only public state is looked at: instance attributes without a leading underscore and
public properties, except the back pointer `parent`.
"""
import decimal
import enum
import math

IGNORE = {"parent", "behavior_settings", "is_empty", "short_name"}


def canon(obj, depth=0):
    """JSON-like canonical form"""
    if depth > 60:
        return "<deep>"
    if obj is None or isinstance(obj, (bool, str)):
        return obj
    if isinstance(obj, enum.Enum):
        return {"e": f"{type(obj).__name__}.{obj.name}"}
    if isinstance(obj, (int, float)):
        return num(obj)
    if isinstance(obj, (list, tuple)):
        return [canon(x, depth + 1) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return {"set": sorted((canon(x, depth + 1) for x in obj), key=repr)}
    if isinstance(obj, dict):
        return {"dict": [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in obj.items()]}
    if isinstance(obj, type):
        return {"type": obj.__name__}
    if hasattr(obj, "__next__") or not hasattr(obj, "__dict__"):
        return "<iterator>"
    cls = type(obj)
    if cls.__name__ == "NumericalValue" and obj.value_format.name in ("DEFAULT", "DECIMAL", "SCIENTIFIC"):
        return canon(obj.value, depth)      # a plain number in another wrapping
    out = {"$": cls.__name__}
    names = [n for n in vars(obj) if not n.startswith("_")]
    for klass in cls.__mro__:
        for name, val in vars(klass).items():
            if isinstance(val, property) and not name.startswith("_"):
                names.append(name)
    for name in sorted(set(names)):
        if name in IGNORE:
            continue
        try:
            value = getattr(obj, name)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            value = f"<raises {type(exc).__name__}>"
        out[name] = canon(value, depth + 1)
    return out


def num(value):
    """Numbers compare by value: 5, 5.0 and 0x5 are the same number"""
    if isinstance(value, float):
        if math.isnan(value):
            return {"n": "nan"}
        if math.isinf(value):
            return {"n": "inf" if value > 0 else "-inf"}
        if value == 0 and math.copysign(1, value) < 0:
            return {"n": "-0"}
        if value == int(value):
            return {"n": str(int(decimal.Decimal(repr(value))))}
        return {"n": repr(value)}
    return {"n": str(value)}


def diff(a, b, path=""):
    """First difference between two canonical forms, as (path, a, b), or None"""
    if type(a) is not type(b):
        return (path, a, b)
    if isinstance(a, dict):
        if a.get("$") != b.get("$"):
            return (path, a.get("$"), b.get("$"))
        for key in a:
            if key not in b:
                return (f"{path}.{key}", a[key], "<absent>")
            res = diff(a[key], b[key], f"{path}.{key}")
            if res:
                return res
        for key in b:
            if key not in a:
                return (f"{path}.{key}", "<absent>", b[key])
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            res = diff(x, y, f"{path}[{i}]")
            if res:
                return res
        if len(a) != len(b):
            return (f"{path}.len", len(a), len(b))
        return None
    return None if a == b else (path, a, b)
