"""Writes arsim/schema.json: constructor parameters of every element class, from the
annotations in /repo/src at the time it is run.  Run by hand, output is committed, so
that what the generator produces does not change with the code under test."""
import enum
import inspect
import json
import os
import sys
import types
import typing

sys.path.insert(0, "/repo/src")
import autosar.xml.element as el          # noqa: E402
import autosar.xml.enumeration as ar_enum  # noqa: E402
import autosar.xml.reference as ar_ref     # noqa: E402
from autosar.xml.base import ARObject, BaseRef  # noqa: E402


def norm(t):
    if isinstance(t, str):
        t = eval(t, vars(el))  # pylint: disable=eval-used
    if t is type(None) or t is None:
        return ["none"]
    if t is typing.Any or t is inspect.Parameter.empty:
        return ["any"]
    origin = typing.get_origin(t)
    if origin in (typing.Union, types.UnionType):
        out = []
        for a in typing.get_args(t):
            for x in norm(a):
                if x not in out:
                    out.append(x)
        return out
    if origin is list:
        return [{"list": norm(typing.get_args(t)[0])}]
    if origin is tuple:
        return [{"tuple": [norm(a) for a in typing.get_args(t)]}]
    if isinstance(t, typing.ForwardRef):
        return norm(t.__forward_arg__)
    if t in (str, int, float, bool, list, dict, tuple):
        return [t.__name__]
    if inspect.isclass(t) and issubclass(t, enum.Enum):
        return [{"enum": t.__name__}]
    if inspect.isclass(t) and issubclass(t, BaseRef):
        return [{"ref": t.__name__}]
    if inspect.isclass(t):
        return [{"obj": t.__name__}]
    raise TypeError(t)


def params(c):
    out = {}
    for k in c.__mro__:
        if "__init__" not in k.__dict__:
            continue
        sig = inspect.signature(k.__init__).parameters
        hints = typing.get_type_hints(k.__init__, vars(el))
        for n, p in sig.items():
            if n in ("self", "kwargs", "args"):
                continue
            if n not in out:
                out[n] = {"type": norm(hints.get(n, p.annotation)), "req": p.default is inspect.Parameter.empty}
        if not any(p.kind == p.VAR_KEYWORD for p in sig.values()):
            break
    return out


classes = {}
for name, c in sorted(vars(el).items()):
    if inspect.isclass(c) and c.__module__ == el.__name__ and not inspect.isabstract(c):
        try:
            classes[name] = {"params": params(c), "bases": [b.__name__ for b in c.__mro__[1:] if b.__module__ == el.__name__]}
        except Exception as exc:  # pylint: disable=broad-except
            print("skip", name, repr(exc), file=sys.stderr)
enums = {}
for name, c in sorted(vars(ar_enum).items()):
    if inspect.isclass(c) and issubclass(c, enum.Enum) and c is not enum.Enum:
        enums[name] = [m.name for m in c]
        mapping = ar_enum.enum_to_xml_map.get(name)
versioned = {}
for name, entries in ar_enum.enum_to_xml_map.items():
    for m in getattr(ar_enum, name, []):
        e = entries[m.value]
        if not isinstance(e, str):
            versioned[f"{name}.{m.name}"] = sorted(e.valid_versions)
refs = {}
for name, c in sorted(vars(ar_ref).items()):
    if inspect.isclass(c) and issubclass(c, BaseRef) and c is not BaseRef:
        refs[name] = sorted(x.name for x in c.accepted_sub_types())
import autosar.xml.writer as w
import autosar.xml.reader as r
W, R = w.Writer(), r.Reader()
collectable = [c for c in W.switcher_collectable if c != "Package"]
out = {"classes": classes, "enums": enums, "versioned": versioned, "refs": refs, "collectable": collectable}
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "arsim", "schema.json")
json.dump(out, open(path, "w"), indent=1, sort_keys=True)
print(len(classes), len(enums), len(refs), len(collectable))
print("enums without XML map:", [e for e in enums if e not in ar_enum.enum_to_xml_map])
print("reader collectable not writer:", set(R.switcher_collectable), collectable)
