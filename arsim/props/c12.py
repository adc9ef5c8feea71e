"""C12: the type header is complete, ordered and independent of request history"""
import contextlib
import re

from .. import interrupt, typegraph, work
from ..core import Invalid, Violation, describe

PROPERTY = "C12"
QUICK = 15600
THOROUGH = 300000
RULE = ("a run builds a random graph of base, scalar, reference, array, record and pointer types (some unresolvable or of "
        "unsupported category), then requests them in random order with repetitions, failing requests and failing header "
        "writes in between; the header is compared with an independent model of the graph and with a fresh model given "
        "the successful requests once; distinct = different (kinds and edges of the graph, request order with outcomes, "
        "fault events)")
COMPONENTS = {"real": ["autosar.model.implementation", "autosar.generator.type_generator", "autosar.xml.workspace",
                       "autosar.xml.element", "cfile"],
              "simulated": ["results of open/write/close on the header file (simio)"],
              "oracle": ["executable model of the type graph (typegraph.py)", "fresh model in a separate process"]}
ASSUMPTIONS = ["short names of types are unique", "arrays of arrays are outside the generator (the library rejects them)"]
PROBES = ["array with policy, size handling or size semantics", "request failed", "request repeated", "requested after being a dependency", "header write failed",
          "type emitted elsewhere", "header between requests", "large graph"]


def generate(rng, profile):
    """A type graph and a history of requests and header generations"""
    large = rng.random() < 0.01 and not profile.get("job")
    types = typegraph.random_graph(rng, rng.choice([40, 60]), True) if large else typegraph.random_graph(rng)
    ops = []
    order = list(range(len(types)))
    rng.shuffle(order)
    order = order[:rng.randrange(1, 5 if large else len(order) + 1)]
    for i in order:
        ops.append({"op": "request", "type": i, "via": rng.choice(["ref", "element"])})
        roll = rng.random()
        if roll < 0.15:
            ops.append({"op": "request", "type": rng.choice(order), "via": "ref"})
        elif roll < 0.25:
            ops.append({"op": "request", "type": "missing", "via": "ref"})
        elif roll < 0.35:
            ops.append({"op": "text"})
        elif roll < 0.45:
            ops.append({"op": "write", "faults": work.output_faults(rng)})
    for i in order:
        if rng.random() < 0.2:
            ops.append({"op": "request", "type": i, "via": "ref"})
    ops.append({"op": "write", "faults": work.benign_output(rng)})
    return {"types": types, "ops": ops, "same_generator": rng.random() < 0.5}


def reference_header(types, requested, mod):
    """Header of a fresh model given the requested types once, in index order"""
    ws = mod.workspace.Workspace()
    typegraph.build(types, ws, mod)
    model = mod.model.ImplementationModel(ws)
    for i in sorted(requested):
        model.create_from_ref(typegraph.path(types[i]))
    return mod.generator.TypeGenerator(model).write_type_header_str()


def run(plan, env):
    mod, disk = env.mod, env.disk
    types = plan["types"]
    if not typegraph.valid(types):
        raise Invalid("type graph")
    ws = mod.workspace.Workspace()
    env.build(typegraph.build, types, ws, mod)
    model = mod.model.ImplementationModel(ws)
    generator = mod.generator.TypeGenerator(model)
    requested, reached, outcomes = set(), set(), []
    disk.mkdir("out")
    for op in plan["ops"]:
        if not plan.get("same_generator"):
            generator = mod.generator.TypeGenerator(model)
        if op["op"] == "request":
            outcomes.append(request(op, types, ws, model, requested, reached, env))
        elif op["op"] == "text":
            with bounded(types, env):
                text = env.must("header", generator.write_type_header_str)
            check_header(types, requested, text, env)
            env.probe("header between requests")
        elif op["op"] == "write":
            write(op, types, requested, generator, env)
    env.shape([(t["kind"], typegraph.edges(t)) for t in types], outcomes, sorted(env.faults))
    env.log(outcomes, disk.digest())


def request(op, types, ws, model, requested, reached, env):
    """One create_from_ref / create_from_element call"""
    i = op["type"]
    if i != "missing" and not 0 <= i < len(types):
        raise Invalid("type index")
    should = typegraph.requestable(types, i)
    path = "/No/Such" if i == "missing" else typegraph.path(types[i])
    try:
        with bounded(types, env):
            if op["via"] == "element" and i != "missing":
                made = model.create_from_element(ws.find(path))
            else:
                made = model.create_from_ref(path)
    except Violation:
        raise
    except Exception as exc:
        if should:
            raise Violation("request-rejected", f"{path}: {describe(exc)}") from exc
        env.probe("request failed")
        return f"{i}!"
    if not should:
        raise Violation("request-accepted", f"{path} has an unresolvable or unsupported dependency and was accepted")
    check_element(made, types[i], path, env)
    if i in requested:
        env.probe("request repeated")
    elif i in reached:
        env.probe("requested after being a dependency")
    requested.add(i)
    reached |= typegraph.closure(types, [i])
    return str(i)


@contextlib.contextmanager
def bounded(types, env):
    """Progress: generating finishes within a number of steps that follows from the number of types and dependencies"""
    if len(types) <= 20:
        yield
        return
    env.probe("large graph")
    size = len(types) + sum(len(typegraph.edges(t)) for t in types)
    with interrupt.bounded(60 * size ** 2, f"a request or the header of {len(types)} types"):
        yield


def check_element(made, t, path, env):
    """The model element a request returns is the requested type"""
    want = {"name": t["name"], "ref": path}
    if t["kind"] != "base":
        want["symbol_name"] = t.get("symbol") or t["name"]
    for attr, value in want.items():
        if str(getattr(made, attr)) != value:
            raise Violation("wrong-element", f"request for {path}: {attr} is {getattr(made, attr)!r} instead of {value!r}")
    if t["kind"] == "array":
        last = made.sub_elements[-1]
        for attr, key in (("impl_policy", "array_impl_policy"), ("size_handling", "array_size_handling"),
                          ("size_semantics", "array_size_semantics")):
            have = getattr(last, attr)
            if (None if have is None else have.name) != t.get(key):
                raise Violation("wrong-element", f"request for {path}: {attr} is {have} instead of {t.get(key)}")
        if any(t.get(key) for key in typegraph.ARRAY_OPTIONS):
            env.probe("array with policy, size handling or size semantics")


def write(op, types, requested, generator, env):
    """write_type_header to disk"""
    disk = env.disk
    counts = {"open": 1, "write": 1, "close": 1, "bytes": 1500}
    disk.begin(op["faults"], counts)
    error = None
    try:
        with bounded(types, env):
            generator.write_type_header(disk.path("out"))
    except Violation:
        disk.end()
        raise
    except Exception as exc:
        error = exc
    fired = env.fired(disk.end())
    harmful = any(not (n.endswith(":short") or n.endswith(":EINTR") or n == "chunked-io") for n in fired)
    if error is not None:
        if not harmful:
            raise Violation("header-failed", describe(error))
        env.probe("header write failed")
        return
    data = disk.get("out/Rte_Type.h")
    if data is None:
        raise Violation("header-missing", "write_type_header returned without a file")
    check_header(types, requested, data.decode("utf-8"), env)


TYPEDEF = re.compile(r"typedef\s+(.+?)\s*(\*?)\s*(\w+)\s*(?:\[\s*(\d+)\s*\])?$", re.S)
STRUCT = re.compile(r"struct\s+(\w+)\s*\{(.*)\}\s*$", re.S)


def preprocess(text, macros):
    """What a compiler sees of a header: the text without directives, plus the includes and macros it leaves behind"""
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    out, active, includes = [], [], []
    for line in text.split("\n"):
        line = line.split("//")[0]
        match = re.match(r"\s*#\s*(\w+)\s*(.*?)\s*$", line)
        if not match:
            if all(active):
                out.append(line)
            continue
        word, rest = match.groups()
        if word in ("ifdef", "ifndef"):
            active.append((rest in macros) == (word == "ifdef"))
        elif word == "else" and active:
            active[-1] = not active[-1]
        elif word == "endif" and active:
            active.pop()
        elif word == "define":
            if all(active):
                macros.add(rest.split()[0])
        elif word == "include":
            if all(active):
                includes.append((rest, sum(1 for x in out if x.strip())))
        elif word not in ("pragma", "error", "undef"):
            raise Violation("header-unparsable", f"directive {line.strip()!r}")
    if active:
        raise Violation("header-unparsable", "a conditional section is not closed")
    return "\n".join(out), includes


def compile_units(text):
    """The text a C compiler sees, after checking what every including file relies on"""
    macros = set()
    body, includes = preprocess(text, macros)
    if 'extern "C"' in body:
        raise Violation("not-c", 'a C compiler sees extern "C"')
    if [name for name, _ in includes] != ['"Rte.h"'] or includes[0][1] > 0:
        raise Violation("include-missing", f"Rte.h has to be included before the first definition; includes {includes}")
    again, _ = preprocess(text, macros)
    if again.strip():
        raise Violation("no-include-guard", f"the second inclusion repeats {again.strip()[:80]!r}")
    cpp, cpp_includes = preprocess(text, {"__cplusplus"})
    match = re.match(r'\s*extern\s+"C"\s*\{(.*)\}\s*$', cpp, re.S)
    if not match or match.group(1).split() != body.split() or [n for n, _ in cpp_includes] != [n for n, _ in includes]:
        raise Violation("no-c-linkage", "a C++ compiler does not see the same definitions with C linkage")
    return body


def parse(text):
    """Definitions in order: (name, kind, used names, array size)"""
    body = compile_units(text)
    statements, depth, cur = [], 0, ""
    for char in body:
        if char == "{":
            depth += 1
        elif char == "}":
            depth -= 1
        if char == ";" and depth == 0:
            statements.append(cur.strip())
            cur = ""
        else:
            cur += char
    structs, out = {}, []
    for st in statements:
        match = STRUCT.match(st)
        if match:
            members = []
            for member in match.group(2).split(";"):
                member = member.strip()
                if member:
                    typ, name = member.rsplit(None, 1)
                    members.append((name, typ.strip()))
            structs[match.group(1)] = members
            out.append(("struct", match.group(1), members, None))
            continue
        match = TYPEDEF.match(st)
        if not match:
            raise Violation("header-unparsable", st[:200])
        used, star, name, size = match.groups()
        if used.startswith("struct "):
            tag = used.split()[1]
            if tag not in structs:
                raise Violation("use-before-definition", f"struct {tag} in {st}")
            out.append(("record", name, structs[tag], None))
        else:
            out.append(("pointer" if star else "array" if size else "plain", name, used.strip(), size))
    return out


def check_header(types, requested, text, env):
    """Compare a header with the model of the graph and with a fresh model"""
    need = typegraph.closure(types, requested)
    want = {types[i]["name"]: i for i in need if typegraph.emitted(types, i)}
    if any(not typegraph.emitted(types, i) for i in need):
        env.probe("type emitted elsewhere")
    defs = [d for d in parse(text) if d[0] != "struct"]
    names = [d[1] for d in defs]
    for name in names:
        if names.count(name) > 1:
            raise Violation("defined-twice", name)
        if name not in want:
            raise Violation("unexpected-definition", f"{name}; requested {sorted(requested)}")
    missing = sorted(set(want) - set(names))
    if missing:
        raise Violation("definition-missing", f"{missing}; requested {sorted(requested)}; header has {names}")
    seen = set()
    for kind, name, used, size in defs:
        i = want[name]
        t = types[i]
        expect = {"base": "plain", "scalar": "plain", "ref": "plain"}.get(t["kind"], t["kind"])
        if kind != expect:
            raise Violation("wrong-definition", f"{name} ({t['kind']}) is defined as {kind}")
        if t["kind"] == "base":
            if used != t["native"]:
                raise Violation("wrong-definition", f"{name}: {used} instead of {t['native']}")
        else:
            deps = typegraph.definition(types, i)
            have = [m[1] for m in used] if kind == "record" else [used]
            if have != deps or (kind == "record" and [m[0] for m in used] != [m["name"] for m in t["members"]]):
                raise Violation("wrong-definition", f"{name}: uses {have} instead of {deps}")
            if kind == "array" and int(size) != t.get("size", 1):
                raise Violation("wrong-definition", f"{name}: size {size}")
            for dep in deps:
                if dep in want and dep not in seen:
                    raise Violation("use-before-definition", f"{name} uses {dep}, which is defined later")
        seen.add(name)
    fresh = env.isolated(lambda: reference_header(types, requested, env.mod))
    if fresh != text:
        raise Violation("history-dependent", f"a fresh model given {sorted(requested)} yields a different header:\n"
                        + first_difference(fresh, text))


def first_difference(a, b):
    for x, y in zip(a.split("\n") + ["<end>"], b.split("\n") + ["<end>"]):
        if x != y:
            return f"fresh: {x!r}  this: {y!r}"
    return "lengths differ"
