"""C07: a reader's result depends only on the document it is given, not on its history"""
import copy
import enum
import re

import lxml.etree as ET

from .. import canon, damage, gen, interrupt, outops, work
from ..core import Invalid, Skip, Violation

PROPERTY = "C07"
QUICK = 5200
THOROUGH = 200000
RULE = ("a run performs 2-7 reads with one reader: documents of different schema versions, with unusual or no schema "
        "information, with damaged, duplicate or unsupported elements, malformed documents, missing or failing files, single "
        "elements, and reads interrupted at a planned executed line; each result (model, schema version and file, error, "
        "diagnostics) is compared with that of a new reader in a separate process under the same faults; distinct = "
        "different (kinds of reads, outcomes, faults fired)")
COMPONENTS = {"real": ["autosar.xml.reader", "autosar.xml.element", "autosar.xml.document", "lxml/libxml2"],
              "simulated": ["open/read results (simio)", "damage of stored documents", "asynchronous exceptions (sys.monitoring)"],
              "oracle": ["a new reader in a separate process"]}
ASSUMPTIONS = ["interruptions arrive at line boundaries of library code"]
PROBES = ["interrupted read", "failing read", "malformed document", "damaged document", "other schema information",
          "no schema information", "single element", "file read", "string read", "diagnostics printed", "same document again",
          "result changed by its user", "twins read"]

ROOTS = ["as written", "as written", "none", "other", "newest", "no number", "attribute order", "no namespace"]


def generate(rng, profile):
    docs = []
    for _ in range(rng.choice([1, 2, 3])):
        docs.append({"doc": work.doc_plan(rng, big=0.02, exotic=rng.choice([0.0, 0.2])),
                     "hits": damage.random_hits(rng) if rng.random() < 0.5 else [],
                     "root": rng.choice(ROOTS), "broken": rng.choice([None, None, None, None, "cut", "tag", "root", "nul"])})
    for item in docs:
        for package in item["doc"]["packages"]:
            if package["elements"] and rng.random() < 0.4:
                # an element with the same parts as another
                twin = copy.deepcopy(rng.choice(package["elements"]))
                twin["a"]["name"] += "_twin"
                if all(e["a"]["name"] != twin["a"]["name"] for e in package["elements"] + [{"a": p} for p in package["packages"]]):
                    package["elements"].insert(rng.randrange(len(package["elements"]) + 1), twin)
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5, 7])):
        op = {"doc": rng.randrange(len(docs)), "via": rng.choice(["file", "file", "str", "str", "elem", "missing"]),
              "stop": rng.random() < 0.4, "change": rng.random() < 0.3}
        roll = rng.random()
        if roll < 0.2:
            op["interrupt"] = rng.random()
            op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
        elif roll < 0.4 and op["via"] == "file":
            op["faults"] = [rng.choice([{"kind": "read", "do": "errno", "at": work.position(rng), "arg": 5},
                                        {"kind": "read", "do": "eof", "at": work.position(rng)},
                                        {"kind": "open", "do": "errno", "at": 0.0, "arg": rng.choice([13, 24, 5])}])]
        if op["via"] == "elem":
            op["sub"] = rng.random()
        ops.append(op)
    return {"docs": docs, "ops": ops, "args": rng.choice(ARGS)}


ADDRESS = re.compile(r" at 0x[0-9a-f]+")
ARGS = [{}, {}, {}, {"warn_on_unprocessed_element": False}, {"use_full_path_on_warning": True}, {"schema_version": 49}]


def source(item, env):
    """Bytes of one stored document"""
    desc = item["doc"]
    if desc["schema_version"] not in work.SCHEMA_VERSIONS or not gen.valid(desc["packages"]):
        raise Invalid("document")
    doc = env.build(gen.build_document, desc, env.mod)
    data = env.build(lambda: env.mod.writer.Writer().write_str(doc, skip_root_attr=False)).encode("utf-8")
    if item["hits"]:
        root = ET.fromstring(data)
        damage.apply(root, item["hits"])
        data = damage.to_bytes(root)
        env.probe("damaged document")
    how = item["root"]
    if how == "none":
        data = re.sub(rb'\s+xsi:schemaLocation="[^"]*"', b"", data)
        env.probe("no schema information")
    elif how == "other":
        data = re.sub(rb"AUTOSAR_\d+\.xsd", b"AUTOSAR_00047.xsd", data)
    elif how == "newest":
        data = re.sub(rb"AUTOSAR_\d+\.xsd", b"AUTOSAR_00060.xsd", data)
    elif how == "no number":
        data = re.sub(rb"AUTOSAR_\d+\.xsd", b"AUTOSAR.xsd", data)
    elif how == "no namespace":
        data = re.sub(rb'\s+xmlns="[^"]*"', b"", data)
    elif how == "attribute order":
        data = re.sub(rb"<AUTOSAR ", b'<AUTOSAR xml:lang="de" ', data)
    if how not in ("as written", "none"):
        env.probe("other schema information")
    broken = item.get("broken")
    if broken:
        env.probe("malformed document")
    if broken == "cut":
        data = data[:len(data) * 2 // 3]
    elif broken == "tag":
        data = data.replace(b"</SHORT-NAME>", b"</SHORTNAME>", 1)
    elif broken == "root":
        data = data.replace(b"<AUTOSAR", b"<OTHER", 1).replace(b"</AUTOSAR", b"</OTHER")
    elif broken == "nul":
        data = data[:len(data) // 2] + b"\0\1" + data[len(data) // 2:]
    return data


def element_text(data, sub):
    """One element of a document, as read_str_elem takes it"""
    try:
        root = ET.fromstring(data)
    except ET.XMLSyntaxError:
        return "<BROKEN>"
    nodes = [n for k, n in damage.targets(root) if k == "element"]
    node = damage.pick(nodes, sub)
    if node is None:
        return "<NOTHING/>"
    for item in node.iter():
        if isinstance(item.tag, str):
            item.tag = damage.strip(item.tag)
    return ET.tostring(node, encoding="unicode")


def perform(reader, op, texts, env, counts, lines=None):
    """One read -> comparable outcome"""
    disk = env.disk
    name = f"doc{op['doc']}.arxml" if op["via"] != "missing" else "missing.arxml"
    result = error = None
    interrupted = None
    disk.begin(op.get("faults", []), counts)
    with env.quiet() as out:
        try:
            if "interrupt" in op and lines is not None:
                with interrupt.clock(int(op["interrupt"] * lines), op["exc"]) as clock:
                    try:
                        result = call(reader, op, texts, disk, name)
                    finally:
                        interrupted = clock.fired
            else:
                result = call(reader, op, texts, disk, name)
        except BaseException as exc:  # pylint: disable=broad-exception-caught
            error = ADDRESS.sub(" at ...", f"{type(exc).__name__}: {exc}")
    fired = disk.end()
    outcome = {"error": error, "printed": ADDRESS.sub(" at ...", out.getvalue()), "fired": fired, "interrupted": interrupted,
               "model": canon.canon(result) if result is not None else None,
               "version": getattr(result, "schema_version", None), "file": getattr(result, "schema_file", None)}
    return outcome, result


def call(reader, op, texts, disk, name):
    text = texts[op["doc"]]
    if op["via"] in ("file", "missing"):
        return reader.read_file(disk.path(name), stop_on_error=op["stop"])
    if op["via"] == "str":
        return reader.read_str(text.decode("utf-8"), stop_on_error=op["stop"])
    return reader.read_str_elem(element_text(text, op["sub"]))


def run(plan, env):
    mod, disk = env.mod, env.disk
    texts = [source(item, env) for item in plan["docs"]]
    args = plan["args"]
    try:
        mod.reader.Reader(**args)
    except TypeError as exc:
        raise Skip("reader options") from exc
    for op in plan["ops"]:
        if not 0 <= op["doc"] < len(texts) or op.get("exc", "MemoryError") not in interrupt.EXCEPTIONS \
                or (op["via"] == "elem" and "sub" not in op) or ("interrupt" in op) != ("exc" in op):
            raise Invalid("operation")
    for i, data in enumerate(texts):
        disk.put(f"doc{i}.arxml", data)
    wants = []
    for op in plan["ops"]:
        wants.append(env.isolated(lambda o=op: fresh(o, texts, env, args)))
    reader = mod.reader.Reader(**args)
    history, kept = [], []
    for op, (want, counts, lines) in zip(plan["ops"], wants):
        got, result = perform(reader, op, texts, env, counts, lines)
        env.fired(got["fired"])
        where = f"read {len(history)} ({op['via']}, document {op['doc']}) after {history}"
        if got["interrupted"] or want["interrupted"]:
            env.fault(f"interrupt:{op['exc']}")
            env.probe("interrupted read")
            history.append("interrupted")
            continue
        if got["error"] != want["error"]:
            raise Violation("different-error", f"{where}: {got['error']}; a new reader: {want['error']}")
        if (got["version"], got["file"]) != (want["version"], want["file"]):
            raise Violation("different-schema", f"{where}: {got['version']} {got['file']}; new reader {want['version']} {want['file']}")
        if got["model"] != want["model"]:
            res = canon.diff(want["model"], got["model"])
            raise Violation("different-model", f"{where}: at {res and res[0]}: new reader {str(res and res[1])[:150]} "
                            f"this {str(res and res[2])[:150]}")
        if got["printed"] != want["printed"]:
            raise Violation("different-diagnostics", f"{where}: {got['printed'][:300]!r}; a new reader: {want['printed'][:300]!r}")
        if any(outops.is_harmful(n) for n in got["fired"]):
            env.probe("failing read")
        env.probe({"file": "file read", "missing": "file read", "str": "string read", "elem": "single element"}[op["via"]])
        if got["printed"]:
            env.probe("diagnostics printed")
        history.append("error" if got["error"] else "ok")
        if result is None:
            continue
        if any(result is other for other, _ in kept):
            raise Violation("shared-result", f"{where}: the same object as an earlier read")
        if op.get("change") and isinstance(result, mod.document.Document):
            change(result, mod, where, env)
            env.probe("result changed by its user")
        kept.append((result, canon.canon(result)))
    for result, before in kept:
        res = canon.diff(before, canon.canon(result))
        if res:
            raise Violation("earlier-result-changed", f"later reads changed an earlier result at {res[0]}: {history}")
    if len({op["doc"] for op in plan["ops"]}) < len(plan["ops"]):
        env.probe("same document again")
    env.shape([(o["via"], o["stop"]) for o in plan["ops"]], history, sorted(env.faults), [d["root"] for d in plan["docs"]])
    env.log(history, disk.digest())


def change(doc, mod, where, env):
    """What a user may do with a model it was given: every second element is changed throughout, the others stay"""
    elements = [e for p in doc.packages for e in p.elements]
    before = [canon.canon(e) for e in elements]
    twins = sum(e.name.endswith("_twin") for e in elements)
    doc.append(mod.element.Package("AddedByUser"))
    for package in doc.packages:
        package.append(mod.element.Unit("AddedUnit"))
    if twins:
        env.probe("twins read")
    for elem in elements[::2]:
        spoil(elem, mod, {id(elem.parent)})
    for elem, then in list(zip(elements, before))[1::2]:
        res = canon.diff(then, canon.canon(elem))
        if res:
            raise Violation("elements-share-parts", f"{where}: changing other elements of the document that was read changed {elem.name} at {res[0]}")


def spoil(obj, mod, seen):
    """Change every attribute and list below an object (references and enumerations are values)"""
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, list):
        for item in list(obj):
            spoil(item, mod, seen)
        obj.reverse()
        obj.extend(obj[:1])
    elif isinstance(obj, mod.element.ARObject) and not isinstance(obj, mod.element.BaseRef):
        for name, value in list(vars(obj).items()):
            if name == "parent" or name.startswith("_"):
                continue
            if isinstance(value, str) and name not in ("name",):
                setattr(obj, name, value + "CHANGED")
            elif isinstance(value, (int, float)) and not isinstance(value, (bool, enum.Enum)):
                setattr(obj, name, 4711)
            elif value is not None:
                spoil(value, mod, seen)


def fresh(op, texts, env, args):
    """The same read with a new reader -> (outcome, counts for placing faults, lines for placing interruptions)"""
    counts, lines = {}, None
    if op.get("faults"):
        plain = {k: v for k, v in op.items() if k != "faults"}
        env.disk.begin()
        perform(env.mod.reader.Reader(**args), plain, texts, env, {})
        counts = env.disk.counts()
    if "interrupt" in op:
        with interrupt.clock() as clock:
            perform(env.mod.reader.Reader(**args), {k: v for k, v in op.items() if k != "interrupt"}, texts, env, {})
        lines = clock.count
    return perform(env.mod.reader.Reader(**args), op, texts, env, counts, lines)[0], counts, lines
