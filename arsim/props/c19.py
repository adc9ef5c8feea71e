"""C19: content the reader does not know disturbs nothing else, and is reported"""
import json
import os
import re

import lxml.etree as ET

from .. import canon, gen, outops, work
from ..core import Invalid, Skip, Violation

PROPERTY = "C19"
QUICK = 10400
THOROUGH = 300000
RULE = ("a run writes 1-3 random documents, inserts foreign content into the stored files (unknown elements with their own "
        "content at any depth, of AUTOSAR's and of other namespaces, known content the library has no class for, foreign "
        "attributes), and has one reader read them in 2-6 reads, from files under short and failing reads and from strings, "
        "tolerant and with stop_on_error; every model must equal that of the document without the foreign content, every "
        "unknown element at a reporting place must be reported once per document with file and line; distinct = different "
        "(places, namespaces, kinds of reads, options)")
COMPONENTS = {"real": ["autosar.xml.reader", "autosar.xml.element", "autosar.xml.writer", "lxml/libxml2"],
              "simulated": ["foreign content of the stored document (disk image)", "read results (simio)"],
              "oracle": ["the document without foreign content, read by a new reader", "lines of the stored file"]}
ASSUMPTIONS = ["foreign content stands beside other content, not inside an element that holds exactly one value or a plain "
               "list of values (arsim/foreign.json lists the places)"]
PROBES = ["reported", "reported with full path", "reporting switched off", "one tag at several places", "one tag in several documents",
          "foreign namespace", "known name in a foreign namespace", "foreign attribute", "unsupported AUTOSAR content", "unsupported part of running text", "administrative data",
          "failing read", "read again"]

NS = "{http://autosar.org/schema/r4.0}"
VENDOR = "{http://vendor.example/ext}"
with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "foreign.json"), encoding="utf-8") as _handle:
    PLACES = json.load(_handle)
REPORT, NEUTRAL = frozenset(PLACES["report"]), frozenset(PLACES["neutral"])
UNSUPPORTED = ["VARIATION-POINT", "FILE-INFO-COMMENT", "BLUEPRINT-POLICYS", "SHORT-NAME-PATTERN", "SHORT-NAME-FRAGMENTS"]
KINDS = ["report", "neutral", "attribute", "unsupported", "namesake", "inline", "admin"]
# parts of running text the AUTOSAR schema has and the library has no class for
INLINE = {"L-1": ["FT", "STD", "TRACE-REF", "XDOC", "XFILE", "XREF", "XREF-TARGET"], "L-2": ["FT", "TRACE-REF", "XREF"], "L-5": ["XREF"]}
BODIES = ["", "text", "name", "deep", "value", "copy"]
LINE = re.compile(r"^(.*)\((\d+)\): Unprocessed element <(\{[^}]*\})?([^>]*)>$")
OURS = re.compile(r"[RN]-FOREIGN-\d+$")


def generate(rng, profile):
    docs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        if rng.random() < 0.6:
            g = gen.Gen(rng, size=2, density=rng.choice([0.3, 0.6, 0.9]), exotic_text=rng.choice([0.0, 0.0, 0.3]))
            elements = []
            for i in range(rng.choice([1, 2, 3])):
                elem = g.aimed()
                elem["a"]["name"] = f"E{i}"
                elements.append(elem)
            package = {"name": "P", "attrs": {}, "elements": elements, "packages": []}
            doc = {"schema_version": rng.choice(work.SCHEMA_VERSIONS), "packages": [package]}
        else:
            doc = work.doc_plan(rng, big=0.02, exotic=rng.choice([0.0, 0.0, 0.3]))
        foreign = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            item = {"kind": rng.choice(["report", "report", "report", "neutral", "neutral", "unsupported", "attribute", "namesake", "inline", "admin"]),
                    "at": rng.random(), "which": rng.random(), "pos": rng.random(), "tag": rng.randrange(4), "body": rng.choice(BODIES)}
            foreign.append(item)
        docs.append({"doc": doc, "foreign": foreign})
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        op = {"doc": rng.randrange(len(docs)), "via": rng.choice(["file", "file", "str"]), "stop": rng.random() < 0.5, "faults": []}
        if op["via"] == "file":
            op["faults"] = work.benign_input(rng)
            if rng.random() < 0.15:
                op["faults"] = [{"kind": rng.choice(["read", "open"]), "do": "errno", "at": work.position(rng), "arg": rng.choice([5, 13])}]
        ops.append(op)
    args = {}
    if rng.random() < 0.3:
        args["warn_on_unprocessed_element"] = rng.random() < 0.3
    if rng.random() < 0.4:
        args["use_full_path_on_warning"] = rng.random() < 0.7
    return {"docs": docs, "ops": ops, "args": args}


def local(node):
    return node.tag.rsplit("}", 1)[-1]


def place(node):
    """Where foreign content would stand when inserted into this element"""
    parent = node.getparent()
    return f"{local(parent) if parent is not None else ''}/{local(node)}"


def choose(items, frac):
    return items[min(int(frac * len(items)), len(items) - 1)]


def body(node, kind, neighbour):
    """Content of a foreign element"""
    if kind == "text":
        node.text = "foreign <text> & more"
    elif kind == "name":
        ET.SubElement(node, NS + "SHORT-NAME").text = "Foreign"
    elif kind == "deep":
        inner = ET.SubElement(ET.SubElement(node, NS + "AR-PACKAGES"), NS + "AR-PACKAGE")
        ET.SubElement(inner, NS + "SHORT-NAME").text = "P"
        ET.SubElement(ET.SubElement(inner, NS + "ELEMENTS"), NS + "UNIT")
    elif kind == "value":
        ET.SubElement(node, NS + "VALUE").text = "17"
        ET.SubElement(node, VENDOR + "VALUE", attrib={VENDOR + "x": "1"})
    elif kind == "copy" and neighbour is not None:
        node.append(neighbour)


def admin_data(item):
    """ADMIN-DATA as other tools write it: languages, revisions, nested, unnamed and captioned groups, references"""
    node, code = ET.Element(NS + "ADMIN-DATA"), int(item["which"] * 4096)
    if code & 1:
        ET.SubElement(node, NS + "LANGUAGE").text = "EN"
    if code & 2:
        revision = ET.SubElement(ET.SubElement(node, NS + "DOC-REVISIONS"), NS + "DOC-REVISION")
        ET.SubElement(revision, NS + "REVISION-LABEL").text = "1.0.0"
    groups = ET.SubElement(node, NS + "SDGS") if code & 12 else None
    for i in range((code >> 2) & 3):
        group = ET.SubElement(groups, NS + "SDG")
        form = (code >> (4 + 2 * i)) & 7
        if form != 1:
            group.set("GID", f"Group{i}")
        if form == 2:
            ET.SubElement(ET.SubElement(group, NS + "SDG-CAPTION"), NS + "SHORT-NAME").text = "Caption"
        if form == 3:
            inner = ET.SubElement(group, NS + "SDG", attrib={"GID": "Inner"})
            ET.SubElement(inner, NS + "SD", attrib={"GID": "Key"}).text = "text"
        if form == 4:
            ET.SubElement(group, NS + "SD-REF", attrib={"DEST": "AR-PACKAGE"}).text = "/P"
        if form == 5:
            ET.SubElement(group, NS + "SD").text = "no key"
        if form in (0, 1, 7):
            ET.SubElement(group, NS + "SD", attrib={"GID": "Key"}).text = "text & text"
        if form == 7:
            ET.SubElement(group, NS + "SD", attrib={"GID": "More"})
    return node


def split(node, child, item):
    """Puts a part into running text: the text around it stays what it was"""
    index = int(item["pos"] * (len(node) + 1))
    before = node[index - 1] if index else None
    text = (node.text if before is None else before.tail) or ""
    cut = int(item["which"] * 97) % (len(text) + 1)
    if before is None:
        node.text = text[:cut]
    else:
        before.tail = text[:cut]
    node.insert(index, child)
    child.tail = text[cut:]


def insert(data, foreign, env):
    """-> (stored bytes with foreign content, tags that must be reported, tags that may be)"""
    root = ET.fromstring(data)
    spots = {kind: [] for kind in KINDS}
    for node in root.iter():
        if isinstance(node.tag, str) and local(node) in INLINE:
            spots["inline"].append(node)
        if not isinstance(node.tag, str) or len(node) == 0 or (node.text or "").strip() or any((c.tail or "").strip() for c in node):
            continue
        key = place(node)
        if key in REPORT:
            spots["report"].append(node)
        elif key in NEUTRAL:
            spots["neutral"].append(node)
        else:
            continue
        spots["unsupported"].append(node)
        spots["namesake"].append(node)
        spots["attribute"].append(node)
        if node.find(NS + "SHORT-NAME") is not None and node.find(NS + "ADMIN-DATA") is None:
            spots["admin"].append(node)
    must, may, shape = set(), set(), []
    # all decisions first: the foreign content itself is no place for more of it
    todo = []
    for item in foreign:
        kinds = sorted({place(n) for n in spots[item["kind"]]})
        if kinds:
            key = choose(kinds, item["at"])
            node = choose([n for n in spots[item["kind"]] if place(n) == key], item["which"])
            neighbour = choose(list(node), item["pos"]) if len(node) else None
            todo.append((item, node, ET.fromstring(ET.tostring(neighbour, with_tail=False))
                         if neighbour is not None and isinstance(neighbour.tag, str) else None))
    for item, node, neighbour in todo:
        space = NS if item["tag"] % 2 == 0 else VENDOR
        key = place(node)
        if item["kind"] == "attribute":
            node.set(VENDOR + f"a{item['tag']}", "foreign")
            env.probe("foreign attribute")
            env.fault("foreign attribute")
        elif item["kind"] == "inline":
            tags = INLINE[local(node)]
            name = tags[int(item["at"] * 1009) % len(tags)]
            child = ET.Element(NS + name)
            body(child, item["body"], neighbour)
            split(node, child, item)
            must.add(name)
            env.probe("unsupported part of running text")
            env.fault("unsupported part of running text")
        elif item["kind"] == "admin":
            if node.find(NS + "ADMIN-DATA") is not None:
                continue
            node.insert(1, admin_data(item))
            env.probe("administrative data")
            env.fault("administrative data")
        else:
            if item["kind"] == "unsupported":
                tag = NS + UNSUPPORTED[item["tag"] % len(UNSUPPORTED)]
                env.probe("unsupported AUTOSAR content")
            elif item["kind"] == "namesake":
                tag = VENDOR + (local(neighbour) if neighbour is not None else "SHORT-NAME")
                env.probe("known name in a foreign namespace")
            else:
                name = f"{item['kind'][0].upper()}-FOREIGN-{item['tag']}"
                tag = space + name
                if item["kind"] == "report":
                    if name in must:
                        env.probe("one tag at several places")
                    must.add(name)
                else:
                    may.add(name)
                if space == VENDOR:
                    env.probe("foreign namespace")
            child = ET.Element(tag)
            body(child, item["body"], neighbour)
            child.tail = "\n"
            node.insert(int(item["pos"] * (len(node) + 1)), child)
            env.fault(f"foreign element ({item['kind']})")
        shape.append((item["kind"], key, item["tag"], item["body"]))
    return ET.tostring(root, encoding="utf-8", xml_declaration=True), must, may, shape


def read(reader, data, op, disk, counts=None):
    """-> (document, error, diagnostics, faults fired)"""
    doc = error = None
    name = f"doc{op['doc']}.arxml"
    from ..core import Quiet
    with Quiet() as out:
        disk.begin(op["faults"], counts)
        try:
            if op["via"] == "str":
                doc = reader.read_str(data.decode("utf-8"), stop_on_error=op["stop"])
            else:
                doc = reader.read_file(disk.path(name), stop_on_error=op["stop"])
        except Exception as exc:  # pylint: disable=broad-exception-caught
            error = exc
        fired = disk.end()
    return doc, error, out.getvalue().splitlines(), fired


def run(plan, env):
    mod, disk, args = env.mod, env.disk, plan["args"]
    stored = []
    for item in plan["docs"]:
        desc = item["doc"]
        if desc["schema_version"] not in work.SCHEMA_VERSIONS or not gen.valid(desc["packages"]):
            raise Invalid("document")
        if any(f["kind"] not in KINDS or f["body"] not in BODIES for f in item["foreign"]):
            raise Invalid("foreign content")
        doc = env.build(gen.build_document, desc, mod)
        data = env.build(lambda d=doc: mod.writer.Writer().write_str(d, skip_root_attr=False)).encode("utf-8")
        op = {"doc": len(stored), "via": "str", "stop": True, "faults": []}
        want, error, lines, _ = read(mod.reader.Reader(), data, op, disk)
        if error is not None or want is None:
            raise Skip("document without foreign content not readable")
        text, must, may, shape = insert(data, item["foreign"], env)
        known = sorted(LINE.sub(r"\4", line) for line in lines)
        stored.append({"want": normal(canon.canon(want)), "known": known, "data": text, "must": must, "may": may, "shape": shape,
                       "lines": text.split(b"\n")})
        disk.put(f"doc{len(stored) - 1}.arxml", text)
    reader = env.build(lambda: mod.reader.Reader(**args))
    history, reported = [], {}
    for op in plan["ops"]:
        if not 0 <= op["doc"] < len(stored):
            raise Invalid("operation")
        counts = None
        if op["faults"]:
            plain = dict(op, faults=[])
            read(mod.reader.Reader(), stored[op["doc"]]["data"], plain, disk)
            counts = disk.counts()
        item = stored[op["doc"]]
        doc, error, lines, fired = read(reader, item["data"], op, disk, counts)
        env.fired(fired)
        where = f"read {len(history)} (document {op['doc']}, {op['via']}{', stop_on_error' if op['stop'] else ''}) after {history}, {item['shape']}"
        if any(outops.is_harmful(n) for n in fired):
            env.probe("failing read")
            if error is not None:
                history.append("failed")
                continue
            # an error behind the end of the document may go unnoticed
        if error is not None:
            raise Violation("foreign-content-stops-reading", f"{where}: {type(error).__name__}: {error}")
        judge_model(item, doc, where)
        judge_reports(item, lines, op, args, where, env)
        if op["doc"] in reported:
            env.probe("read again")
        for name in item["must"]:
            if any(name in stored[k]["must"] for k in reported if k != op["doc"]):
                env.probe("one tag in several documents")
        reported[op["doc"]] = True
        history.append(f"read {op['doc']}")
    env.shape([s["shape"] for s in stored], [(o["doc"], o["via"], o["stop"]) for o in plan["ops"]], sorted(args.items()))
    env.log(history, sorted(env.faults), disk.digest())


def normal(form):
    """Running text joined, administrative data left out: the library keeps a part of it in no defined form"""
    if isinstance(form, dict):
        form = {k: normal(v) for k, v in form.items() if k != "admin_data"}
        if isinstance(form.get("parts"), list):
            parts = []
            for part in form["parts"]:
                if isinstance(part, str) and parts and isinstance(parts[-1], str):
                    parts[-1] += part
                elif part != "":
                    parts.append(part)
            form["parts"] = parts
        return form
    return [normal(x) for x in form] if isinstance(form, list) else form


def judge_model(item, doc, where):
    """What was read is what is read without the foreign content"""
    if doc is None:
        raise Violation("nothing-read", where)
    res = canon.diff(item["want"], normal(canon.canon(doc)))
    if res:
        raise Violation("foreign-content-changes-model", f"{where}: at {res[0]}: {str(res[1])[:200]} / {str(res[2])[:200]}")


def judge_reports(item, lines, op, args, where, env):
    """Each unknown element once, with file and line"""
    seen, rest = {}, []
    for line in lines:
        match = LINE.match(line)
        if match and (OURS.match(match.group(4)) or match.group(4) in item["must"]):
            seen.setdefault(match.group(4), []).append((match.group(1), int(match.group(2))))
        elif match and match.group(3) != VENDOR:
            rest.append(match.group(4))
        elif match:
            continue
        elif line.strip():
            raise Violation("unexpected-diagnostic", f"{where}: {line!r}")
    if not args.get("warn_on_unprocessed_element", True):
        if lines:
            raise Violation("reported-although-switched-off", f"{where}: {lines[:3]}")
        env.probe("reporting switched off")
        return
    if sorted(t for t in rest if t not in UNSUPPORTED and t != "ADMIN-DATA") != item["known"]:
        raise Violation("other-reports-changed", f"{where}: {rest}, without foreign content {item['known']}")
    file = ""
    if op["via"] == "file":
        file = env.disk.path(f"doc{op['doc']}.arxml") if args.get("use_full_path_on_warning") else f"doc{op['doc']}.arxml"
    for name in sorted(item["must"]):
        if name not in seen:
            raise Violation("not-reported", f"{where}: <{name}>, diagnostics {lines[:5]}")
        env.probe("reported with full path" if args.get("use_full_path_on_warning") and file else "reported")
    for name, entries in seen.items():
        if name not in item["must"] and name not in item["may"]:
            raise Violation("reported-of-another-document", f"{where}: <{name}>")
        if len(entries) > 1:
            raise Violation("reported-repeatedly", f"{where}: <{name}> {entries}")
        for got, line in entries:
            if got != file:
                raise Violation("wrong-file", f"{where}: <{name}> reported for {got!r} instead of {file!r}")
            if not 0 < line <= len(item["lines"]) or not re.search(rb"<(?:\w+:)?" + name.encode() + rb"\b", item["lines"][line - 1]):
                raise Violation("wrong-line", f"{where}: <{name}> reported for line {line}")
