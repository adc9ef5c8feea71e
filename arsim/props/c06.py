"""C06: a failed write leaves nothing open and nothing pending"""
import copy
import gc

from .. import gen, outops, work
from ..core import Invalid, Violation, describe

PROPERTY = "C06"
QUICK = 5200
THOROUGH = 300000
RULE = ("a run performs 2-7 output operations with one writer (documents, elements and texts; document sets and type headers "
        "in between), some with an element that cannot be written, some under disk faults; after every call open descriptors "
        "and writes through earlier descriptors are counted at the system-call seam, and outputs are compared with those of "
        "a new writer in a separate process; distinct = different (operation kinds, outcomes, faults fired)")
COMPONENTS = {"real": ["autosar.xml.writer", "autosar.xml.workspace", "autosar.generator.type_generator", "CPython io stack"],
              "simulated": ["results of open/write/close below the output directory (simio)"],
              "oracle": ["a new writer in a separate process"]}
ASSUMPTIONS = ["descriptors are observed below the scratch directory only"]
PROBES = ["changed and written again", "failed by disk", "failed by element", "success after failure", "same file rewritten after failure"]
KINDS = ["file", "file", "file", "elem", "elem", "str", "str_elem", "documents", "header"]
EDITABLE = ("file", "elem", "str", "str_elem")
POISON = ["class", "class", "category", "desc", "name"]
EDITS = ["category", "uuid", "name", "pop"]


def generate(rng, profile):
    ops = []
    for _ in range(rng.choice([2, 2, 3, 4, 5, 7])):
        op = outops.random_op(rng, KINDS, names=("a.arxml", "a.arxml", "b.arxml"))
        if op["op"] in ("file", "elem", "str", "str_elem") and rng.random() < 0.35:
            op["poison"] = {"at": rng.random(), "how": rng.choice(POISON)}
        if op["op"] == "str":
            op["skip_root_attr"] = rng.random() < 0.5
        faults = []
        if op["op"] not in ("str", "str_elem"):
            faults = work.output_faults(rng) if rng.random() < 0.4 else work.benign_output(rng)
        ops.append({"do": op, "faults": faults})
        if op["op"] in EDITABLE and "poison" not in op and rng.random() < 0.3:     # the same objects again, one of them changed
            faults = work.output_faults(rng) if rng.random() < 0.3 else work.benign_output(rng)
            ops.append({"again": len(ops) - 1, "at": rng.random(), "edit": rng.choice(EDITS), "value": rng.choice(["A", "CHANGED", "b-1"]),
                        "faults": [] if op["op"] in ("str", "str_elem") else faults})
    return {"ops": ops, "schema": rng.choice([None, None] + work.SCHEMA_VERSIONS)}


def elements(desc):
    """Element descriptions of an operation, in the order of `live_elements`"""
    if "elem" in desc:
        return [desc["elem"]]
    out = []

    def walk(package):
        out.extend(package["elements"])
        for sub in package["packages"]:
            walk(sub)
    for package in desc["doc"]["packages"]:
        walk(package)
    return out


def live_elements(root):
    """Elements of a live document, or the element itself"""
    if not hasattr(root, "packages"):
        return [root]
    out = []

    def walk(package):
        out.extend(package.elements)
        for sub in package.packages:
            walk(sub)
    for package in root.packages:
        walk(package)
    return out


def nodes(desc, live):
    """Pairs of description and live object, for everything both hold in the same place"""
    if live is None or type(live).__name__ != desc["$"]:
        return []
    out = [(desc, live)]
    for param in sorted(desc["a"]):
        value, have = desc["a"][param], getattr(live, param, None)
        if isinstance(value, dict) and "$" in value:
            out += nodes(value, have)
        elif objects(value) and isinstance(have, list) and len(have) == len(value):
            for sub, obj in zip(value, have):
                out += nodes(sub, obj)
    return out


def objects(value):
    return isinstance(value, list) and value and all(isinstance(v, dict) and "$" in v for v in value)


def change(op, subject, item):
    """Changes one attribute of one object and of its description -> whether it did"""
    spots = []
    for desc, live in zip(elements(op), live_elements(subject.root)):
        for node, obj in nodes(desc, live):
            if item["edit"] == "pop":
                spots += [(node, obj, p) for p in sorted(node["a"]) if objects(node["a"][p]) and isinstance(getattr(obj, p, None), list)
                          and len(getattr(obj, p)) == len(node["a"][p]) > 1]
            elif item["edit"] == "name":
                if isinstance(node["a"].get("name"), str) and getattr(obj, "name", None) == node["a"]["name"]:
                    spots.append((node, obj, "name"))
            elif item["edit"] in gen.SCHEMA["classes"][node["$"]]["params"] and getattr(obj, item["edit"], 0) == node["a"].get(item["edit"]):
                spots.append((node, obj, item["edit"]))
    if not spots:
        return False
    node, obj, param = spots[min(int(item["at"] * len(spots)), len(spots) - 1)]
    if item["edit"] == "pop":
        del node["a"][param][-1]
        del getattr(obj, param)[-1]
    else:
        node["a"][param] = item["value"]
        setattr(obj, param, item["value"])
    return True


def resolve(items):
    """[(operation, faults, index of the item whose objects it uses, edit or None)]"""
    out = []
    for i, item in enumerate(items):
        if "again" not in item:
            out.append((item["do"], item["faults"], i, None))
            continue
        if not isinstance(item["again"], int) or not 0 <= item["again"] < i or item["edit"] not in EDITS or not isinstance(item["value"], str):
            raise Invalid("again")
        first = out[item["again"]][2]
        if out[first][0]["op"] not in EDITABLE or "poison" in out[first][0]:
            raise Invalid("again")
        out.append((None, item["faults"], first, item))
    return out


def descriptions(items, env):
    """What each operation writes: the edits are applied to descriptions and to scratch objects"""
    out, current = [], {}
    for i, (op, _, first, edit) in enumerate(items):
        if edit is None:
            outops.check(op)
            current[i] = copy.deepcopy(op)
        else:
            change(current[first], outops.Subject(current[first], env), edit)
        out.append(copy.deepcopy(current[first]))
    return out


def run(plan, env):
    disk = env.disk
    args = () if plan.get("schema") is None else (plan["schema"],)
    if args and args[0] not in work.SCHEMA_VERSIONS:
        raise Invalid("schema version")
    wants = []
    items = resolve(plan["ops"])
    ops = descriptions(items, env)
    for op in ops:
        wants.append(outops.baseline(op, env, args))
    disk.fresh()
    disk.mkdir(outops.OUT)
    writer = env.mod.writer.Writer(*args)
    subjects, current = [], {}
    for i, (op, _, first, _) in enumerate(items):
        subjects.append(outops.Subject(op, env) if first == i else subjects[first])
        current[i] = copy.deepcopy(op)
    outcomes, failed_names, keep = [], set(), []
    for op, (_, faults, first, edit), want, subject in zip(ops, items, wants, subjects):
        if edit and change(current[first], subject, edit):
            env.probe("changed and written again")
        disk.begin(faults, want["counts"])
        error, text = None, None
        try:
            text = subject.run(writer)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            error = exc
        fired = env.fired(disk.end())
        where = f"operation {len(outcomes)} ({op['op']}) after {outcomes}, faults {fired}"
        left = disk.open_fds()
        if left:
            raise Violation("file-left-open", f"{left} open after {where}: {describe(error) if error else 'normal return'}")
        keep.append(error)
        harmful = any(outops.is_harmful(n) for n in fired)
        if error is not None and harmful:
            env.probe("failed by disk")
            outcomes.append("disk")
            failed_names |= set(want["files"])
            check_late(disk, where)
            continue
        if error is not None:
            if want["status"] == "ok":
                raise Violation("writer-unusable", f"{where}: {describe(error)}; a new writer succeeds")
            if type(error).__name__ != want["error"]:
                raise Violation("different-error", f"{where}: {describe(error)}; a new writer raises {want['error']}")
            env.probe("failed by element")
            outcomes.append("element")
            failed_names |= set(want["files"])
            check_late(disk, where)
            continue
        if want["status"] != "ok":
            raise Violation("different-error", f"{where}: succeeds; a new writer raises {want['error']}")
        if want["text"] is not None and text != want["text"]:
            raise Violation("different-text", f"{where}: {outops.first_diff(want['text'].encode(), (text or '').encode())}")
        now = disk.snapshot()
        for name, data in want["files"].items():
            have = now.get(f"{outops.OUT}/{name}", b"")
            if have != data:
                raise Violation("different-file", f"{where}: {name}: new writer / this: {outops.first_diff(data, have)}")
        if any(o in ("disk", "element") for o in outcomes):
            env.probe("success after failure")
        if failed_names & set(want["files"]):
            env.probe("same file rewritten after failure")
        outcomes.append("ok")
        check_late(disk, where)
    final = disk.snapshot()
    keep.clear()
    writer = None       # noqa: F841
    subjects = None     # noqa: F841
    gc.collect()
    disk.begin()
    check_late(disk, "the writer was discarded")
    if disk.snapshot() != final:
        raise Violation("late-write", f"files change when the writer is discarded, after {outcomes}")
    env.shape([o["op"] for o in ops], outcomes, sorted(env.faults))
    env.log(outcomes, disk.digest())


def check_late(disk, where):
    """Nothing was written through a descriptor of an earlier operation"""
    late = disk.late_writes()
    if late:
        raise Violation("late-write", f"{late} writes through descriptors of earlier operations, noticed after {where}")
