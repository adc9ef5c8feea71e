"""C03: writing a workspace's documents can be repeated and retried"""
import json
import os

from .. import canon, gen, work, wsplan
from ..core import Invalid, Skip, Violation, describe

PROPERTY = "C03"
QUICK = 5200
THOROUGH = 100000
RULE = ("a run drives one workspace through a random history of adding elements, packages, documents and split mappings, "
        "wiping the disk, and write attempts of which some fail by disk faults; after every acknowledged write the files "
        "are compared byte for byte with those of a fresh workspace and element for element with an independent model of "
        "the document set; distinct = different (operation sequence, fault events, outcomes, number of files)")
COMPONENTS = {"real": ["autosar.xml.workspace", "autosar.xml.document", "autosar.xml.writer", "autosar.xml.element",
                       "autosar.xml.reader (to read the files back)"],
              "simulated": ["results of open/read/write/close below the document root (simio)"],
              "oracle": ["fresh workspace in a separate process", "executable model of the document set (wsplan.predict)"]}
ASSUMPTIONS = ["elements and packages are only added between writes, never renamed or removed",
               "a nested package named in a document is written as a root package of it (existing behaviour)"]
ROOTS = ["out", "out2", "out/sub"]
PROBES = ["write after edit", "other document root", "write after failed write", "write after content change", "split file with extra element", "config file",
          "rejected document set"]


def generate(rng, profile):
    """A history of changes and writes"""
    desc = wsplan.random_workspace(rng)
    plan = {"ws": desc, "ops": []}
    paths = [p for p, _ in wsplan.all_packages(desc)]
    g = gen.Gen(rng, size=1, density=0.2, exotic_text=0.1)
    g.serial = 5000
    writes = 0
    for _ in range(rng.choice([1, 2, 3, 4, 5, 7])):
        roll = rng.random()
        if roll < 0.5 or not writes:
            faults = work.output_faults(rng) if rng.random() < 0.5 else work.benign_output(rng)
            plan["ops"].append({"op": "write", "schema": wsplan.schema(rng), "faults": faults})
            writes += 1
        elif roll < 0.75:
            path = rng.choice(paths)
            kind = rng.choice(gen.PACKAGEABLE)
            name = None
            if rng.random() < 0.4:
                existing = wsplan.find_package(desc, path)
                if existing and existing["elements"]:
                    name = rng.choice(existing["elements"])["a"]["name"] + rng.choice(["_Init", "_Ext"])
            plan["ops"].append({"op": "element", "package": path, "elem": g.obj(kind, 0, name)})
        elif roll < 0.82:
            plan["ops"].append({"op": "package", "parent": rng.choice(paths + [""]),
                                "package": g.package(rng.randrange(0, 3), depth=2)})
        elif roll < 0.88:
            plan["ops"].append({"op": "document", "doc": wsplan.random_document(rng, paths, len(plan["ops"]) + 10)})
        elif roll < 0.94:
            plan["ops"].append({"op": "mapping", "mapping": wsplan.random_mapping(rng, paths, ["Unit", "SwBaseType"])})
        elif roll < 0.97:
            plan["ops"].append({"op": "wipe"})
        else:
            plan["ops"].append({"op": "root", "to": rng.choice(ROOTS)})
        elems = [(p, e["a"]["name"]) for p, package in wsplan.all_packages(desc) for e in package["elements"]]
        if elems and rng.random() < 0.3:
            path, name = rng.choice(elems)
            plan["ops"].append({"op": "edit", "package": path, "name": name, "category": g.ident("Cat"),
                                "desc": g.text() if rng.random() < 0.5 else None})
    plan["ops"].append({"op": "write", "schema": wsplan.schema(rng), "faults": work.benign_output(rng)})
    state = json.loads(json.dumps(desc))
    plan["ops"] = [op for op in plan["ops"] if op["op"] in ("write", "wipe", "root") or apply_to_desc(state, op)]
    return plan


def apply_to_desc(desc, op):
    """The same change on the description"""
    if op["op"] == "element":
        package = wsplan.find_package(desc, op["package"])
        if package is None or any(e["a"]["name"] == op["elem"]["a"]["name"] for e in package["elements"] + [
                {"a": p} for p in package["packages"]]):
            return False
        package["elements"].append(op["elem"])
    elif op["op"] == "edit":
        package = wsplan.find_package(desc, op["package"])
        elem = next((e for e in package["elements"] if e["a"]["name"] == op["name"]), None) if package else None
        if elem is None:
            return False
        elem["a"]["category"] = op["category"]
        if op["desc"] is not None and "desc" in elem["a"]:
            del elem["a"]["desc"]
    elif op["op"] == "package":
        if op["parent"] == "":
            if any(p["name"] == op["package"]["name"] for p in desc["packages"]):
                return False
            desc["packages"].append(op["package"])
        else:
            parent = wsplan.find_package(desc, op["parent"])
            if parent is None or any(p["name"] == op["package"]["name"] for p in parent["packages"]):
                return False
            parent["packages"].append(op["package"])
    elif op["op"] == "document":
        desc["documents"].append(op["doc"])
    elif op["op"] == "mapping":
        desc["mappings"].append(op["mapping"])
    return True


def fresh_output(desc, schema, env, subdir):
    """What a fresh workspace writes: ("ok", {name: bytes}) or ("error", type)"""
    mod, disk = env.mod, env.disk
    disk.mkdir(subdir)
    disk.begin()
    try:
        ws = wsplan.build_workspace(desc, mod, disk.path(subdir))
    except wsplan.ConfigRejected as exc:
        raise Violation("document-set-rejected", str(exc)) from exc
    except Exception as exc:
        return "unbuildable", type(exc).__name__, {}
    try:
        ws.write_documents(schema)
    except Exception as exc:
        return "error", type(exc).__name__, describe(exc)
    counts = disk.counts()
    counts["bytes"] = sum(len(v) for v in disk.snapshot().values())
    files = {k.split("/", 1)[1]: v for k, v in disk.snapshot().items() if k.startswith(subdir + "/")}
    return "ok", files, counts


def check_model(desc, files, mod, env):
    """Compare files with the executable model of the document set"""
    content, error = wsplan.predict(desc, mod)
    if error:
        return
    last = dict(content)
    if set(last) != set(files):
        raise Violation("wrong-file-set", f"files {sorted(files)} instead of {sorted(last)}")
    for name, items in last.items():
        try:
            with env.quiet():
                doc = mod.reader.Reader().read_str(files[name].decode("utf-8"), stop_on_error=True)
        except Exception as exc:
            raise Violation("unreadable-file", f"{name}: {describe(exc.__cause__ or exc)}") from exc
        got = [canon.canon(p) for p in doc.packages]
        want = wsplan.expected_canon(desc, items, mod)
        res = canon.diff(want, got)
        if res:
            raise Violation("wrong-content", f"{name}: at {res[0]}: expected {repr(res[1])[:200]} found {repr(res[2])[:200]}")
        if items and items[0][0] == "split" and len(items[0][2]) > 1:
            env.probe("split file with extra element")


def run(plan, env):
    mod, disk = env.mod, env.disk
    desc = plan["ws"]
    if not wsplan.valid(desc):
        raise Invalid("workspace")
    # oracles first, each in a process that has not run anything yet
    expected = {}
    state = json.loads(json.dumps(desc))
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "write":
            if op["schema"] not in work.SCHEMA_VERSIONS:
                raise Invalid("schema version")
            expected[i] = env.isolated(lambda s=state, o=op: fresh_output(s, o["schema"], env, "fresh"))
            disk.wipe()
            if expected[i][0] == "unbuildable":
                raise Skip("model not constructible")
            if expected[i][0] == "error" and wsplan.predict(state, mod)[1] is None:
                raise Violation("document-set-rejected", f"operation {i}: a fresh workspace with a healthy disk does not write it: "
                                f"{expected[i][2]}")
        elif op["op"] == "root":
            if op["to"] not in ROOTS:
                raise Invalid("document root")
        elif not apply_to_desc(state, op):
            raise Invalid("operation on a missing or occupied place")
    disk.fresh()
    for name in ROOTS:
        disk.mkdir(name)
    root, others = "out", {}
    config = None
    if desc.get("config"):
        disk.put("ws.toml", wsplan.config_text(desc).encode("utf-8"))
        config = disk.path("ws.toml")
        env.probe("config file")
    try:
        ws = wsplan.build_workspace(desc, mod, disk.path("out"), config)
    except wsplan.ConfigRejected as exc:
        raise Violation("document-set-rejected", str(exc)) from exc
    state = json.loads(json.dumps(desc))
    outcomes, last_failed, changed = [], False, False
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "wipe":
            disk.wipe()
            for name in ROOTS:
                disk.mkdir(name)
            others = {}
            outcomes.append("wipe")
            continue
        if op["op"] == "root":
            root = op["to"]
            ws.set_document_root(disk.path(root))
            others = elsewhere(disk, root)
            outcomes.append("root")
            continue
        if op["op"] != "write":
            apply_to_desc(state, op)
            change(ws, op, mod, env)
            outcomes.append(op["op"])
            changed = True
            continue
        status, files, counts = expected[i]
        disk.begin(op["faults"], counts if status == "ok" else {})
        error = None
        try:
            ws.write_documents(op["schema"])
        except Exception as exc:
            error = exc
        fired = env.fired(disk.end())
        harmful = any(is_harmful(n) for n in fired)
        if error is not None and not harmful:
            if status == "error" and type(error).__name__ == files:
                env.probe("rejected document set")
                outcomes.append("rejected")
                continue
            raise Violation("write-failed", f"operation {i} ({outcomes}) fails although a fresh workspace "
                            f"{'writes its files' if status == 'ok' else 'fails with ' + str(files)}: {describe(error)}")
        if error is not None:
            outcomes.append("failed")
            last_failed = True
            continue
        if status != "ok":
            raise Violation("write-succeeded", f"operation {i}: a fresh workspace raises {files}, this one writes")
        now = {os.path.basename(k): v for k, v in disk.snapshot().items() if os.path.dirname(k) == root}
        if elsewhere(disk, root) != others:
            raise Violation("wrong-place", f"operation {i}: files outside the document root changed")
        if root != "out":
            env.probe("other document root")
        if "edit" in outcomes:
            env.probe("write after edit")
        compare(files, now, f"operation {i} after {outcomes}")
        check_model(state, files, mod, env)
        if last_failed:
            env.probe("write after failed write")
        if changed:
            env.probe("write after content change")
        last_failed = changed = False
        outcomes.append(f"ok{len(files)}")
    env.shape(outcomes, sorted(env.faults), len(desc["mappings"]), len(desc["documents"]))
    env.log(outcomes, disk.digest())


def elsewhere(disk, root):
    """Files outside the document root, but for the config file"""
    return {k: v for k, v in disk.snapshot().items() if os.path.dirname(k) not in (root, "")}


def is_harmful(name):
    return not (name.endswith(":short") or name.endswith(":EINTR") or name == "chunked-io")


def change(ws, op, mod, env):
    """Apply a change to the live workspace"""
    def act():
        if op["op"] == "element":
            ws.find(op["package"]).append(gen.build(op["elem"], mod))
        elif op["op"] == "edit":
            elem = ws.find(op["package"] + "/" + op["name"])
            elem.category = op["category"]
            if op["desc"] is not None:
                elem.desc = None
        elif op["op"] == "package":
            package = gen.build_package(op["package"], mod)
            (ws if op["parent"] == "" else ws.find(op["parent"])).append(package)
        elif op["op"] == "document":
            wsplan.add_document(ws, op["doc"])
        elif op["op"] == "mapping":
            wsplan.add_mapping(ws, op["mapping"], mod)
    try:
        act()
    except Exception as exc:
        raise Violation("change-failed", f"{op['op']}: {describe(exc)}") from exc


def compare(want, have, where):
    """Exact comparison of the produced files"""
    for name in sorted(want):
        if name not in have:
            raise Violation("file-missing", f"{where}: {name}")
        if have[name] != want[name]:
            a, b = want[name], have[name]
            pos = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation("file-differs", f"{where}: {name} differs at byte {pos}: fresh {a[max(0, pos - 60):pos + 80]!r} "
                            f"this {b[max(0, pos - 60):pos + 80]!r}")
    extra = [n for n in have if n not in want and n.endswith(".arxml")]
    if extra:
        raise Violation("extra-file", f"{where}: {extra}")
