"""C05: truncated or torn ARXML files are never accepted as complete models"""
import xml.parsers.expat

from .. import canon, gen, outops, work, wsplan
from ..core import Invalid, Skip, Violation, describe

PROPERTY = "C05"
QUICK = 9750
THOROUGH = 400000
RULE = ("a run crashes the writing of a document or document set at a planned system call or byte over random prior files, or "
        "damages a stored document (cut, lost blocks, mixed with older content, read errors, premature end of file), restarts "
        "and reads what is there; distinct = different (scenario, fault that fired, which files were complete, old or torn, "
        "outcome of every read)")
COMPONENTS = {"real": ["autosar.xml.reader", "autosar.xml.writer", "autosar.xml.workspace", "lxml/libxml2", "CPython io stack"],
              "simulated": ["open/read/write/close results, process crash, torn writes, lost blocks (simio, disk image)"],
              "oracle": ["expat decides which byte strings are well-formed documents", "the same writes on a healthy disk"]}
ASSUMPTIONS = ["a crash keeps the bytes of finished write calls and any prefix of the one in progress",
               "writing a finished file is not resumed later in the same document set"]
PROBES = ["torn file", "crash left every file complete or old", "crash between files", "cut document", "read error",
          "premature end of file", "lost block", "old and new mixed", "still well-formed", "prefix with all packages"]


def generate(rng, profile):
    roll = rng.random()
    if roll < 0.4:
        op = outops.random_op(rng, ["file", "documents", "documents"])
        return {"do": op, "crash": work.crash_fault(rng), "prior": rng.choice(["none", "old", "old", "longer"]),
                "chunks": rng.choice([0, 0, 64, 511, 4096]), "via": rng.choice(["file", "file", "str"]),
                "stop": rng.random() < 0.5}
    doc = work.doc_plan(rng)
    if roll < 0.75:
        damage = []
        for _ in range(rng.choice([1, 1, 2])):
            damage.append(random_damage(rng))
        return {"doc": doc, "damage": damage, "via": rng.choice(["file", "str"]), "stop": rng.random() < 0.5}
    kind = rng.random()
    if kind < 0.5:
        fault = {"kind": "read", "do": "errno", "at": work.position(rng), "arg": rng.choice(work.READ_ERRNOS)}
    else:
        fault = {"kind": "read", "do": "eof", "at": work.position(rng)}
    return {"doc": doc, "reads": [fault] + work.benign_input(rng), "stop": rng.random() < 0.5,
            "big": rng.choice([0, 0, 8192, 40000])}


def random_damage(rng):
    kind = rng.choice(["cut", "cut", "cut", "cut_tag", "zero_tail", "zero_block", "old_tail", "old_head", "drop_block", "append"])
    return {"how": kind, "at": rng.random(), "block": rng.choice([1, 64, 512, 4096]), "edge": rng.choice([0, 0, 1, 2, 30])}


def damaged(data, old, damage):
    """Apply damage to the bytes of a document"""
    for d in damage:
        block = max(1, int(d["block"]))
        pos = int(d["at"] * len(data))
        if d["edge"]:
            pos = max(0, len(data) - int(d["edge"]) * 7 + int(d["at"] * 14))
        aligned = pos // block * block
        if d["how"] == "cut":
            data = data[:pos]
        elif d["how"] == "cut_tag":
            pos = data.rfind(b"\n", 0, pos + 1)
            data = data[:max(pos, 0)]
        elif d["how"] == "zero_tail":
            data = data[:aligned] + b"\0" * (len(data) - aligned)
        elif d["how"] == "zero_block":
            data = data[:aligned] + b"\0" * len(data[aligned:aligned + block]) + data[aligned + block:]
        elif d["how"] == "old_tail":
            data = data[:aligned] + old[aligned:]
        elif d["how"] == "old_head":
            data = old[:aligned] + data[aligned:]
        elif d["how"] == "drop_block":
            data = data[:aligned] + data[aligned + block:]
        elif d["how"] == "append":
            data = data + old[:block]
        else:
            raise Invalid("damage")
    return data


def well_formed(data):
    """Whether the bytes are one complete XML document"""
    parser = xml.parsers.expat.ParserCreate()
    try:
        parser.Parse(data, True)
    except xml.parsers.expat.ExpatError:
        return False
    return True


def read(env, name, via, stop):
    """Read a file from the disk -> ("model", canon, version) or ("error", text)"""
    mod, disk = env.mod, env.disk
    reader = mod.reader.Reader()
    with env.quiet():
        try:
            if via == "str":
                doc = reader.read_str(disk.get(name).decode("utf-8"), stop_on_error=stop)
            else:
                doc = reader.read_file(disk.path(name), stop_on_error=stop)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            return "error", type(exc).__name__, str(exc)
    if doc is None:
        return "none", None, None
    return "model", canon.canon(doc), doc.schema_version


def judge(env, name, via, stop, known, where):
    """Read what is on disk; only complete documents may be accepted.  known: bytes -> canonical model"""
    data = env.disk.get(name)
    got = read(env, name, via, stop)
    complete = well_formed(data)
    if not complete:
        if got[0] != "error":
            raise Violation("accepted-damaged-file", f"{where}: {name}: {len(data)} bytes that are no complete document were "
                            f"read as {str(got[1])[:200]}; they end with {data[-80:]!r}")
        return "refused"
    env.probe("still well-formed")
    if data in known:
        if got[0] != "model":
            raise Violation("complete-file-refused", f"{where}: {name}: {got[1]}: {got[2]}")
        res = canon.diff(known[data], got[1])
        if res:
            raise Violation("model-incomplete", f"{where}: {name}: at {res[0]}: {str(res[1])[:150]} / {str(res[2])[:150]}")
    return got[0]


def old_document(data):
    """Some other well-formed document of a different length"""
    return data.replace(b"SHORT-NAME>", b"SHORT-NAME>Old").replace(b"</SHORT-NAME>Old", b"</SHORT-NAME>") + b"\n"


def run(plan, env):
    if "crash" in plan:
        run_crash(plan, env)
    elif "damage" in plan:
        run_damage(plan, env)
    else:
        run_read_fault(plan, env)


def write_doc(plan, env, big=0):
    """Build and write a document fault-free; (bytes, canonical model)"""
    desc = plan["doc"]
    if desc["schema_version"] not in work.SCHEMA_VERSIONS or not gen.valid(desc["packages"]):
        raise Invalid("document")
    doc = env.build(gen.build_document, desc, env.mod)
    for i in range(0, big, 300):
        package = env.mod.element.Package(f"Big{i}", desc=f"filler {i} " + "x" * 200)
        doc.append(package)
    path = env.disk.path("doc.arxml")
    env.build(env.mod.writer.Writer().write_file, doc, path)
    data = env.disk.get("doc.arxml")
    got = read(env, "doc.arxml", "file", True)
    if got[0] != "model":
        raise Skip("undamaged document not readable")
    return data, got[1]


def run_damage(plan, env):
    data, model = write_doc(plan, env)
    old = old_document(data)
    bad = damaged(data, old, plan["damage"])
    for d in plan["damage"]:
        env.fault(f"disk:{d['how']}")
    env.disk.put("doc.arxml", bad)
    via = plan["via"]
    if via == "str":
        try:
            bad.decode("utf-8")
        except UnicodeDecodeError:
            via = "file"
    if plan["damage"][0]["how"].startswith("cut"):
        env.probe("cut document")
        if b"</AR-PACKAGES>" in bad[-40:]:
            env.probe("prefix with all packages")
    elif "zero" in plan["damage"][0]["how"] or "drop" in plan["damage"][0]["how"]:
        env.probe("lost block")
    else:
        env.probe("old and new mixed")
    outcome = judge(env, "doc.arxml", via, plan["stop"], {data: model}, f"damage {plan['damage']}")
    env.shape([d["how"] for d in plan["damage"]], outcome, via, bad[-12:], len(bad) // 64)
    env.log(outcome, len(bad), env.disk.digest())


def run_read_fault(plan, env):
    data, model = write_doc(plan, env, int(plan.get("big") or 0))
    disk = env.disk
    disk.begin()
    read(env, "doc.arxml", "file", True)
    counts = disk.counts()
    # short reads multiply the number of read calls
    for fault in plan["reads"]:
        if fault["kind"] == "chunks" and fault.get("r"):
            disk.begin([fault])
            read(env, "doc.arxml", "file", True)
            counts = disk.counts()
            disk.end()
    disk.begin(plan["reads"], counts)
    got = read(env, "doc.arxml", "file", plan["stop"])
    fired = env.fired(disk.end())
    if any(n.endswith(":eof") for n in fired):
        env.probe("premature end of file")
    elif any(outops.is_harmful(n) for n in fired):
        env.probe("read error")
    if got[0] == "none":
        raise Violation("read-error-swallowed", f"read_file returned None (faults {fired})")
    if got[0] == "model":
        res = canon.diff(model, got[1])
        if res:
            raise Violation("read-error-swallowed", f"faults {fired}: model differs at {res[0]}: {str(res[1])[:150]} / {str(res[2])[:150]}")
    elif not any(outops.is_harmful(n) for n in fired):
        raise Violation("complete-file-refused", f"{got[1]}: {got[2]} (faults {fired})")
    env.shape("read", sorted(fired), got[0], len(data) // 1024)
    env.log(got[0], got[1] if got[0] == "error" else "", disk.digest())


def run_crash(plan, env):
    disk, op = env.disk, plan["do"]
    outops.check(op)
    want = outops.baseline(op, env)
    if want["status"] != "ok":
        raise Skip("document set is rejected")
    if op["op"] == "documents":
        names = [name for name, _ in wsplan.predict(op["ws"], env.mod)[0]]
    else:
        names = [op["name"]]
    if len(names) != len(set(names)) or set(names) != set(want["files"]):
        raise Skip("a file is configured more than once")
    # the order in which the files are finished; unknown when they are not opened under their own name
    order = list(reversed(dict.fromkeys(reversed(want["order"]))))
    ordered = set(order) == set(names)
    if not ordered:
        order = names
    disk.fresh()
    disk.mkdir(outops.OUT)
    prior = {}
    if plan["prior"] != "none":
        for name, data in want["files"].items():
            prior[name] = old_document(data) + (b"<!-- longer -->" * 400 if plan["prior"] == "longer" else b"")
            disk.put(f"{outops.OUT}/{name}", prior[name])
    known = {}
    for name, data in list(want["files"].items()) + list(prior.items()):
        disk.put("probe.arxml", data)
        got = read(env, "probe.arxml", "file", True)
        if got[0] != "model":
            raise Skip("undamaged document not readable")
        known[data] = got[1]
    disk.begin()
    subject = outops.Subject(op, env)
    faults = [plan["crash"]]
    counts = want["counts"]
    if plan.get("chunks"):
        faults.append({"kind": "chunks", "do": "chunks", "w": plan["chunks"], "r": 0})
        counts = dict(counts, write=counts["bytes"] // plan["chunks"] + 1)
    disk.begin(faults, counts)
    try:
        subject.run(env.mod.writer.Writer())
    except Exception:  # pylint: disable=broad-exception-caught
        pass
    crashed = disk.crashed
    env.fired(disk.end())
    disk.restart()
    now = {k.split("/", 1)[1]: v for k, v in disk.snapshot().items() if k.startswith(outops.OUT + "/")}
    states = []
    for name in order:
        data = now.get(name)
        if data == want["files"][name]:
            states.append("new")
        elif data == prior.get(name):
            states.append("old")
        else:
            states.append("torn")
    where = f"crash {plan['crash']} leaves {states}"
    if not crashed and any(s != "new" for s in states):
        raise Violation("incomplete-without-crash", where)
    if states.count("torn") > 1:
        raise Violation("several-files-torn", f"{where} ({order})")
    ranks = [{"new": 0, "torn": 1, "old": 2}[s] for s in states]
    if ordered and ranks != sorted(ranks):
        raise Violation("finished-file-lost", f"{where} ({order})")
    if crashed:
        env.probe("torn file" if "torn" in states else "crash left every file complete or old")
        if "torn" not in states and "new" in states and "old" in states:
            env.probe("crash between files")
    outcomes = []
    for name, state in zip(order, states):
        if name not in now:
            continue
        via = plan["via"]
        if via == "str":
            try:
                now[name].decode("utf-8")
            except UnicodeDecodeError:
                via = "file"
        outcomes.append(judge(env, f"{outops.OUT}/{name}", via, plan["stop"], known, where))
    env.shape("crash", states, outcomes, sorted(env.faults), want["counts"]["bytes"] // 4096)
    env.log(states, outcomes, disk.digest())
