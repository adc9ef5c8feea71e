"""C04: serialising never changes the model, even when it fails or is interrupted"""
import gc

from .. import canon, interrupt, outops, work
from ..core import Invalid, Skip, Violation

PROPERTY = "C04"
QUICK = 7800
THOROUGH = 250000
RULE = ("a run builds a model and serialises it 1-3 times (document, element, document set; to text or file), each time with "
        "no fault, a disk fault, an element that cannot be written, or an exception raised at a planned executed line; the "
        "canonical model, all parents, reference paths and lookups before and after are compared, and a last undisturbed "
        "write must produce what a copy of the model that was never written produces; distinct = different (operation "
        "kinds, how each attempt ended and in which function it was interrupted)")
COMPONENTS = {"real": ["autosar.xml.element", "autosar.xml.writer", "autosar.xml.workspace", "autosar.xml.document"],
              "simulated": ["results of open/write/close (simio)", "asynchronous exceptions at executed lines (sys.monitoring)"],
              "oracle": ["snapshot of the model before the operation", "an untouched copy in a separate process"]}
ASSUMPTIONS = ["interruptions arrive at line boundaries of library code"]
PROBES = ["interrupted", "failed by disk", "failed by element", "completed", "written after a disturbed attempt"]
KINDS = ["file", "str", "elem", "str_elem", "documents", "documents", "documents"]


def generate(rng, profile):
    op = outops.random_op(rng, KINDS)
    plan = {"do": op, "attempts": []}
    for _ in range(rng.choice([1, 1, 2, 3])):
        roll = rng.random()
        if roll < 0.5:
            plan["attempts"].append({"interrupt": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
        elif roll < 0.8 and op["op"] in ("file", "elem", "documents"):
            plan["attempts"].append({"faults": work.output_faults(rng)})
        else:
            plan["attempts"].append({"faults": []})
    if op["op"] != "documents" and rng.random() < 0.2:
        op["poison"] = {"at": rng.random(), "how": rng.choice(["class", "class", "category"])}
    return plan


def objects(root, mod):
    """Every model object reachable through public attributes, in a fixed order"""
    seen, out, stack = set(), [], [("", root)]
    while stack:
        path, obj = stack.pop()
        if isinstance(obj, (list, tuple)):
            stack.extend((f"{path}[{i}]", x) for i, x in reversed(list(enumerate(obj))))
        elif isinstance(obj, dict):
            stack.extend((f"{path}[{k!r}]", x) for k, x in reversed(list(obj.items())))
        elif isinstance(obj, mod.element.ARObject) or obj is root:
            if id(obj) in seen:
                continue
            seen.add(id(obj))
            out.append((path, obj))
            stack.extend((f"{path}.{k}", v) for k, v in reversed(sorted(vars(obj).items()))
                         if not k.startswith("_") and k != "parent")
    return out


def snapshot(root, mod):
    """Everything the property speaks about"""
    state = {"model": canon.canon(root) if isinstance(root, mod.element.ARObject)
             else [canon.canon(p) for p in root.packages]}
    links = []
    for path, obj in objects(root, mod):
        ref = None
        if hasattr(obj, "ref") and callable(obj.ref):
            try:
                ref = str(obj.ref())
            except Exception as exc:  # pylint: disable=broad-exception-caught
                ref = type(exc).__name__
        parent = vars(obj).get("parent", "no parent attribute")
        links.append((path, id(obj), ref, id(parent) if parent is not None and not isinstance(parent, str) else parent))
    state["links"] = links
    finds = []
    if hasattr(root, "packages") and hasattr(root, "find"):
        for path, ref in finding(root, ""):
            finds.append((path, id(root.find(ref))))
    state["finds"] = finds
    return state


def finding(root, base):
    """Paths of all packages and elements, and of what components hold"""
    for package in root.packages:
        here = f"{base}/{package.name}"
        yield here, here
        for elem in package.elements:
            path = f"{here}/{elem.name}"
            yield path, path
            for attr in ("ports", "components", "connectors", "elements", "operations", "data_elements"):
                held = getattr(elem, attr, None)
                if isinstance(held, list):
                    for item in held:
                        name = getattr(item, "name", None)
                        if isinstance(name, str) and hasattr(elem, "find"):
                            yield f"{path}/{name}", f"{path}/{name}"
        yield from finding(package, here)


def compare(before, after, where):
    res = canon.diff(before["model"], after["model"])
    if res:
        raise Violation("model-changed", f"{where}: at {res[0]}: before {str(res[1])[:200]} after {str(res[2])[:200]}")
    if len(before["links"]) != len(after["links"]):
        raise Violation("objects-changed", f"{where}: {len(before['links'])} objects before, {len(after['links'])} after")
    for a, b in zip(before["links"], after["links"]):
        if a != b:
            what = "object" if a[1] != b[1] else "reference path" if a[2] != b[2] else "parent"
            raise Violation("links-changed", f"{where}: {what} of {a[0]} ({a[2]} -> {b[2]})")
    if before["finds"] != after["finds"]:
        bad = next(a[0] for a, b in zip(before["finds"], after["finds"]) if a != b)
        raise Violation("lookup-changed", f"{where}: find({bad!r})")


def lines_of(op, env):
    """Executed library lines of the undisturbed operation (separate process)"""
    def body():
        env.disk.wipe()
        env.disk.mkdir(outops.OUT)
        try:
            subject = outops.Subject(op, env)
        except Skip as exc:
            return {"skip": str(exc)}
        writer = env.mod.writer.Writer()
        with interrupt.clock() as clock:
            try:
                subject.run(writer)
            except Exception:  # pylint: disable=broad-exception-caught
                pass
        return {"lines": clock.count}
    return env.isolated(body)


def run(plan, env):
    disk, op, mod = env.disk, plan["do"], env.mod
    outops.check(op)
    if any("exc" in a and a["exc"] not in interrupt.EXCEPTIONS for a in plan["attempts"]):
        raise Invalid("exception")
    want = outops.baseline(op, env)
    total = None
    disk.fresh()
    disk.mkdir(outops.OUT)
    subject = outops.Subject(op, env)
    outcomes = []
    before = snapshot(subject.root, mod)
    for attempt in plan["attempts"] + [{"faults": []}]:
        writer = mod.writer.Writer()
        error, fired = None, []
        if "interrupt" in attempt:
            if total is None:
                total = lines_of(op, env)
                if "skip" in total:
                    raise Skip(total["skip"])
                disk.mkdir(outops.OUT)
            at = int(attempt["interrupt"] * total["lines"])
            disk.begin()
            with interrupt.clock(at, attempt["exc"]) as clock:
                try:
                    subject.run(writer)
                except BaseException as exc:  # pylint: disable=broad-exception-caught
                    error = exc
            if clock.fired:
                env.fault(f"interrupt:{attempt['exc']}")
                env.probe("interrupted")
                outcome = f"{attempt['exc']} in {clock.fired}"
            else:
                outcome = "ok" if error is None else type(error).__name__
        else:
            disk.begin(attempt["faults"], want["counts"])
            try:
                subject.run(writer)
            except Exception as exc:  # pylint: disable=broad-exception-caught
                error = exc
            fired = env.fired(disk.end())
            outcome = "ok" if error is None else type(error).__name__
            if error is not None:
                env.probe("failed by disk" if isinstance(error, OSError) else "failed by element")
        error = None
        if outcome == "ok":
            env.probe("completed")
            if any(o != "ok" for o in outcomes):
                env.probe("written after a disturbed attempt")
        outcomes.append(outcome)
        disk.end()
        gc.collect()
        compare(before, snapshot(subject.root, mod), f"{op['op']}, attempt {len(outcomes)} ({outcome}, faults {fired})")
    check_last(env, op, want, outcomes, subject)
    env.shape(op["op"], outcomes, sorted(env.faults))
    env.log(op["op"], outcomes, disk.digest())


def check_last(env, op, want, outcomes, subject):
    """The last, undisturbed write equals that of a model that was never disturbed"""
    if want["status"] != "ok":
        return
    if outcomes[-1] != "ok":
        raise Violation("cannot-write-again", f"{op['op']}: {outcomes}")
    if want["text"] is not None:
        text = subject.run(env.mod.writer.Writer())
        if text != want["text"]:
            raise Violation("text-changed", f"{op['op']} after {outcomes}: {outops.first_diff(want['text'].encode(), text.encode())}")
    now = env.disk.snapshot()
    for name, data in want["files"].items():
        have = now.get(f"{outops.OUT}/{name}", b"")
        if have != data:
            raise Violation("output-changed", f"{op['op']} after {outcomes}: {name}: {outops.first_diff(data, have)}")
