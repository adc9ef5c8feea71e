"""C02: a write that did not reach the disk completely is always reported"""
from .. import outops, work
from ..core import Violation, describe

PROPERTY = "C02"
QUICK = 13000
THOROUGH = 600000
RULE = ("a run performs one output operation (document, element, document set, type header) over random prior content with "
        "failing, short and interrupted system calls or a full disk at planned positions; a normal return is compared byte "
        "for byte with the same operation on a healthy disk in a separate process; distinct = different (operation kind, "
        "faults that fired, outcome, number of files and 4 KiB size class)")
COMPONENTS = {"real": ["autosar.xml.writer", "autosar.xml.workspace", "autosar.generator.type_generator", "CPython io stack"],
              "simulated": ["results of open/write/close below the output directory (simio)"],
              "oracle": ["the same operation on a healthy disk in a separate process"]}
ASSUMPTIONS = ["a call that returned an error did not secretly succeed"]
PROBES = ["reported", "acknowledged", "only the close failed", "several files", "more than one write per file"]
KINDS = ["file", "file", "elem", "documents", "documents", "header"]


def generate(rng, profile):
    op = outops.random_op(rng, KINDS)
    healthy = rng.random() < 0.15
    faults = work.benign_output(rng) if healthy else work.output_faults(rng)
    return {"do": op, "faults": faults, "prior": rng.choice(["none", "none", "long", "short"])}


def run(plan, env):
    disk, op = env.disk, plan["do"]
    outops.check(op)
    want = outops.baseline(op, env)
    disk.fresh()
    disk.mkdir(outops.OUT)
    if plan["prior"] != "none":
        for name, data in want["files"].items():
            disk.put(f"{outops.OUT}/{name}", b"<old/>\n" * (len(data) if plan["prior"] == "long" else 1))
    subject = outops.Subject(op, env)
    writer = env.mod.writer.Writer()
    disk.begin(plan["faults"], want["counts"])
    error = None
    try:
        subject.run(writer)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        error = exc
    fired = env.fired(disk.end())
    harmful = [n for n in fired if outops.is_harmful(n)]
    files = len(want["files"])
    if files > 1:
        env.probe("several files")
    if want["counts"]["write"] > files:
        env.probe("more than one write per file")
    env.shape(op["op"], sorted(fired), error is None, files, want["counts"]["bytes"] // 4096)
    env.log(op["op"], sorted(fired), type(error).__name__, disk.digest())
    if error is not None:
        if harmful:
            env.probe("reported")
            if all(n.startswith("close:") for n in harmful):
                env.probe("only the close failed")
            return
        if want["status"] == "ok":
            raise Violation("failed-without-reason", f"{op['op']}: {describe(error)} although no call failed (faults {fired})")
        return
    if harmful:
        raise Violation("failure-not-reported", f"{op['op']} returned normally although {harmful} happened")
    if want["status"] != "ok":
        raise Violation("rejection-not-reported", f"{op['op']} returned, on a healthy disk it raises {want['error']}")
    env.probe("acknowledged")
    now = disk.snapshot()
    for name, data in want["files"].items():
        have = now.get(f"{outops.OUT}/{name}")
        if have is None:
            raise Violation("acknowledged-file-missing", f"{op['op']}: {name} (faults {fired})")
        if have != data:
            raise Violation("acknowledged-file-incomplete", f"{op['op']}: {name}: {outops.first_diff(data, have)} (faults {fired})")
