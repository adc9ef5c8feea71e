"""C01: an acknowledged ARXML write reads back, after a restart, as the same model"""
import copy

from .. import canon, gen, refs, work
from ..core import Invalid, Violation, describe

PROPERTY = "C01"
QUICK = 7800
THOROUGH = 150000
RULE = ("a run builds one random document (every packageable element kind, nested packages, texts with XML markup and "
        "non-ASCII), writes it after a random number of attempts that disk faults make fail, over random prior content, "
        "under short writes and EINTR, restarts, and reads it under short reads; distinct = different (element kinds, "
        "schema version, fault events fired, outcome of every attempt); runs without any element are trivial")
COMPONENTS = {"real": ["autosar.xml.element", "autosar.xml.document", "autosar.xml.writer", "autosar.xml.reader", "lxml/libxml2",
                       "CPython io stack", "kernel file system (tmpfs)"],
              "simulated": ["results of open/read/write/close on the document file (simio)", "process restart"]}
ASSUMPTIONS = ["file system below the scratch directory is faithful between the intercepted calls",
               "the crash model is a process crash: data handed to write() survives",
               "number format hints (decimal, scientific) are presentation, not value",
               "admin_data and service_kind are documented as not serialised (known findings)"]
PROBES = ["attempt failed", "attempt failed then retry succeeded", "overwrote longer content", "non-ascii text", "markup text", "single element", "text XML cannot carry refused"]
UNPRINTABLE = ["\x00", "\x01", "\x08", "\x0b", "\x0c", "\x1b", "\x1f", "\ufffe", "\uffff", "\ud800", "\udfff"]


def generate(rng, profile):
    """attempts: writes that may fail; then one write on a healthy (but short-writing) disk"""
    plan = {"doc": work.doc_plan(rng)}
    faulty = rng.random() < 0.6
    plan["attempts"] = [work.output_faults(rng) for _ in range(rng.choice([1, 1, 2, 3]))] if faulty else []
    plan["final"] = work.benign_output(rng)
    plan["read"] = work.benign_input(rng)
    plan["prior"] = rng.choice(["none", "none", "longer", "garbage"])
    plan["same_writer"] = rng.random() < 0.6
    plan["single"] = rng.random() if rng.random() < 0.4 else None
    if rng.random() < 0.15:
        plan["unprintable"] = {"at": rng.random(), "pos": rng.random(), "char": rng.randrange(len(UNPRINTABLE))}
    return plan


def texts(desc):
    """(container, key) of every free string in a description"""
    out = []
    if isinstance(desc, list):
        pairs = enumerate(desc)
    elif "e" in desc or "f" in desc:
        return out
    else:
        pairs = desc.items()
    for key, val in pairs:
        if isinstance(val, str) and key not in ("$", "r", "d"):
            out.append((desc, key))
        elif isinstance(val, (dict, list)):
            out += texts(val)
    return out


def unprintable(env, writer, plan, target):
    """A text no XML document can hold: refused, or written and read like any other"""
    mod, item = env.mod, plan["unprintable"]
    if not 0 <= item["char"] < len(UNPRINTABLE):
        raise Invalid("character")
    desc = copy.deepcopy(plan["doc"])
    places = texts(desc["packages"])
    if not places:
        return "nothing"
    box, key = places[min(int(item["at"] * len(places)), len(places) - 1)]
    cut = int(item["pos"] * (len(box[key]) + 1))
    box[key] = box[key][:cut] + UNPRINTABLE[item["char"]] + box[key][cut:]
    try:
        doc = gen.build_document(desc, mod)
    except Exception:  # pylint: disable=broad-exception-caught
        return "not built"
    want = canon.canon(doc)
    try:
        writer.write_file(doc, target)
    except Exception:  # pylint: disable=broad-exception-caught
        env.probe("text XML cannot carry refused")
        return "refused"
    try:
        with env.quiet():
            got = mod.reader.Reader().read_file(target, stop_on_error=True)
    except Exception as exc:
        raise Violation("read-raised", f"after a write of {box[key]!r} that returned: {describe(exc)}") from exc
    res = canon.diff(want, canon.canon(got))
    if res:
        raise Violation("read-back-differs", f"after a write of {box[key]!r} that returned: at {res[0]}: written {short(res[1])} read {short(res[2])}")
    return "written"


def run(plan, env):
    mod, disk = env.mod, env.disk
    desc = plan["doc"]
    if desc["schema_version"] not in work.SCHEMA_VERSIONS or not gen.valid(desc["packages"]):
        raise Invalid("outside the generated population")
    try:
        doc = gen.build_document(desc, mod)
    except Exception as exc:
        raise Violation("model-rejected", f"the public constructors reject a valid model: {describe(exc)}") from exc
    check_conforms(desc, doc, mod)
    want = canon.canon(doc)
    text = str(desc)
    if not text.isascii():
        env.probe("non-ascii text")
    if "&" in text or "<" in text:
        env.probe("markup text")
    target = disk.path("out.arxml")
    prior(plan.get("prior"), disk)
    try:
        sizing = mod.writer.Writer().write_str(doc, skip_root_attr=False)
    except Exception as exc:
        raise Violation("write-raised", f"writing to memory: {describe(exc)}") from exc
    size = len(sizing.encode("utf-8", "replace"))
    counts = {"bytes": size, "write": size // 8192 + 1, "open": 1, "close": 1, "read": size // 4000 + 3}
    if plan.get("prior") == "longer":
        disk.put("out.arxml", b"<AUTOSAR>" + b"<old/>" * (size // 3) + b"</AUTOSAR>")
        env.probe("overwrote longer content")
    writer = mod.writer.Writer()
    outcomes = []
    if plan.get("unprintable"):
        outcomes.append(unprintable(env, writer, plan, target))
    for faults in plan.get("attempts", []):
        if not plan.get("same_writer"):
            writer = mod.writer.Writer()
        error = attempt(env, writer, doc, target, faults, counts)
        outcomes.append("ok" if error is None else type(error).__name__)
        if error is None:
            verify(env, desc, want, plan.get("read", []), counts, "attempt")
        else:
            env.probe("attempt failed")
    if not plan.get("same_writer"):
        writer = mod.writer.Writer()
    error = attempt(env, writer, doc, target, plan.get("final", []), counts)
    if error is not None:
        raise Violation("write-raised", f"on a healthy disk after {outcomes}: {describe(error)}")
    if "OSError" in outcomes:
        env.probe("attempt failed then retry succeeded")
    verify(env, desc, want, plan.get("read", []), counts, "final")
    if plan.get("single") is not None:
        single(env, doc, desc, plan, counts)
    kinds = sorted({k for _, k in work.names_in(desc)})
    if kinds:
        env.shape(kinds, desc["schema_version"], outcomes, sorted(env.faults))
    env.log(disk.digest(), outcomes, len(sizing))


def single(env, doc, desc, plan, counts):
    """One element of the document in a file of its own, and as a string"""
    names = [path for path, _ in work.names_in(desc)]
    if not names:
        return
    mod, disk = env.mod, env.disk
    elem = doc.find(names[min(int(plan["single"] * len(names)), len(names) - 1)])
    if elem is None:
        raise Violation("path-lost", f"find gives nothing for one of {names}")
    want = canon.canon(elem)
    writer = mod.writer.Writer(desc["schema_version"])
    disk.begin(plan.get("final", []), counts)
    try:
        writer.write_file_elem(elem, disk.path("one.arxml"))
        other = writer.write_str_elem(elem)
    except Exception as exc:
        raise Violation("write-raised", f"single element: {describe(exc)}") from exc
    env.fired(disk.end())
    text = (disk.get("one.arxml") or b"").decode("utf-8")
    if text.strip() != other.strip():
        raise Violation("file-and-string-differ", f"single {type(elem).__name__}")
    try:
        with env.quiet() as out:
            got = mod.reader.Reader(schema_version=desc["schema_version"]).read_str_elem(text)
    except Exception as exc:
        raise Violation("read-raised", f"single {type(elem).__name__}: {describe(exc)}") from exc
    if out.getvalue():
        raise Violation("read-complained", f"single {type(elem).__name__}: {out.getvalue()[:400]}")
    res = canon.diff(want, canon.canon(got))
    if res:
        raise Violation("read-back-differs", f"single {type(elem).__name__}: at {res[0]}: written {short(res[1])} read {short(res[2])}")
    env.probe("single element")


def prior(kind, disk):
    """What the target held before"""
    if kind == "garbage":
        disk.put("out.arxml", b"\x00\xff garbage ]]>" * 50)


def attempt(env, writer, doc, target, faults, counts):
    """One write; the exception or None"""
    env.disk.begin(faults, counts)
    error = None
    try:
        writer.write_file(doc, target)
    except OSError as exc:
        error = exc
    except Exception as exc:
        fired = env.fired(env.disk.end())
        raise Violation("write-raised", f"{describe(exc)} (faults {fired})") from exc
    fired = env.disk.end()
    env.fired(fired)
    if error is not None and not any(is_harmful(name) for name in fired):
        raise Violation("write-raised", f"{describe(error)} without a failing system call (faults {fired})")
    return error


def is_harmful(name):
    return not (name.endswith(":short") or name.endswith(":EINTR") or name == "chunked-io")


def verify(env, desc, want, faults, counts, when):
    """Restart and read back"""
    mod, disk = env.mod, env.disk
    disk.restart()
    disk.begin(faults, counts)
    try:
        with env.quiet() as out:
            doc = mod.reader.Reader().read_file(disk.path("out.arxml"), stop_on_error=True)
    except Exception as exc:
        cause = exc.__cause__ or exc
        raise Violation("read-raised", f"{when}: {describe(exc)} cause {describe(cause)}") from exc
    env.fired(disk.end())
    if out.getvalue():
        raise Violation("read-complained", f"{when}: {out.getvalue()[:400]}")
    got = canon.canon(doc)
    res = canon.diff(want, got)
    if res:
        raise Violation("read-back-differs", f"{when}: at {res[0]}: written {short(res[1])} read {short(res[2])}")
    if doc.schema_version != desc["schema_version"]:
        raise Violation("schema-version-differs", f"{when}: {doc.schema_version} instead of {desc['schema_version']}")
    paths(doc, desc)
    res = refs.wrong_refs(doc.packages, mod)
    if res:
        raise Violation("path-differs", f"{when}: {res}")


def paths(doc, desc):
    """Reference paths of the read model"""
    for path, _ in work.names_in(desc):
        elem = doc.find(path)
        if elem is None:
            raise Violation("path-lost", f"find({path!r}) gives nothing after reading back")
        ref = elem.ref() if hasattr(elem, "ref") else None
        if ref is not None and str(ref) != path:
            raise Violation("path-differs", f"{path} reports itself as {ref}")


def short(value):
    return repr(value)[:300]


def check_conforms(desc, doc, mod):
    """The built model carries what the constructors were given"""
    def package(pdesc, live, path):
        for key, val in pdesc["attrs"].items():
            res = gen.conforms(val, getattr(live, key, None), mod, f"{path}.{key}")
            if res:
                raise Violation("constructor-drops", res)
        if len(live.elements) != len(pdesc["elements"]) or len(live.packages) != len(pdesc["packages"]):
            raise Violation("constructor-drops", f"{path}: number of elements or packages")
        for edesc, elem in zip(pdesc["elements"], live.elements):
            res = gen.conforms(edesc, elem, mod, f"{path}/{edesc['a']['name']}")
            if res:
                raise Violation("constructor-drops", res)
        for sdesc, sub in zip(pdesc["packages"], live.packages):
            package(sdesc, sub, f"{path}/{sdesc['name']}")
    for pdesc, live in zip(desc["packages"], doc.packages):
        package(pdesc, live, f"/{pdesc['name']}")
