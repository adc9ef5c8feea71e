"""C08: one damaged element does not take its neighbours with it"""
import copy

import lxml.etree as ET

from .. import canon, damage, gen, work
from ..core import Invalid, Skip, Violation, describe

PROPERTY = "C08"
QUICK = 11700
THOROUGH = 400000
RULE = ("a run writes a random document, damages 1-4 elements or package headers of the stored file (missing, duplicated or "
        "wrong content at any depth, duplicate names, unknown kinds), adds comments and blanks between elements, and reads it "
        "tolerantly and with stop_on_error; undamaged elements must equal those of the undamaged document, every skipped one "
        "must be reported; distinct = different (damage kinds with element kinds, which were skipped)")
COMPONENTS = {"real": ["autosar.xml.reader", "autosar.xml.element", "autosar.xml.writer", "lxml/libxml2"],
              "simulated": ["damage of the stored document (disk image)"],
              "oracle": ["the undamaged document", "removal of the skipped elements from it"]}
ASSUMPTIONS = ["damage keeps the file well-formed and stays inside the damaged elements",
               "an element of a kind the library does not know is unsupported, not damaged: it is skipped without stopping"]
PROBES = ["damaged element skipped", "damaged element still readable", "damaged package skipped", "duplicate name",
          "nested package", "comments between elements", "unknown element kind", "stop_on_error raised"]


def generate(rng, profile):
    plan = {"doc": work.doc_plan(rng, big=0.05, exotic=rng.choice([0.0, 0.1, 0.4])), "hits": damage.random_hits(rng),
            "noise": damage.random_noise(rng), "copies": [], "via": rng.choice(["file", "str"])}
    if rng.random() < 0.25:
        plan["copies"] = [rng.random() for _ in range(rng.choice([1, 2]))]
    return plan


def read(env, data, via, stop):
    """-> (document or None, error or None, diagnostic lines)"""
    reader = env.mod.reader.Reader()
    doc = error = None
    with env.quiet() as out:
        try:
            if via == "str":
                doc = reader.read_str(data.decode("utf-8"), stop_on_error=stop)
            else:
                env.disk.put("doc.arxml", data)
                doc = reader.read_file(env.disk.path("doc.arxml"), stop_on_error=stop)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            error = exc
    return doc, error, [line for line in out.getvalue().splitlines() if line.strip()]


def header(package):
    """Canonical package without its content"""
    out = canon.canon(package)
    out = {k: v for k, v in out.items() if k not in ("elements", "packages")}
    return {k: v for k, v in out.items() if not (isinstance(v, dict) and "dict" in v)}


def run(plan, env):
    mod, desc = env.mod, plan["doc"]
    if desc["schema_version"] not in work.SCHEMA_VERSIONS or not gen.valid(desc["packages"]):
        raise Invalid("document")
    doc = env.build(gen.build_document, desc, mod)
    data = env.build(lambda: mod.writer.Writer().write_str(doc, skip_root_attr=False)).encode("utf-8")
    whole, error, lines = read(env, data, plan["via"], True)
    if error is not None or lines:
        raise Skip("undamaged document not readable")
    root = ET.fromstring(data)
    damage.add_noise(root, plan["noise"])
    if plan["noise"]:
        env.probe("comments between elements")
    marks = damage.apply(root, plan["hits"])
    copies(root, plan["copies"], marks)
    bad = damage.to_bytes(root)
    for _, how, _ in marks.values():
        env.fault(f"damage:{how}")
    got, error, lines = read(env, bad, plan["via"], False)
    if error is not None:
        raise Violation("whole-document-lost", f"damage {sorted(set(m[:2] for m in marks.values()))}: {describe(error)}")
    if got is None:
        raise Violation("whole-document-lost", "reading returned None")
    skipped = []
    compare_level(whole.packages, got.packages, (), marks, skipped, "", env)
    stopped, stop_error, _ = read(env, bad, plan["via"], True)
    failing = [s for s in skipped if s[2] != "unknown"]
    if len(lines) < len(failing) or (skipped and not lines):
        raise Violation("not-reported", f"{len(skipped)} skipped {skipped}, diagnostics: {lines}")
    if failing and stop_error is None:
        raise Violation("did-not-stop", f"skipped {failing}; stop_on_error read returned {type(stopped).__name__}")
    if not failing and stop_error is not None:
        raise Violation("stopped-without-reason", f"tolerant reading skipped nothing; {describe(stop_error)} "
                        f"damage {sorted(set(m[:2] for m in marks.values()))}")
    if failing:
        env.probe("stop_on_error raised")
    if not failing and stop_error is None:
        res = canon.diff(canon.canon(got), canon.canon(stopped))
        if res:
            raise Violation("stop-reads-differently", f"at {res[0]}")
    env.shape(sorted((m[0], m[1]) for m in marks.values()), sorted(skipped), len(lines))
    env.log(sorted(skipped), len(lines), len(bad))


def copies(root, fracs, marks):
    """Exact copies of elements behind the originals: the copies are rejected"""
    spots = [n for k, n in damage.targets(root) if k == "element" and damage.path_of(n) not in marks]
    inserted = []
    for frac in fracs:
        node = damage.pick(spots, frac)
        if node is None or node in inserted:
            continue
        parent_hit = any(damage.path_of(node)[:len(p)] == p for p in marks)
        if parent_hit or node.find(damage.NS + "SHORT-NAME") is None:
            continue
        # a copy shifts the positions behind it; put it last
        node.getparent().append(copy.deepcopy(node))
        inserted.append(node)
        last = [c for c in node.getparent() if isinstance(c.tag, str)][-1]
        marks[damage.path_of(last)] = ("element", "copy", True)
    return inserted


def compare_level(want_packages, got_packages, path, marks, skipped, where, env):
    """Packages of one level, then their content"""
    rows = [(w, marks.get(path + (("p", i),))) for i, w in enumerate(want_packages)]
    pairs = align(rows, got_packages, lambda w, g: w.name == g.name, "package", where, skipped, env, False)
    for i, want, got in pairs:
        here = path + (("p", i),)
        name = f"{where}/{want.name}"
        if here not in marks:
            res = canon.diff(header(want), header(got))
            if res:
                raise Violation("neighbour-changed", f"package {name}: at {res[0]}: {res[1]} / {res[2]}")
        if where:
            env.probe("nested package")
        rows = []
        count = len(want.elements)
        extra = sorted(p for p in marks if p[:-1] == here and p[-1][0] == "e" and p[-1][1] >= count)
        for k, elem in enumerate(want.elements):
            rows.append((elem, marks.get(here + (("e", k),))))
        rows += [(None, marks[p]) for p in extra]
        align(rows, got.elements, same_element, "element", name, skipped, env, True)
        compare_level(want.packages, got.packages, here, marks, skipped, name, env)


def same_element(want, got):
    return want.name == got.name and type(want) is type(got)


def align(rows, got, same, kind, where, skipped, env, exact):
    """Match what was read with what was there; undamaged ones must all be there, equal and in order"""
    pairs, pos = [], 0
    got = list(got)
    for i, (want, mark) in enumerate(rows):
        if mark is None:
            # damaged ones before it may have been read under any name
            while pos < len(got) and not same(want, got[pos]):
                pos += 1
            if pos == len(got):
                raise Violation("neighbour-lost", f"{kind} {want.name} of {where or 'the document'} ({type(want).__name__}); "
                                f"damaged here: {[m[1] for _, m in rows if m]}")
            if exact:
                res = canon.diff(canon.canon(want), canon.canon(got[pos]))
                if res:
                    raise Violation("neighbour-changed", f"{where}/{want.name}: at {res[0]}: {str(res[1])[:150]} / {str(res[2])[:150]}")
            pairs.append((i, want, got[pos]))
            pos += 1
    sound = [p[2] for p in pairs]
    left = [g for g in got if not any(g is s for s in sound)]
    hit = [(w, m) for w, m in rows if m is not None]
    if len(left) > len(hit):
        raise Violation("invented", f"{len(left)} extra {kind}s in {where or 'the document'}: {[g.name for g in left]}")
    must = [m for _, m in hit if m[2]]
    if len(left) > len(hit) - len(must):
        raise Violation("damaged-accepted", f"{kind}s {[g.name for g in left]} of {where or 'the document'} were read; "
                        f"damage {[m[1] for _, m in hit]}")
    names = {g.name for g in left}
    unread = len(hit) - len(left)
    # which of the damaged ones were skipped: those that must be, then those whose name did not turn up
    order = sorted(hit, key=lambda h: (not h[1][2], h[1][1] != "unknown", h[0] is not None and h[0].name in names))
    for want, mark in order[:unread]:
        skipped.append((kind, type(want).__name__ if want is not None else "copy", mark[1]))
        env.probe("damaged package skipped" if kind == "package" else "damaged element skipped")
        if mark[1] in ("same_name", "copy"):
            env.probe("duplicate name")
        if mark[1] == "unknown":
            env.probe("unknown element kind")
    for want, mark in order[unread:]:
        env.probe("damaged element still readable")
        if kind == "package" and want is not None:
            for g in left:
                if g.name == want.name:
                    pairs.append((rows.index((want, mark)), want, g))
    return pairs
