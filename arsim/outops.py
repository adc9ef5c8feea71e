"""Output operations: everything in the library that produces a file or a serialised text.

    {"op": "file", "doc": <document description>, "name": "a.arxml"}
    {"op": "elem", "elem": <element description>, "name": "e.xml", "schema": 51}
    {"op": "documents", "ws": <workspace description>, "schema": 51}
    {"op": "header", "types": <type graph>, "requests": [...]}
    {"op": "str", "doc": ...} / {"op": "str_elem", "elem": ...}
"poison": {"path": k, "how": "..."} makes the k-th element of a document unwritable.
"""
from . import gen, typegraph, work, wsplan
from .core import Invalid, Skip

OUT = "out"


def random_elem(rng):
    g = gen.Gen(rng, size=rng.choice([1, 2, 3]), density=rng.choice([0.2, 0.5, 0.8]), exotic_text=rng.choice([0, 0.2]))
    return g.obj(rng.choice(gen.PACKAGEABLE))


def random_op(rng, kinds, serial=0, names=("a.arxml", "b.arxml", "c.arxml")):
    """An operation description"""
    kind = rng.choice(kinds)
    if kind in ("file", "str"):
        op = {"op": kind, "doc": work.doc_plan(rng)}
    elif kind in ("elem", "str_elem"):
        op = {"op": kind, "elem": random_elem(rng)}
    elif kind == "documents":
        ws = wsplan.random_workspace(rng)
        op = {"op": kind, "ws": ws, "schema": rng.choice(work.SCHEMA_VERSIONS)}
    else:
        types = typegraph.random_graph(rng)
        good = [i for i in range(len(types)) if typegraph.requestable(types, i)]
        if rng.random() < 0.3:      # a big header crosses buffer boundaries
            types = [dict(t, name=t["name"] + "x" * 60) for t in types]
        op = {"op": kind, "types": types, "requests": rng.sample(good, rng.randrange(len(good) + 1)) if good else []}
    if kind in ("file", "elem"):
        op["name"] = rng.choice(names)
    return op


def check(op):
    """Raise Invalid for a (minimised) operation outside the population"""
    kind = op["op"]
    if kind in ("file", "str"):
        if op["doc"]["schema_version"] not in work.SCHEMA_VERSIONS or not gen.valid(op["doc"]["packages"]):
            raise Invalid("document")
    elif kind in ("elem", "str_elem"):
        if not gen.valid(op["elem"]):
            raise Invalid("element")
    elif kind == "documents":
        if not wsplan.valid(op["ws"]) or op["schema"] not in work.SCHEMA_VERSIONS:
            raise Invalid("workspace")
    elif kind == "header":
        if not typegraph.valid(op["types"]) or not all(0 <= i < len(op["types"]) for i in op["requests"]):
            raise Invalid("types")
        if not all(typegraph.requestable(op["types"], i) for i in op["requests"]):
            raise Invalid("request")
    if op.get("name") == "":
        raise Invalid("name")


class Subject:
    """The live objects an operation works on"""

    def __init__(self, op, env, out=None):
        self.op, self.env = op, env
        self.out = out or env.disk.path(OUT)
        self.root = None
        mod, kind = env.mod, op["op"]
        if kind in ("file", "str"):
            self.root = env.build(gen.build_document, op["doc"], mod)
        elif kind in ("elem", "str_elem"):
            self.root = env.build(gen.build, op["elem"], mod)
        elif kind == "documents":
            config = None
            self.root = env.build(wsplan.build_workspace, op["ws"], mod, self.out, config)
        elif kind == "header":
            ws = mod.workspace.Workspace()
            env.build(typegraph.build, op["types"], ws, mod)
            model = mod.model.ImplementationModel(ws)
            for i in op["requests"]:
                env.build(model.create_from_ref, typegraph.path(op["types"][i]))
            self.root = mod.generator.TypeGenerator(model)
        if "poison" in op:
            poison(self.root, op["poison"], mod)

    def run(self, writer):
        """The operation itself; text results are returned"""
        import os
        op, kind = self.op, self.op["op"]
        if kind == "file":
            return writer.write_file(self.root, os.path.join(self.out, op["name"]))
        if kind == "elem":
            return writer.write_file_elem(self.root, os.path.join(self.out, op["name"]))
        if kind == "str":
            return writer.write_str(self.root, skip_root_attr=op.get("skip_root_attr", False))
        if kind == "str_elem":
            return writer.write_str_elem(self.root)
        if kind == "documents":
            return self.root.write_documents(op["schema"])
        return self.root.write_type_header(self.out)


def poison(root, how, mod):
    """Make one element of a document or the element itself impossible to write"""
    elems = []

    def walk(package):
        elems.extend(package.elements)
        for sub in package.packages:
            walk(sub)
    if hasattr(root, "packages"):
        for package in root.packages:
            walk(package)
    elif not isinstance(root, mod.generator.TypeGenerator):
        elems = [root]
    if not elems:
        return
    elem = elems[int(how["at"] * len(elems)) % len(elems)]
    if how["how"] == "class":
        elem.__class__ = type("Unwritable", (type(elem),), {})
    elif how["how"] == "category":
        elem.category = 5
    elif how["how"] == "desc":
        elem.desc = [1]
    elif how["how"] == "name":
        elem.name = None


def baseline(op, env, writer_args=(), out="base"):
    """In a separate process: the operation with a fresh writer on a healthy disk.
    -> {"status": "ok"|"error", "text", "files": {name: bytes}, "counts", "order", "error"}"""
    def body():
        env.disk.wipe()
        env.disk.mkdir(out)
        subject = Subject(op, env, env.disk.path(out))
        writer = env.mod.writer.Writer(*writer_args)
        env.disk.begin()
        before = env.disk.lib.simio_nlog()
        try:
            text, status, error = subject.run(writer), "ok", None
        except Exception as exc:  # pylint: disable=broad-exception-caught
            text, status, error = None, "error", type(exc).__name__
        counts = env.disk.counts()
        env.disk.end()
        writer = subject = None     # noqa: F841  abandoned handles are collected here
        files = {k.split("/", 1)[1]: v for k, v in env.disk.snapshot().items() if k.startswith(out + "/")}
        counts["bytes"] = sum(len(v) for v in files.values())
        order = []
        for line in env.disk.log()[before:]:
            if line.startswith("open"):
                name = line.split(" ")[1].rsplit("/", 1)[-1]
                if name in files and (not order or order[-1] != name):
                    order.append(name)
        return {"status": status, "error": error, "text": text if isinstance(text, str) else None, "files": files,
                "counts": counts, "order": order}

    def guarded():
        try:
            return body()
        except Skip as exc:
            return {"skip": str(exc)}
    result = env.isolated(guarded)
    env.disk.wipe()
    if "skip" in result:
        raise Skip(result["skip"])
    return result


def is_harmful(name):
    """Whether a fired fault must make the operation fail"""
    return not (name.endswith(":short") or name.endswith(":EINTR") or name == "chunked-io")


def first_diff(a, b, width=60):
    """Where two byte strings differ"""
    pos = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"byte {pos} of {len(a)}/{len(b)}: {a[max(0, pos - width):pos + width]!r} / {b[max(0, pos - width):pos + width]!r}"
