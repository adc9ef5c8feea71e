"""C20: the same XML content reads as the same model, however it is spelled"""
import random
import re

import lxml.etree as ET

from .. import canon, gen, outops, work
from ..core import Invalid, Quiet, Skip, Violation

PROPERTY = "C20"
QUICK = 7800
THOROUGH = 300000
RULE = ("a run writes 1-2 random documents, spells each in 1-3 other ways that mean the same XML content (encoding, declaration, "
        "prefixes, attribute order and quotes, character references, CDATA, entities, comments and processing instructions between "
        "and inside texts, line ends, blanks in tags), stores them on the simulated disk and has one reader read them in 2-6 reads "
        "from files under short and failing reads and from strings; every model and the tags of the diagnostics must equal those "
        "of the spelling the writer chose; distinct = different (spellings, kinds of reads, options)")
COMPONENTS = {"real": ["autosar.xml.reader", "autosar.xml.element", "autosar.xml.writer", "lxml/libxml2"],
              "simulated": ["stored document (disk image)", "read results (simio)"],
              "oracle": ["the document as the writer spells it, read by a new reader", "XML 1.0 equivalence, checked with a second XML parser (expat)"]}
ASSUMPTIONS = ["documents are well-formed XML 1.0 in encodings the XML library knows"]
PROBES = ["comment inside a text", "CDATA", "entity", "character reference", "comment between elements", "prefix", "UTF-16", "Latin-1", "ASCII",
          "byte order mark", "string with a declared encoding", "CRLF", "failing read", "read again", "DOCTYPE"]

NS = "http://autosar.org/schema/r4.0"
XSI = "http://www.w3.org/2001/XMLSchema-instance"
ENCODINGS = ["utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-16", "iso-8859-1", "us-ascii", "windows-1252"]
# what a spelling may use; each is dropped on its own when a violation is minimised
FEATURES = ["comments", "inside", "cdata", "entities", "charref", "prefix", "order", "quotes", "blanks", "crlf", "empty", "doctype", "reindent",
            "declaration", "epilog", "twoprefix"]
EXACT = re.compile(r"L-\d+$|.*-NAME$|PRM-UNIT$")


def generate(rng, profile):
    docs = []
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.6:
            g = gen.Gen(rng, size=2, density=rng.choice([0.3, 0.6, 0.9]), exotic_text=rng.choice([0.0, 0.3, 0.6]))
            elements = []
            for i in range(rng.choice([1, 2, 3])):
                elem = g.aimed()
                elem["a"]["name"] = f"E{i}"
                elements.append(elem)
            package = {"name": "P", "attrs": {}, "elements": elements, "packages": []}
            doc = {"schema_version": rng.choice(work.SCHEMA_VERSIONS), "packages": [package]}
        else:
            doc = work.doc_plan(rng, big=0.02, exotic=rng.choice([0.0, 0.3, 0.6]))
        spellings = []
        for _ in range(rng.choice([1, 2, 3])):
            count = rng.choice([0, 1, 2, 4, 8, len(FEATURES)])
            spellings.append({"encoding": rng.choice(ENCODINGS), "features": rng.sample(FEATURES, count),
                              "rate": rng.choice([0.05, 0.3, 1.0]), "seed": rng.randrange(1 << 30)})
        docs.append({"doc": doc, "spellings": spellings})
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        doc = rng.randrange(len(docs))
        op = {"doc": doc, "spelling": rng.randrange(len(docs[doc]["spellings"])), "via": rng.choice(["file", "file", "str"]),
              "stop": rng.random() < 0.5, "faults": []}
        if op["via"] == "file":
            op["faults"] = work.benign_input(rng)
            if rng.random() < 0.15:
                op["faults"] = [{"kind": rng.choice(["read", "open"]), "do": "errno", "at": work.position(rng), "arg": rng.choice([5, 13])}]
        ops.append(op)
    return {"docs": docs, "ops": ops}


class Speller:
    """Writes an element tree in another way that means the same"""

    def __init__(self, item, env):
        self.rng = random.Random(item["seed"])
        self.on = set(item["features"])
        self.rate = item["rate"]
        self.encoding = item["encoding"]
        self.codec = {"utf-8-sig": "utf-8"}.get(self.encoding, self.encoding)
        self.env = env
        self.prefix = "ar:" if "prefix" in self.on else ""
        self.entities = {}

    def use(self, feature, scale=1.0):
        return feature in self.on and self.rng.random() < self.rate * scale

    def newline(self):
        if self.use("crlf"):
            self.env.probe("CRLF")
            return "\r\n"
        return "\n"

    def gap(self):
        """Blank room between elements"""
        out = ""
        if "reindent" not in self.on:
            out = self.newline() + "  "
        elif self.use("reindent"):
            out = self.rng.choice([" ", "\t", self.newline(), self.newline() * 2 + "\t "])
        if self.use("comments", 0.4):
            self.env.probe("comment between elements")
            out += self.note() + self.rng.choice(["", "\n"])
        return out

    def note(self):
        return self.rng.choice(["<!-- note -->", "<!---->", "<!-- <SHORT-NAME>Other</SHORT-NAME> & -->", "<?tool keep=1?>", "<?p?>", "<!-- a\n b -->"])

    def escape(self, text, quote=None):
        """Character data, or an attribute value when quote is given"""
        out = []
        for ch in text:
            code = ord(ch)
            must = ch in "<&\r" or (ch == ">" and quote is None) or (quote is not None and ch in quote + "\n\t")
            try:
                ch.encode(self.codec)
            except UnicodeEncodeError:
                must = True
            if ch == "\n" and quote is None and not must:
                out.append(self.newline())
            elif must or self.use("charref", 0.3):
                if self.use("charref") or not must or ch not in "<&>":
                    self.env.probe("character reference")
                    out.append(f"&#{code};" if self.rng.random() < 0.5 else f"&#x{code:X};")
                else:
                    out.append({"<": "&lt;", "&": "&amp;", ">": "&gt;"}[ch])
            else:
                out.append(ch)
        return "".join(out)

    def text(self, text, inside=True):
        """Character data in pieces"""
        if not text:
            return self.inside() if inside else ""
        cuts = sorted(self.rng.randrange(len(text) + 1) for _ in range(self.rng.choice([0, 1, 2])))
        out, start = self.inside(), 0
        for cut in cuts + [len(text)]:
            piece, start = text[start:cut], cut
            if piece and self.use("cdata", 0.5) and "]]>" not in piece and "\r" not in piece and self.plain(piece):
                self.env.probe("CDATA")
                out += f"<![CDATA[{piece}]]>"
            elif piece and self.use("entities", 0.3) and len(self.entities) < 20:
                self.env.probe("entity")
                name = f"e{len(self.entities)}"
                # the value is parsed again where it is used: markup is referred to twice
                self.entities[name] = "".join(c if c.isascii() and c.isalnum() else f"&#38;#{ord(c)};" for c in piece)
                out += f"&{name};"
            else:
                out += self.escape(piece)
            out += self.inside()
        return out

    def plain(self, piece):
        try:
            piece.encode(self.codec)
        except UnicodeEncodeError:
            return False
        return True

    def inside(self):
        if self.use("inside", 0.3):
            self.env.probe("comment inside a text")
            return self.note()
        return ""

    def blank(self, must=False):
        if self.use("blanks", 0.3):
            return self.rng.choice([" ", "  ", "\n", "\t", " \n "])
        return " " if must else ""

    def tag(self, node):
        name = node.tag
        if name.startswith("{"):
            space, name = name[1:].split("}")
            if space == NS:
                if "twoprefix" in self.on and self.rng.random() < self.rate * 0.2:
                    return f"x:{name}", f"x:{name}", f' xmlns:x="{NS}"'
                return self.prefix + name, self.prefix + name, ""
        raise Invalid("namespace of " + node.tag)

    def attributes(self, node):
        items = []
        for key, value in node.attrib.items():
            if key.startswith("{" + XSI + "}"):
                key = ("i:" if "prefix" in self.on else "xsi:") + key.split("}")[1]
            elif key.startswith("{http://www.w3.org/XML/1998/namespace}"):
                key = "xml:" + key.split("}")[1]
            elif key.startswith("{"):
                raise Invalid("namespace of " + key)
            quote = "'" if self.use("quotes") else '"'
            items.append(f"{key}{self.blank()}={self.blank()}{quote}{self.escape(value, quote)}{quote}")
        if node.getparent() is None:
            spaces = [f'xmlns{":ar" if self.prefix else ""}="{NS}"', f'xmlns:{"i" if "prefix" in self.on else "xsi"}="{XSI}"']
            items = spaces + items
        if "order" in self.on:
            self.rng.shuffle(items)
        return "".join(self.blank(True) + i for i in items)

    def element(self, node):
        start, end, extra = self.tag(node)
        head = f"<{start}{extra}{self.attributes(node)}"
        children = list(node)
        if not children and not node.text and not (self.on & {"inside"} and self.rng.random() < 0.2):
            if self.use("empty"):
                return f"{head}{self.blank()}></{end}{self.blank()}>"
            return f"{head}{self.blank()}/>"
        out = [head, self.blank(), ">"]
        exact = not children or EXACT.match(node.tag.split("}")[1]) or (node.text or "").strip() or any((c.tail or "").strip() for c in children)
        if exact:
            out.append(self.text(node.text or ""))
            for child in children:
                out.append(self.element(child))
                out.append(self.text(child.tail or "", inside=False))
        else:
            out.append(self.gap())
            for child in children:
                out.append(self.element(child))
                out.append(self.gap())
        out.append(f"</{end}{self.blank()}>")
        return "".join(out)

    def document(self, root):
        """-> text of the document, with the declaration of its encoding"""
        content = self.element(root)
        head = ""
        needs = self.encoding not in ("utf-8", "utf-8-sig", "utf-16", "us-ascii")
        if needs or "declaration" not in self.on:
            quote = "'" if "quotes" in self.on else '"'
            alone = ' standalone="yes"' if "doctype" in self.on and self.rng.random() < 0.5 else ""
            head = f"<?xml version={quote}1.0{quote} encoding={quote}{self.codec}{quote}{alone}?>" + self.newline()
        if self.use("comments"):
            head += self.note() + "\n"
        if self.entities or "doctype" in self.on:
            self.env.probe("DOCTYPE")
            head += f"<!DOCTYPE {self.prefix}AUTOSAR [" + "".join(f'<!ENTITY {k} "{v}">\n' for k, v in self.entities.items()) + "]>\n"
        if "epilog" in self.on:
            content += self.rng.choice(["\n", "\n<!-- end -->\n", "<?end?>"])
        return head + content


def parse_events(data):
    """Content of a document according to expat: elements, attributes and joined text"""
    import xml.parsers.expat as expat
    parser, out = expat.ParserCreate(namespace_separator=" "), []

    def text(chars):
        if out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + chars)
        else:
            out.append(("text", chars))
    parser.StartElementHandler = lambda name, attrs: out.append(("start", name, sorted(attrs.items())))
    parser.EndElementHandler = lambda name: out.append(("end", name))
    parser.CharacterDataHandler = text
    parser.Parse(data, True)
    return out


def significant(events):
    """Without blank text between elements"""
    out = []
    for i, event in enumerate(events):
        if event[0] == "text" and not event[1].strip():
            before = events[i - 1][0] if i else "end"
            after = events[i + 1][0] if i + 1 < len(events) else "start"
            if (before, after) != ("start", "end"):
                continue
        out.append(event)
    return out


def read(reader, item, op, disk, counts=None):
    """-> (document, error, diagnostics, faults fired)"""
    doc = error = None
    with Quiet() as out:
        disk.begin(op["faults"], counts)
        try:
            if op["via"] == "str":
                doc = reader.read_str(item["text"], stop_on_error=op["stop"])
            else:
                doc = reader.read_file(disk.path(item["name"]), stop_on_error=op["stop"])
        except Exception as exc:  # pylint: disable=broad-exception-caught
            error = exc
        fired = disk.end()
    return doc, error, out.getvalue().splitlines(), fired


def tags(lines):
    return sorted(re.sub(r"^.*: Unprocessed element", "", line) for line in lines)


def run(plan, env):
    mod, disk = env.mod, env.disk
    stored = {}
    for d, item in enumerate(plan["docs"]):
        desc = item["doc"]
        if desc["schema_version"] not in work.SCHEMA_VERSIONS or not gen.valid(desc["packages"]):
            raise Invalid("document")
        doc = env.build(gen.build_document, desc, mod)
        text = env.build(lambda x=doc: mod.writer.Writer().write_str(x, skip_root_attr=False))
        plain = {"text": text, "name": "plain"}
        want, error, lines, _ = read(mod.reader.Reader(), plain, {"via": "str", "stop": True, "faults": []}, disk)
        if error is not None or want is None:
            raise Skip("document not readable")
        reference = None
        for s, spelling in enumerate(item["spellings"]):
            if spelling["encoding"] not in ENCODINGS or not set(spelling["features"]) <= set(FEATURES):
                raise Invalid("spelling")
            speller = Speller(spelling, env)
            other = speller.document(ET.fromstring(text.encode("utf-8")))
            data = other.encode(spelling["encoding"])
            special = {"utf-16": "UTF-16", "iso-8859-1": "Latin-1", "us-ascii": "ASCII", "utf-8-sig": "byte order mark"}
            if spelling["encoding"] in special:
                env.probe(special[spelling["encoding"]])
            for feature in spelling["features"]:
                env.fault("spelling:" + feature)
            env.fault("encoding:" + spelling["encoding"])
            if spelling["seed"] % 8 == 0 and spelling["encoding"] != "windows-1252":
                # the oracle's own claim, checked with another parser on a part of the runs
                reference = reference or significant(parse_events(text.encode("utf-8")))
                if significant(parse_events(data)) != reference:
                    raise RuntimeError(f"spelling {spelling} means something else")
            name = f"doc{d}_{s}.arxml"
            disk.put(name, data)
            stored[d, s] = {"text": other, "name": name, "want": canon.canon(want), "tags": tags(lines), "spelling": spelling}
    reader = env.build(mod.reader.Reader)
    history, seen = [], set()
    for op in plan["ops"]:
        key = (op["doc"], op["spelling"])
        if key not in stored:
            raise Invalid("operation")
        item, counts = stored[key], None
        if op["faults"]:
            read(mod.reader.Reader(), item, dict(op, faults=[]), disk)
            counts = disk.counts()
        doc, error, lines, fired = read(reader, item, op, disk, counts)
        env.fired(fired)
        where = f"read {len(history)} (document {op['doc']}, {op['via']}) after {history}, spelt with {item['spelling']}"
        if any(outops.is_harmful(n) for n in fired):
            env.probe("failing read")
            if error is not None:
                history.append("failed")
                continue
        if error is not None:
            raise Violation("spelling-rejected", f"{where}: {type(error).__name__}: {error}")
        if doc is None:
            raise Violation("nothing-read", where)
        res = canon.diff(item["want"], canon.canon(doc))
        if res:
            raise Violation("spelling-changes-model", f"{where}: at {res[0]}: {str(res[1])[:200]} / {str(res[2])[:200]}")
        if tags(lines) != item["tags"]:
            raise Violation("spelling-changes-diagnostics", f"{where}: {lines[:3]}, plainly {item['tags']}")
        if op["via"] == "str" and item["text"].startswith("<?xml"):
            env.probe("string with a declared encoding")
        if key in seen:
            env.probe("read again")
        seen.add(key)
        history.append(f"read {key}")
    env.shape([[(s["encoding"], sorted(s["features"]), s["rate"]) for s in d["spellings"]] for d in plan["docs"]],
              [(o["doc"], o["spelling"], o["via"], o["stop"]) for o in plan["ops"]])
    env.log(history, sorted(env.faults), disk.digest())
