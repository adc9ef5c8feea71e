"""Damage to stored documents that leaves them well-formed.

A hit:
    {"at": 0.4, "how": "...", "sub": 0.3, "arg": k}     damages one element (or package header)
"at" selects among all elements and packages in document order, "sub" a place inside it.
"""
import copy
import re

import lxml.etree as ET

from .core import Invalid

NS = "{http://autosar.org/schema/r4.0}"

# how -> must the element be unreadable afterwards?
HOWS = {"no_name": True, "same_name": True, "copy": True, "strict_leaf": True,
        "leaf": False, "child_gone": False, "child_twice": False, "rename_child": False, "attr": False, "attr_gone": False,
        "text": False, "empty": False, "wrap": False, "swap_leaf": False, "char": False, "unknown": None}

GARBAGE = ["?", "", " ", "abc", "-", "1.5.2", "0xZZ", "true1", "NOT-AN-ENUM", "9" * 40, "\u00e5", "1e999", "FIXED_", "\t"]

# leaves whose content the standard restricts to numbers, booleans or enumerations
STRICT = {
    "ARRAY-IMPL-POLICY", "ARRAY-SIZE", "ARRAY-SIZE-HANDLING", "ARRAY-SIZE-SEMANTICS", "BASE-TYPE-SIZE", "BYTE-ORDER",
    "CAN-BE-INVOKED-CONCURRENTLY", "CONSTR-LEVEL", "DATA-UPDATE-PERIOD", "DEFAULT-PATTERN", "DIAG-ARG-INTEGRITY",
    "DIRECTION", "DISPLAY-PRESENTATION", "ENABLE-TAKE-ADDRESS", "ENABLE-UPDATE", "END-TO-END-CALL-RESPONSE-TIMEOUT",
    "ERROR-CODE", "ERROR-HANDLING", "ERROR-REACTION-POLICY", "FACTOR-SI-TO-UNIT", "HANDLE-INVALID", "INDIRECT-API",
    "IS-OPTIONAL", "IS-SERVICE", "IS-STRUCT-WITH-OPTIONAL-ELEMENT", "MASK", "MAX-BASE-TYPE-SIZE", "MAX-DIFF",
    "MAX-GRADIENT", "MAX-NUMBER-OF-ELEMENTS", "MEM-ALIGNMENT", "MINIMUM-START-INTERVAL", "MONOTONY", "NUMBER-OF-BITS",
    "OFFSET-SI-TO-UNIT", "ON-TRANSITION-VALUE", "QUEUE-LENGTH", "REENTRANCY-LEVEL", "SERVER-ARGUMENT-IMPL-POLICY",
    "STEP-SIZE", "SUPPORT-BUFFER-LOCKING", "SW-CALIBRATION-ACCESS", "SW-IMPL-POLICY", "SW-INTENDED-RESOLUTION",
    "SW-IS-VIRTUAL", "SW-MAX-TEXT-SIZE", "TIMEOUT", "TRANSIT-TO-INVALID-EXTENDED", "TRANSMISSION-MODE",
    "USES-END-TO-END-PROTECTION",
}


def targets(root):
    """(kind, xml node, parent index) of all packages and elements in document order"""
    out = []
    for node in root.iter(NS + "AR-PACKAGE", NS + "ELEMENTS"):
        if node.tag == NS + "AR-PACKAGE":
            out.append(("package", node))
        elif node.getparent().tag == NS + "AR-PACKAGE":
            out.extend(("element", child) for child in node if isinstance(child.tag, str))
    return out


def path_of(node):
    """Document path of a target by positions (names may be damaged)"""
    parts = []
    while node is not None and node.getparent() is not None:
        parent = node.getparent()
        if node.tag == NS + "AR-PACKAGE" or parent.tag == NS + "ELEMENTS":
            same = [c for c in parent if isinstance(c.tag, str)]
            parts.append(("p" if node.tag == NS + "AR-PACKAGE" else "e", same.index(node)))
        node = parent
    return tuple(reversed(parts))


def inner(node, kind):
    """Descendants a hit may touch: all of an element, only the header of a package"""
    out = []
    for child in node:
        if not isinstance(child.tag, str):
            continue
        if kind == "package" and child.tag in (NS + "ELEMENTS", NS + "AR-PACKAGES"):
            continue
        out.append(child)
        out.extend(c for c in child.iter() if c is not child and isinstance(c.tag, str))
    return out


def pick(items, frac):
    return items[min(int(frac * len(items)), len(items) - 1)] if items else None


def apply(root, hits):
    """Damage the tree in place -> {id path: (kind, how, must be unreadable)} by original position.

    A target is hit at most once; targets inside a damaged package header are left alone.
    """
    spots = targets(root)
    places = [(kind, node, path_of(node)) for kind, node in spots]
    done = {}
    # names are copied last and in document order: what has given its name keeps it
    for hit in sorted(hits, key=lambda h: (h["how"] == "same_name", h["at"] if h["how"] == "same_name" else 0)):
        if hit["how"] not in HOWS:
            raise Invalid("damage")
        if not places:
            break
        kind, node, path = pick(places, hit["at"])
        if path in done or node.getparent() is None:
            continue
        how = damage(node, kind, hit, [n for _, n, p in places if p in done])
        if how:
            done[path] = (kind, how, HOWS[how])
    return done


def damage(node, kind, hit, others_hit):
    """One hit; the name of what was actually done, or None"""
    how, arg = hit["how"], int(hit.get("arg", 0))
    short = node.find(NS + "SHORT-NAME")
    if how == "no_name":
        if short is None:
            return None
        node.remove(short)
        return how
    if how in ("same_name", "copy"):
        earlier = [c for c in node.itersiblings(preceding=True)
                   if isinstance(c.tag, str) and c.find(NS + "SHORT-NAME") is not None and c not in others_hit]
        if how == "copy" or not earlier:
            return None     # copies are inserted by the caller
        short.text = pick(earlier, hit["sub"]).find(NS + "SHORT-NAME").text
        return how
    parts = inner(node, kind)
    leaves = [c for c in parts if len(c) == 0 and c is not short]
    if how == "strict_leaf":
        leaf = pick([c for c in leaves if strip(c.tag) in STRICT], hit["sub"])
        if leaf is None:
            return None
        leaf.text = ["?bad?", "NOT-AN-ENUM", "maybe"][arg % 3]
        return how
    if how == "unknown":
        if kind == "package":
            return None
        node.tag = NS + ["FIBEX-ELEMENT", "SYSTEM", "ECU-INSTANCE"][arg % 3]
        return how
    others = [c for c in parts if c is not short]
    if how in ("leaf", "char"):
        leaf = pick([c for c in leaves if c.text], hit["sub"])
        if leaf is None:
            return None
        if how == "leaf":
            leaf.text = GARBAGE[arg % len(GARBAGE)]
        else:
            pos = arg % len(leaf.text)
            leaf.text = leaf.text[:pos] + chr(33 + (ord(leaf.text[pos]) * 7 + arg) % 90) + leaf.text[pos + 1:]
        return how
    target = pick(others, hit["sub"])
    if target is None:
        return None
    parent = target.getparent()
    if how == "child_gone":
        parent.remove(target)
    elif how == "child_twice":
        target.addnext(copy.deepcopy(target))
    elif how == "rename_child":
        target.tag = NS + ["BOGUS", "SHORT-NAME", strip(target.tag) + "S", "VARIATION-POINT"][arg % 4]
    elif how == "attr":
        if not target.attrib:
            return None
        name = sorted(target.attrib)[arg % len(target.attrib)]
        target.set(name, "BOGUS")
    elif how == "attr_gone":
        if not target.attrib:
            return None
        del target.attrib[sorted(target.attrib)[arg % len(target.attrib)]]
    elif how == "text":
        target.text = (target.text or "") + "stray"
    elif how == "empty":
        tail = target.tail
        target.clear()
        target.tail = tail
    elif how == "wrap":
        inner_copy = copy.deepcopy(target)
        tail = target.tail
        target.clear()
        target.tail = tail
        target.append(inner_copy)
    elif how == "swap_leaf":
        if len(leaves) < 2:
            return None
        a, b = pick(leaves, hit["sub"]), leaves[arg % len(leaves)]
        a.text, b.text = b.text, a.text
    return how


def strip(tag):
    return re.sub(r"^\{.*\}", "", tag)


def add_noise(root, noise):
    """Comments, processing instructions and blank text between elements: no effect on the model"""
    places = [n for n in root.iter() if isinstance(n.tag, str) and n.getparent() is not None
              and strip(n.getparent().tag) in ("ELEMENTS", "AR-PACKAGES", "AR-PACKAGE", "AUTOSAR")]
    for item in noise:
        node = pick(places, item["at"])
        if node is None:
            return
        extra = ET.Comment(" note <x> & ") if item["kind"] == "comment" else ET.ProcessingInstruction("pi", "a b")
        if item["kind"] == "blank":
            node.tail = (node.tail or "") + "\n\n   "
        else:
            node.addnext(extra)


def to_bytes(root):
    return ET.tostring(root, encoding="utf-8", xml_declaration=True)


def random_hits(rng, most=4):
    """Damage plan"""
    hits = []
    for _ in range(rng.choice([1, 1, 2, 3, most])):
        hits.append({"at": rng.random(), "how": rng.choice(list(HOWS)), "sub": rng.random(), "arg": rng.randrange(1000)})
    return hits


def random_noise(rng):
    return [{"at": rng.random(), "kind": rng.choice(["comment", "pi", "blank"])} for _ in range(rng.choice([0, 0, 1, 3]))]
