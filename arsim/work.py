"""Shared workload pieces: random documents, random disk faults, file helpers"""
import errno

from . import gen

SCHEMA_VERSIONS = [48, 49, 50, 51]

WRITE_ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
OPEN_ERRNOS = [errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EROFS, errno.EIO, errno.EISDIR]
CLOSE_ERRNOS = [errno.EIO, errno.ENOSPC, errno.EDQUOT]
READ_ERRNOS = [errno.EIO, errno.EISDIR, errno.ESTALE]


def doc_plan(rng, big=0.15, exotic=None, sub=True):
    """A random document description, swarm style: size, density and text mix vary per run"""
    g = gen.Gen(rng, size=rng.choice([1, 1, 2, 3]), density=rng.choice([0.15, 0.3, 0.5, 0.8]),
                exotic_text=rng.choice([0.0, 0.1, 0.3, 0.7]) if exotic is None else exotic)
    roll = rng.random()
    if roll < big:
        count = rng.randrange(20, 60)
    elif roll < 0.5:
        count = rng.randrange(0, 3)
    else:
        count = rng.randrange(2, 9)
    kinds = None
    if rng.random() < 0.4:
        kinds = rng.sample(gen.PACKAGEABLE, rng.randrange(1, 5))
    packages = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        packages.append(g.package(count, kinds=kinds, sub=sub))
        count = max(0, count // 2)
    if packages and rng.random() < 0.02:
        for i in range(rng.choice([5, 15, 40, 90])):
            packages[0] = {"name": f"D{i}", "attrs": {}, "elements": [], "packages": [packages[0]]}
    if rng.random() < 0.03:
        packages = []
    return {"schema_version": rng.choice(SCHEMA_VERSIONS), "packages": packages}


def names_in(desc):
    """(path, class) of every element in a document description"""
    out = []

    def walk(package, path):
        here = f"{path}/{package['name']}"
        for elem in package["elements"]:
            out.append((f"{here}/{elem['a']['name']}", elem["$"]))
        for sub in package["packages"]:
            walk(sub, here)
    for package in desc["packages"]:
        walk(package, "")
    return out


def output_faults(rng, crash=False):
    """A fault plan for an operation that produces files"""
    faults = []
    roll = rng.random()
    if roll < 0.25:
        faults.append({"kind": "write", "do": "errno", "at": position(rng), "arg": rng.choice(WRITE_ERRNOS)})
    elif roll < 0.40:
        faults.append({"kind": "quota", "do": "quota", "at": rng.random()})
    elif roll < 0.55:
        faults.append({"kind": "close", "do": "errno", "at": position(rng), "arg": rng.choice(CLOSE_ERRNOS)})
    elif roll < 0.65:
        faults.append({"kind": "open", "do": "errno", "at": position(rng), "arg": rng.choice(OPEN_ERRNOS)})
    elif roll < 0.75:
        faults.append({"kind": "write", "do": "errno", "at": 0.9999, "arg": rng.choice(WRITE_ERRNOS)})
    elif roll < 0.85:
        # two failures: the first write error is followed by a failing close
        faults.append({"kind": "write", "do": "errno", "at": position(rng), "arg": rng.choice(WRITE_ERRNOS)})
        faults.append({"kind": "close", "do": "errno", "at": 0.9999, "arg": rng.choice(CLOSE_ERRNOS)})
    else:
        # a short write, then the next one fails
        at = position(rng)
        faults.append({"kind": "write", "do": "short", "at": at, "arg": rng.choice([1, 7, 100, 4000])})
        faults.append({"kind": "write", "do": "errno", "at": 0.9999, "arg": rng.choice(WRITE_ERRNOS)})
    if crash and rng.random() < 0.5:
        faults = [crash_fault(rng)]
    faults += benign_output(rng)
    return faults


def position(rng):
    """Where in an operation: often at its edges"""
    return rng.choice([0.0, 0.9999, rng.random(), rng.random(), rng.random()])


def crash_fault(rng):
    """A process crash at some system call of an output operation"""
    kind = rng.choice(["write", "write", "write", "close", "open"])
    if kind == "write" and rng.random() < 0.5:
        return {"kind": "write", "do": "torn", "at": position(rng), "arg": rng.choice([0, 1, 10, 511, 512, 4096, 8000])}
    return {"kind": kind, "do": "crash", "at": position(rng)}


def benign_output(rng):
    """Things a healthy disk may do that must not matter"""
    faults = []
    if rng.random() < 0.4:
        faults.append({"kind": "chunks", "do": "chunks", "w": rng.choice([1, 3, 17, 100, 511, 4096]), "r": 0})
    if rng.random() < 0.3:
        faults.append({"kind": "write", "do": "errno", "at": rng.random(), "arg": errno.EINTR})
    if rng.random() < 0.3:
        faults.append({"kind": "write", "do": "short", "at": rng.random(), "arg": rng.choice([1, 5, 100, 1000])})
    return faults


def benign_input(rng):
    """Short reads"""
    faults = []
    if rng.random() < 0.6:
        faults.append({"kind": "chunks", "do": "chunks", "w": 0, "r": rng.choice([1, 3, 17, 100, 511, 3999, 4096])})
    if rng.random() < 0.4:
        faults.append({"kind": "read", "do": "short", "at": rng.random(), "arg": rng.choice([1, 2, 3, 100])})
    return faults


def harmful(fault):
    """Whether a fault makes the operation fail (unlike short transfers and EINTR)"""
    if fault["kind"] == "chunks" or fault["do"] == "short":
        return False
    return not (fault["do"] == "errno" and fault.get("arg") == errno.EINTR)
