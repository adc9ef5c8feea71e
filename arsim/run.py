"""Entry points:  python -m arsim.run check ID [--tier T] [--runs N] | replay FILE | worker ... | shrinker ... | digest ...

`check` exits 0 (held on everything explored), 1 (with a VIOLATION line) or 2 (no answer).
"""
import collections
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE_DIR = os.path.join(VERIF, "arsim")
NONE = 1 << 60


def load_prop(prop):
    """The property's module"""
    return importlib.import_module(f"arsim.props.{prop.lower()}")


# --------------------------------------------------------------------------- building the seam

def build_shim():
    """Compile simio.c (cached by content); path of the shared object"""
    src = os.path.join(CODE_DIR, "simio.c")
    with open(src, "rb") as handle:
        tag = hashlib.sha256(handle.read()).hexdigest()[:16]
    for base in (os.path.join(VERIF, ".build"), os.path.join(tempfile.gettempdir(), f"arsim-build-{os.getuid()}")):
        try:
            os.makedirs(base, exist_ok=True)
            target = os.path.join(base, f"simio-{tag}.so")
            if not os.path.exists(target):
                part = f"{target}.{os.getpid()}"
                subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", part, src, "-ldl"], check=True)
                os.replace(part, target)
            return target
        except OSError:
            continue
    raise RuntimeError("no writable directory for the compiled shim")


def sim_env(shim, hashseed):
    """Environment of every simulated process"""
    keep = {k: v for k, v in os.environ.items()
            if k.startswith(("ARSIM_", "VERIF_")) or k in ("PATH", "HOME", "TMPDIR")}
    keep.update({"LD_PRELOAD": shim, "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1",
                 "LC_ALL": "C.UTF-8", "PYTHONPATH": VERIF, "PYTHONMALLOC": "pymalloc"})
    return keep


def python():
    """The interpreter that has the library's dependencies"""
    return "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


# --------------------------------------------------------------------------- worker

class Shm:
    """Lowest violating run index, shared between workers"""

    def __init__(self, path):
        self.file = open(path, "r+b")
        self.map = mmap.mmap(self.file.fileno(), 16)

    def best(self):
        return int.from_bytes(self.map[:8], "little")

    def offer(self, index):
        if os.environ.get("ARSIM_SURVEY"):
            return
        if index < self.best():
            self.map[:8] = index.to_bytes(8, "little")

    def stop(self):
        return self.map[8] != 0

    def set_stop(self):
        self.map[8] = 1


def worker(args):
    """Runs indices start, start+stride, ... and reports one JSON line per batch"""
    from . import core
    prop, seed, start, stride, total, tier, shm_path = args
    seed, start, stride, total = int(seed), int(start), int(stride), int(total)
    module = load_prop(prop)
    shared = core.Shared()
    core.gc_settle()
    shm = Shm(shm_path)
    stats = {"runs": 0, "faults": collections.Counter(), "probes": collections.Counter(), "shapes": set(), "steps": 0,
             "digests": [], "errors": [], "violations": []}

    def flush():
        out = dict(stats, shapes=sorted(stats["shapes"]))
        sys.stdout.buffer.write(json.dumps(out).encode() + b"\n")
        sys.stdout.buffer.flush()
        stats.update(runs=0, faults=collections.Counter(), probes=collections.Counter(), shapes=set(), steps=0,
                     digests=[], errors=[], violations=[])

    last = time.monotonic()
    try:
        for index in range(start, total, stride):
            if shm.stop() or index > shm.best():
                break
            plan = core.make_plan(module, seed, index, tier)
            status, value = core.execute(module, plan, shared)
            stats["runs"] += 1
            if status == "ok":
                stats["faults"].update(value["faults"])
                stats["probes"].update(value["probes"])
                stats["shapes"].update(value["shapes"])
                stats["steps"] += value["steps"]
                stats["digests"].append((index, value["digest"]))
            elif status == "violation":
                shm.offer(index)
                stats["violations"].append((index, value[0], value[1]))
            else:
                stats["errors"].append((index, status, str(value)[-1500:]))
            if time.monotonic() - last > 1.0:
                flush()
                last = time.monotonic()
    finally:
        flush()
        shared.close()


def spawn_workers(prop, seed, total, tier, shim, hashseed, shm_path, nproc):
    """Start worker processes over a fixed partition of the run indices"""
    procs = []
    for k in range(nproc):
        cmd = [python(), "-m", "arsim.run", "worker", prop, str(seed), str(k), str(nproc), str(total), tier, shm_path]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF,
                                      env=sim_env(shim, hashseed)))
    return procs


def explore(prop, seed, total, tier, shim, hashseed, nproc, cap):
    """All runs; merged statistics"""
    import threading
    fd, shm_path = tempfile.mkstemp(prefix="arsim-shm.")
    os.write(fd, NONE.to_bytes(8, "little") + bytes(8))
    os.close(fd)
    merged = {"runs": 0, "faults": collections.Counter(), "probes": collections.Counter(), "shapes": set(), "steps": 0,
              "digests": {}, "errors": [], "violations": [], "failed_workers": []}
    lock = threading.Lock()
    procs = spawn_workers(prop, seed, total, tier, shim, hashseed, shm_path, nproc)

    def reader(proc):
        for line in proc.stdout:
            rec = json.loads(line)
            with lock:
                merged["runs"] += rec["runs"]
                merged["faults"].update(rec["faults"])
                merged["probes"].update(rec["probes"])
                merged["shapes"].update(rec["shapes"])
                merged["steps"] += rec["steps"]
                merged["digests"].update({i: d for i, d in rec["digests"]})
                merged["errors"].extend(rec["errors"])
                merged["violations"].extend(rec["violations"])

    errs = {}

    def err_reader(proc):
        errs[proc] = proc.stderr.read()

    threads = [threading.Thread(target=f, args=(p,)) for p in procs for f in (reader, err_reader)]
    for thread in threads:
        thread.start()
    shm = Shm(shm_path)
    deadline = time.monotonic() + cap
    while any(p.poll() is None for p in procs):
        if time.monotonic() > deadline:
            shm.set_stop()
            if time.monotonic() > deadline + 330:
                for proc in procs:
                    proc.kill()
        time.sleep(0.02)
    for thread in threads:
        thread.join()
    for proc in procs:
        if proc.returncode:
            merged["failed_workers"].append(errs.get(proc, b"")[-1500:].decode("utf-8", "replace"))
    os.unlink(shm_path)
    return merged


# --------------------------------------------------------------------------- minimisation and replay

def frames(detail):
    """The library frames named in a violation's detail (keeps minimisation on the same failure)"""
    start = detail.rfind("[")
    return detail[start:] if detail.endswith("]") and ".py:" in detail[start:] else ""


def shrinker(args):
    """In a simulated process: minimise the plan in a replay file"""
    from . import core, shrink
    path, seconds = args[0], float(args[1])
    with open(path, encoding="utf-8") as handle:
        rec = json.load(handle)
    module = load_prop(rec["property"])
    shared = core.Shared()
    core.gc_settle()
    try:
        last = {}

        def fails(plan):
            status, value = core.execute(module, plan, shared, limit=10.0)
            if status == "violation" and value[0] == rec["kind"] and frames(value[1]) == frames(rec["detail"]):
                last["detail"] = value[1]
                return True
            return False

        start = json.loads(json.dumps(rec["plan"]))
        if rec["kind"] in ("no-progress", "process-died"):
            best, tries = start, 0
        elif hasattr(module, "shrink"):
            best, tries = module.shrink(start, fails, seconds)
        else:
            best, tries = shrink.shrink(start, fails, seconds)
        rec["plan"] = best
        rec["minimiser_tries"] = tries
        rec["detail"] = last.get("detail", rec["detail"])
        with open(path, "w", encoding="utf-8") as handle:
            json.dump(rec, handle, indent=1, ensure_ascii=True)
    finally:
        shared.close()


def replay_once(rec, shim):
    """Execute a replay record in a fresh process -> (status, value)"""
    proc = subprocess.run([python(), "-m", "arsim.run", "runplan"], input=json.dumps(rec).encode(), cwd=VERIF,
                          env=sim_env(shim, rec["hashseed"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          check=False, timeout=900)
    try:
        return json.loads(proc.stdout.splitlines()[-1])
    except (ValueError, IndexError):
        return ["error", proc.stderr.decode("utf-8", "replace")[-2000:]]


def runplan():
    """Simulated process: plan on stdin, result as JSON on stdout"""
    from . import core
    rec = json.load(sys.stdin)
    module = load_prop(rec["property"])
    shared = core.Shared()
    core.gc_settle()
    try:
        status, value = core.execute(module, rec["plan"], shared)
    finally:
        shared.close()
    print(json.dumps([status, value]))


def cmd_replay(args):
    """Replay a file: exit 1 and the VIOLATION line if it fails the same way"""
    with open(args[0], encoding="utf-8") as handle:
        rec = json.load(handle)
    print(f"replay property={rec['property']} seed={rec['seed']} run={rec['index']} kind={rec['kind']}")
    status, value = replay_once(rec, build_shim())
    if status == "violation":
        print(f"{value[0]}: {value[1]}")
        print(f"VIOLATION property={rec['property']} replay={os.path.abspath(args[0])}")
        return 1
    if status == "ok":
        print("the run passes on this tree")
        return 0
    print(status, value)
    return 2


# --------------------------------------------------------------------------- known findings

def known_findings(prop):
    """Findings recorded for a property"""
    path = os.path.join(VERIF, "known-findings.json")
    with open(path, encoding="utf-8") as handle:
        return [f for f in json.load(handle)["findings"] if f["property"] == prop]


def probe_findings(prop, shim, hashseed):
    """Run each finding's directed probe.  -> (lines, unexpected)"""
    lines, unexpected = [], []
    for finding in known_findings(prop):
        rec = {"property": prop, "seed": 0, "index": 0, "hashseed": hashseed, "kind": finding["kind"],
               "detail": "", "plan": finding["plan"]}
        status, value = replay_once(rec, shim)
        if status == "violation" and value[0] == finding["kind"] and finding["match"] in value[1]:
            lines.append(f"KNOWN-FINDING: property={prop} {finding['what']}")
        elif status == "violation":
            unexpected.append((rec, value))
        elif status == "ok":
            lines.append(f"note: known finding no longer fails: property={prop} {finding['what']}")
        else:
            raise RuntimeError(f"probe of known finding {finding['what']!r}: {status}: {value}")
    return lines, unexpected


# --------------------------------------------------------------------------- check

def cmd_check(args):
    """One property check"""
    prop = args[0]
    opts = dict(zip(args[1::2], args[2::2]))
    tier = opts.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opts.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    print(f"arsim property={prop} tier={tier} VERIF_SEED={seed}", flush=True)
    begin = time.monotonic()
    module = load_prop(prop)
    total = int(opts.get("--runs") or (module.QUICK if tier == "quick" else module.THOROUGH))
    nproc = int(opts.get("--jobs") or min(8, len(os.sched_getaffinity(0))))
    cap = float(opts.get("--cap") or (480 if tier == "quick" else 6 * 3600))
    hashseed = 1 + seed % 4294967290
    shim = build_shim()
    lines, unexpected = probe_findings(prop, shim, hashseed)
    merged = explore(prop, seed, total, tier, shim, hashseed, nproc, cap)
    wall_explore = time.monotonic() - begin
    code, violations = 0, 0
    merged["violations"].sort()
    found = None
    if merged["violations"]:
        index, kind, detail = merged["violations"][0]
        from . import core
        found = {"property": prop, "seed": seed, "index": index, "hashseed": hashseed, "kind": kind, "detail": detail,
                 "plan": core.make_plan(module, seed, index, tier)}
    elif unexpected:
        found, value = unexpected[0]
        found.update(kind=value[0], detail=value[1])
    determinism = None
    if found:
        violations = len(merged["violations"]) or 1
        code = report(found, shim, tier)
    else:
        if merged["errors"] or merged["failed_workers"]:
            for item in merged["errors"][:3]:
                print("ERROR run", item)
            for item in merged["failed_workers"][:3]:
                print("ERROR worker", item)
            code = 2
        elif merged["runs"] < total and merged["runs"] < total * 0.2:
            print(f"ERROR only {merged['runs']} of {total} runs finished within {cap:.0f} s")
            code = 2
        else:
            determinism = check_determinism(prop, seed, tier, shim, hashseed, merged, module)
            if determinism["different"]:
                print("ERROR nondeterministic runs", determinism)
                code = 2
    for line in lines:
        print(line)
    write_evidence(module, prop, tier, seed, merged, total, nproc, wall_explore, time.monotonic() - begin, violations,
                   determinism, lines)
    runs_h = merged["runs"] / max(wall_explore, 1e-6) * 3600
    print(f"runs={merged['runs']} distinct={len(merged['shapes'])} runs_per_hour={runs_h:.0f} "
          f"wall={time.monotonic() - begin:.1f}s exit={code}")
    return code


def report(found, shim, tier):
    """Minimise, verify in a fresh process, print the VIOLATION line"""
    outdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, f"{found['property']}-{found['seed']}-{found['index']}.json")
    original = json.loads(json.dumps(found))
    with open(path, "w", encoding="utf-8") as handle:
        json.dump(found, handle)
    seconds = 25 if tier == "quick" else 300
    subprocess.run([python(), "-m", "arsim.run", "shrinker", path, str(seconds)], cwd=VERIF, check=False,
                   env=sim_env(shim, found["hashseed"]), timeout=seconds + 400, stdout=subprocess.DEVNULL)
    with open(path, encoding="utf-8") as handle:
        rec = json.load(handle)
    status, value = replay_once(rec, shim)
    if status != "violation" or value[0] != found["kind"]:
        print("note: the minimised run did not replay, reporting the original", status)
        rec = original
        status, value = replay_once(rec, shim)
    if status == "violation":
        rec["kind"], rec["detail"] = value
    else:
        print(f"ERROR the violation did not replay in a fresh process: {status} {str(value)[:500]}")
        print("original:", original["kind"], original["detail"][:1000])
        return 2
    with open(path, "w", encoding="utf-8") as handle:
        json.dump(rec, handle, indent=1, ensure_ascii=True)
    print(f"violation kind={rec['kind']} seed={rec['seed']} run={rec['index']}")
    print(rec["detail"][:2000])
    print(f"VIOLATION property={rec['property']} replay={path}", flush=True)
    return 1


def check_determinism(prop, seed, tier, shim, hashseed, merged, module):
    """Re-run a sample of the runs in another process and compare their event logs"""
    indices = sorted(merged["digests"])
    rng = random.Random(seed)
    sample = sorted(rng.sample(indices, min(len(indices), getattr(module, "DETERMINISM_SAMPLE", 40))))
    proc = subprocess.run([python(), "-m", "arsim.run", "digest", prop, str(seed), tier] + [str(i) for i in sample],
                          cwd=VERIF, env=sim_env(shim, hashseed if getattr(module, "HASH_SENSITIVE", False)
                                                 else hashseed + 7), stdout=subprocess.PIPE, check=False,
                          timeout=900)
    out = json.loads(proc.stdout or b"{}")
    different = [i for i in sample if out.get(str(i)) != merged["digests"][i]]
    return {"sample": len(sample), "different": different,
            "how": "re-run in another process under another PYTHONHASHSEED, event-log digests compared"}


def cmd_digest(args):
    """Event-log digests of the given runs, as JSON"""
    from . import core
    prop, seed, tier = args[0], int(args[1]), args[2]
    module = load_prop(prop)
    shared = core.Shared()
    core.gc_settle()
    out = {}
    try:
        for arg in args[3:]:
            status, value = core.execute(module, core.make_plan(module, seed, int(arg), tier), shared)
            out[arg] = value["digest"] if status == "ok" else f"{status}:{value}"
            if core.KEEP_EVENTS and status == "ok":
                out[arg + ".events"] = value["events"]
    finally:
        shared.close()
    print(json.dumps(out))
    return 0


def cmd_survey(args):
    """Development: run everything, list the distinct violations"""
    os.environ["ARSIM_SURVEY"] = "1"
    prop, total = args[0], int(args[1])
    seed = int(args[2]) if len(args) > 2 else 1
    merged = explore(prop, seed, total, "quick", build_shim(), 1 + seed, min(8, os.cpu_count()), 3000)
    groups = collections.defaultdict(list)
    import re
    for index, kind, detail in sorted(merged["violations"]):
        groups[kind + " " + re.sub(r"\d+", "#", detail)[:90]].append((index, detail))
    for key, items in sorted(groups.items(), key=lambda kv: -len(kv[1]))[:40]:
        print(len(items), key, "\n     run", items[0][0], items[0][1][:400])
    for item in merged["errors"][:5] + merged["failed_workers"][:5]:
        print("ERROR", item)
    print("runs", merged["runs"], "violations", len(merged["violations"]), "errors", len(merged["errors"]),
          "distinct", len(merged["shapes"]), dict(merged["faults"]), dict(merged["probes"]))
    return 0


def write_evidence(module, prop, tier, seed, merged, total, nproc, wall_explore, wall, violations, determinism, lines):
    """evidence/<id>.json"""
    from . import core
    samples = []
    for index in sorted(merged["digests"])[:3]:
        text = json.dumps(core.make_plan(module, seed, index, tier))
        samples.append({"run": index, "plan": text if len(text) < 3000 else text[:3000] + "..."})
    if not samples:
        samples = [{"run": 0, "plan": json.dumps(core.make_plan(module, seed, 0, tier))[:3000]}]
    coverage = {
        "evaluations": merged["runs"],
        "distinct_nontrivial": len(merged["shapes"]),
        "rule": module.RULE,
        "samples": samples,
        "planned_runs": total,
        "runs_per_hour": round(merged["runs"] / max(wall_explore, 1e-6) * 3600),
        "worker_processes": nproc,
        "faults_injected": dict(sorted(merged["faults"].items())),
        "reach_probes": {name: merged["probes"].get(name, 0)
                         for name in sorted(set(getattr(module, "PROBES", [])) | set(merged["probes"]))},
        "logical_time_steps": merged["steps"],
        "simulated_time": "the library has no clock; logical time is counted in " +
                          getattr(module, "STEP_UNIT", "intercepted file operations"),
        "components": module.COMPONENTS,
        "determinism": determinism,
        "known_findings": lines,
    }
    evidence = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
                "level": getattr(module, "LEVEL", "exploration"), "coverage": coverage, "wall_s": round(wall, 2),
                "assumptions": getattr(module, "ASSUMPTIONS", []), "violations": violations}
    outdir = os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, f"{prop}.json")
    with open(path + ".part", "w", encoding="utf-8") as handle:
        json.dump(evidence, handle, indent=1)
    os.replace(path + ".part", path)


def main():
    """Command line"""
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "check":
        try:
            return cmd_check(args)
        except Exception:  # pylint: disable=broad-exception-caught
            traceback.print_exc()
            return 2
    if cmd == "replay":
        return cmd_replay(args)
    if cmd == "worker":
        return worker(args)
    if cmd == "shrinker":
        return shrinker(args)
    if cmd == "runplan":
        return runplan()
    if cmd == "survey":
        return cmd_survey(args)
    if cmd == "digest":
        return cmd_digest(args)
    if cmd == "setup":
        print(build_shim())
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main() or 0)
