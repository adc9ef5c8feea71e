"""C11: identical work gives byte-identical files in every process environment"""
import ctypes
import json
import os
import pickle
import subprocess

from .. import jobs, run as runner
from ..core import Invalid, Violation
from .c09 import difference

PROPERTY = "C11"
QUICK = 150
THOROUGH = 8000
DETERMINISM_SAMPLE = 8
RULE = ("a run performs 2-5 programs (building and writing documents, document sets and type headers, reading, configurations, "
        "builder and template histories) in 3-4 processes that differ in hash seed, locale, preferred encoding, time zone, "
        "wall clock, random numbers, process id, user, working directory, relative or absolute paths, optimisation mode, "
        "memory layout, garbage collection, existing files and order of the programs; all files, texts and models must be "
        "equal; distinct = different (kinds of jobs, environment settings)")
COMPONENTS = {"real": ["autosar (all modules)", "CPython interpreter started anew per environment", "lxml/libxml2", "file system"],
              "simulated": ["wall clock, system randomness and process id (simio)", "address space layout (fixed, varied by ballast)",
                            "process environment, command line options and working directory"],
              "oracle": ["the other processes of the run"]}
ASSUMPTIONS = ["only the locales C, POSIX and C.UTF-8 are installed in this sandbox"]
STEP_UNIT = "processes started"
PROBES = ["ASCII preferred encoding", "optimised", "relative paths", "older files present", "other order of programs",
          "files compared", "models compared"]
HASHSEEDS = ["0", "1", "2", "42", "31337", "4294967295", "random"]


def generate(rng, profile):
    kinds = ["text", "out", "out", "out", "out", "read", "read", "config", "C12", "C13", "C14", "C15"]
    programs = []
    for _ in range(rng.choice([3, 4, 6, 8])):
        programs.append([jobs.random_job(rng, rng.choice(kinds), proper=True) for _ in range(rng.choice([1, 1, 2]))])
    if rng.random() < 0.5:
        programs.append(json.loads(json.dumps(rng.choice(programs))))
    envs = [{"hashseed": "0"}]
    for _ in range(rng.choice([2, 3])):
        envs.append({"hashseed": str(rng.randrange(1 << 32)) if rng.random() < 0.7 else rng.choice(HASHSEEDS[:-1]),
                     "locale": rng.choice(["C", "C", "POSIX", "C.UTF-8", "de_DE.ISO-8859-1", ""]),
                     "utf8": rng.choice(["0", "0", "1", None]),
                     "tz": rng.choice(["UTC", "Asia/Tokyo", "America/St_Johns", "XXX-14:59"]),
                     "clock": rng.choice([0, 951782400, 1700000000, 4102444799, 2147483647, rng.randrange(1 << 32)]),
                     "random": rng.randrange(1 << 60), "pid": rng.randrange(2, 1 << 22), "user": rng.choice(["root", "x", "Jos\u00e9"]),
                     "cwd": rng.choice(["scratch", "own", "/"]), "relative": rng.random() < 0.4,
                     "opt": rng.choice([None, None, "-O", "-OO"]), "dev": rng.random() < 0.1, "ballast": rng.choice([0, 1, 777, 50000]),
                     "malloc": rng.choice(["pymalloc", "malloc"]), "gc": rng.choice([None, "off", "often"]),
                     "prefill": rng.random() < 0.4, "shuffle": rng.randrange(1 << 30) if rng.random() < 0.5 else None})
    return {"programs": programs, "envs": envs}


def order_of(env, count):
    """Order of the programs in an environment"""
    import random
    order = list(range(count))
    if env.get("shuffle") is not None:
        random.Random(env["shuffle"]).shuffle(order)
    return order


def start(number, env_plan, plan, env):
    """Run all programs in one environment -> results"""
    disk = env.disk
    base = disk.path(f"e{number}")
    where = os.path.join(base, "arsim-scratch-of-programs")
    os.makedirs(where)
    plan_file, result_file = os.path.join(base, "plan.json"), os.path.join(base, "result")
    with open(plan_file, "w", encoding="utf-8") as handle:
        json.dump({"programs": plan["programs"], "order": order_of(env_plan, len(plan["programs"])), "env": env_plan}, handle)
    environ = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": runner.VERIF, "PYTHONDONTWRITEBYTECODE": "1",
               "LD_PRELOAD": os.environ["LD_PRELOAD"], "PYTHONHASHSEED": env_plan["hashseed"], "HOME": base,
               "PYTHONMALLOC": env_plan.get("malloc", "pymalloc"), "TZ": env_plan.get("tz", "UTC"),
               "USER": env_plan.get("user", "root"), "LOGNAME": env_plan.get("user", "root"), "LANG": env_plan.get("locale") or "C",
               "SIMIO_CLOCK": str(env_plan.get("clock", 1000000000)), "SIMIO_RANDOM": str(env_plan.get("random", 1)),
               "SIMIO_PID": str(env_plan.get("pid", 4711))}
    environ.update({k: v for k, v in os.environ.items() if k.startswith("ARSIM_")})
    if env_plan.get("locale"):
        environ["LC_ALL"] = env_plan["locale"]
    if env_plan.get("utf8") is not None:
        environ["PYTHONUTF8"] = env_plan["utf8"]
    cmd = [runner.python()]
    if env_plan.get("opt"):
        cmd.append(env_plan["opt"])
    if env_plan.get("dev"):
        cmd += ["-X", "dev"]
    cmd += ["-m", "arsim.envwork", plan_file, result_file, where]
    cwd = {"scratch": base, "own": where, "/": "/"}[env_plan.get("cwd", "scratch")]
    proc = subprocess.run(cmd, cwd=cwd, env=environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False, timeout=120,
                          preexec_fn=fixed_layout)
    env.steps += 1
    if proc.returncode:
        raise Violation("process-failed", f"environment {env_plan}: exit {proc.returncode}: "
                        f"{jobs.scrub(proc.stdout[-600:].decode('utf-8', 'replace')).replace(base, '<dir>')}")
    with open(result_file, "rb") as handle:
        return pickle.load(handle)


def fixed_layout():
    """Same addresses in every execution of this plan, where the system allows it"""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except (OSError, AttributeError):
        pass


def run(plan, env):
    if not plan["envs"] or any(not isinstance(e.get("hashseed"), str) for e in plan["envs"]):
        raise Invalid("environment")
    for program in plan["programs"]:
        for job in program:
            jobs.check(job)
    results = []
    for number, env_plan in enumerate(plan["envs"]):
        results.append(start(number, env_plan, plan, env))
        for name, value in env_plan.items():
            if value not in (None, False) and number:
                env.fault(f"environment: {name}")
        if env_plan.get("utf8") == "0" and env_plan.get("locale") in ("C", "POSIX"):
            env.probe("ASCII preferred encoding")
        for key, name in (("opt", "optimised"), ("relative", "relative paths"), ("prefill", "older files present")):
            if env_plan.get(key):
                env.probe(name)
        if env_plan.get("shuffle") is not None:
            env.probe("other order of programs")
    for number, other in enumerate(results[1:], 1):
        for p, (program, first, second) in enumerate(zip(plan["programs"], results[0], other)):
            for k, (job, alone, here) in enumerate(zip(program, first, second)):
                if alone != here:
                    raise Violation("environment-dependent", f"program {p} job {k} ({job['job']}"
                                    f"{'/' + job['op']['op'] if 'op' in job else ''}): {difference(alone, here)}; "
                                    f"environment {number}: {json.dumps(plan['envs'][number])}")
    for program in plan["programs"]:
        for job in program:
            env.probe("files compared" if job["job"] == "out" else "models compared" if job["job"] == "read" else job["job"] + " compared")
    env.shape([[j["job"] for j in p] for p in plan["programs"]], [sorted(map(str, e.items())) for e in plan["envs"]])
    env.log(json.dumps([jobs.scrub(repr(r)) for r in results]))
