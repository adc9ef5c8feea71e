"""C09: independent objects used from different threads do not disturb each other"""
from .. import canon, jobs, sched
from ..core import Invalid, Skip, Violation

PROPERTY = "C09"
QUICK = 2600
THOROUGH = 120000
RULE = ("a run starts 2-4 threads, each doing 1-3 jobs on objects of its own (serialising, writing files and document sets, "
        "reading intact and damaged documents, loading configurations, type headers, histories of package-tree, template and "
        "behaviour-builder calls) under a planned schedule that switches threads at chosen lines or instructions of library "
        "code; every result, error and diagnostic is compared with the same jobs done alone in a separate process; distinct = "
        "different (kinds of jobs per thread, sequence of switch locations)")
COMPONENTS = {"real": ["autosar (all modules)", "CPython threads", "lxml/libxml2", "file system below the scratch directory"],
              "simulated": ["thread scheduling (one thread runs at a time; switches by plan)", "threading.Lock/RLock waiting"],
              "oracle": ["the same jobs done by one thread in a separate process"]}
ASSUMPTIONS = ["threads switch between bytecode instructions of library code only (never inside C calls)"]
STEP_UNIT = "library lines or instructions executed under the scheduler"
PROBES = ["same kind of job in all threads", "identical jobs", "job failed", "more than 100 switches", "switches inside a line",
          "switch at first visit of a location", "three or more threads"]


def generate(rng, profile):
    threads = rng.choice([2, 2, 2, 3, 3, 4])
    roll = rng.random()
    if roll < 0.5:
        kind = rng.choice(jobs.KINDS)
        work = [[jobs.random_job(rng, kind) for _ in range(rng.choice([1, 1, 2]))] for _ in range(threads)]
    elif roll < 0.65:
        mine = [jobs.random_job(rng, rng.choice(jobs.KINDS))]
        work = [mine for _ in range(threads)]
    else:
        work = [[jobs.random_job(rng, rng.choice(jobs.KINDS)) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(threads)]
    return {"threads": work, "schedule": sched.random_schedule(rng, threads)}


def thread_body(work, number, mod, disk, router):
    """What one thread does, as a function"""
    def body():
        return [jobs.perform(job, mod, disk.path(f"t{number}", f"j{k}"), router) for k, job in enumerate(work)]
    return body


def run(plan, env):
    schedule, disk = plan["schedule"], env.disk
    if not plan["threads"] or schedule.get("event", "line") not in sched.EVENTS:
        raise Invalid("threads")
    for work in plan["threads"]:
        for job in work:
            jobs.check(job)
    wants, total = [], 0
    for number, work in enumerate(plan["threads"]):
        def alone(n=number, w=work):
            router = jobs.Router()
            with router.installed():
                return sched.count(thread_body(w, n, env.mod, disk, router), schedule.get("event", "line"))
        disk.wipe()
        want, steps = env.isolated(alone)
        wants.append(want)
        total += steps
    disk.wipe()
    scheduler = sched.Scheduler(schedule, total)
    router = jobs.Router()
    bodies = [thread_body(w, n, env.mod, disk, router) for n, w in enumerate(plan["threads"])]
    try:
        with router.installed():
            results = scheduler.run(bodies, schedule.get("first", 0))
    except sched.Blocked as exc:
        raise Skip(f"not schedulable: {exc}") from exc
    env.steps += scheduler.clock
    env.fault("thread switch", scheduler.switches)
    count_probes(plan, wants, scheduler, env)
    env.shape([[j["job"] for j in w] for w in plan["threads"]], [t.split(":", 1)[1] for t in scheduler.trace[:60]])
    env.log(total, scheduler.clock, scheduler.switches, " ".join(scheduler.trace))
    switching = f"{scheduler.switches} switches, last {scheduler.trace[-3:]}"
    for number, (want, (status, got)) in enumerate(zip(wants, results)):
        if status == "deadlock":
            raise Violation("deadlock", f"thread {number} of {len(wants)} never finishes: {switching}")
        if status == "error":
            raise RuntimeError(f"harness: thread {number}") from got
        for k, (alone_, together) in enumerate(zip(want, got)):
            if alone_ != together:
                kind = plan["threads"][number][k]["job"]
                raise Violation("threads-interfere", f"thread {number} job {k} ({kind}): {difference(alone_, together)}; {switching}")


def difference(a, b):
    """Where two results differ, alone / with other threads"""
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if isinstance(x, (dict, list)) and isinstance(y, (dict, list)):
                found = canon.diff(x, y)
                if found:
                    return f"part {i}{found[0]}: alone {str(found[1])[:300]!r}, here {str(found[2])[:300]!r}"
            return f"part {i}: alone {shorten(x, y)}, here {shorten(y, x)}"
    return f"{len(a)} / {len(b)} parts"


def shorten(text, other):
    """The part of a text that differs from another one"""
    text, other = str(text), str(other)
    at = next((k for k, (x, y) in enumerate(zip(text, other)) if x != y), min(len(text), len(other)))
    return repr(text[max(0, at - 60):at + 200])


def count_probes(plan, wants, scheduler, env):
    """Reached conditions"""
    kinds = {j["job"] for w in plan["threads"] for j in w}
    if len(kinds) == 1:
        env.probe("same kind of job in all threads")
    if len(plan["threads"]) > 1 and all(w == plan["threads"][0] for w in plan["threads"]):
        env.probe("identical jobs")
    if len(plan["threads"]) > 2:
        env.probe("three or more threads")
    if any(isinstance(part, str) and ("Error" in part or "Exception" in part) for want in wants for res in want for part in res[:2]):
        env.probe("job failed")
    if scheduler.switches > 100:
        env.probe("more than 100 switches")
    if plan["schedule"].get("event") == "instruction" and scheduler.switches:
        env.probe("switches inside a line")
    if scheduler.fresh and scheduler.switches:
        env.probe("switch at first visit of a location")
