"""A process of C11: does the jobs of a plan in the environment it was started in.

    python -m arsim.envwork PLAN RESULT DIRECTORY
"""
import gc
import json
import os
import pickle
import sys

OLD = b"<!-- an older file -->\n" * 3000
PREFILL = ["a.arxml", "b.arxml", "c.arxml", "doc0.arxml", "doc1.arxml", "Platform0.arxml", "Platform1.arxml", "out0.arxml",
           "out1.arxml", "a b0.arxml", "Rte_Type.h", "Rte.h", "notes.txt", "T0.arxml"]


def tidy(value, where):
    """A result without this process's directory and without files that were there before"""
    if isinstance(value, str):
        for name in where:
            value = value.replace(name, "<dir>")
        return value
    if isinstance(value, dict):
        return {k: tidy(v, where) for k, v in value.items() if not (isinstance(v, bytes) and v == OLD)}
    if isinstance(value, (list, tuple)):
        return [tidy(v, where) for v in value]
    return value


def main():
    """Perform all programs"""
    plan_file, result_file, where = sys.argv[1:4]
    with open(plan_file, encoding="utf-8") as handle:
        plan = json.load(handle)
    env = plan["env"]
    if env.get("relative"):
        where = os.path.relpath(where) if os.getcwd() != where else os.path.join("..", os.path.basename(where))
    ballast = [object() for _ in range(env.get("ballast", 0))]
    if env.get("gc") == "off":
        gc.disable()
    elif env.get("gc") == "often":
        gc.set_threshold(20, 2, 2)
    from . import jobs, lib
    mod = lib.load()
    jobs.WORDING = False
    names = sorted({where, os.path.abspath(where)}, key=len, reverse=True)
    results = [None] * len(plan["programs"])
    router = jobs.Router()
    with router.installed():
        for number in plan["order"]:
            done = []
            for k, job in enumerate(plan["programs"][number]):
                here = os.path.join(where, f"p{number}", f"j{k}")
                if env.get("prefill") and not job.get("nodir"):
                    os.makedirs(os.path.join(here, "out"))
                    for name in PREFILL:
                        with open(os.path.join(here, "out", name), "wb") as handle:
                            handle.write(OLD)
                done.append(tidy(jobs.perform(job, mod, here, router), names))
            results[number] = done
    del ballast
    with open(result_file, "wb") as handle:
        pickle.dump(results, handle)


if __name__ == "__main__":
    main()
