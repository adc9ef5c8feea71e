#!/usr/bin/env python3
"""Executes the same runs in several configurations of the harness and compares the digests of their event logs.

usage: determinism.py [RUNS] [SEED] [ID ...]

Configurations: one process after another in order; in reverse order under another hash seed; scattered over 8 processes
under a third hash seed.  Prints one line per property; exits 1 if a digest differs.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from arsim import run as arsim_run          # noqa: E402  pylint: disable=wrong-import-position


def start(prop, seed, indexes, hashseed):
    env = arsim_run.sim_env(arsim_run.build_shim(), hashseed)
    return subprocess.Popen([arsim_run.python(), "-m", "arsim.run", "digest", prop, str(seed), "quick"] + [str(i) for i in indexes],
                            cwd=HERE, stdout=subprocess.PIPE, text=True, env=env)


def results(procs):
    out = {}
    for proc in procs:
        text, _ = proc.communicate()
        out.update(json.loads(text.splitlines()[-1]))
    return out


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    ids = sys.argv[3:] or [json.loads(line)["id"] for line in open(f"{HERE}/properties.jsonl", encoding="utf-8")]
    bad = 0
    for prop in ids:
        count = max(4, runs // 20) if prop == "C11" else runs
        order = list(range(count))
        a = results([start(prop, seed, order, 0)])
        b = results([start(prop, seed, order[::-1], 12345)])
        c = results([start(prop, seed, order[k::8], 777 + k) for k in range(8)])
        diff = [i for i in a if not a[i] == b.get(i) == c.get(i)]
        bad += len(diff)
        print(prop, f"{count} runs x 3 configurations, {len(set(a.values()))} different digests, {len(diff)} differ", diff[:5], flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
