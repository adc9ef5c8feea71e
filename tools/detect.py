#!/usr/bin/env python3
"""Runs checks against planted bugs in scratch copies of /repo.

usage: detect.py [--all-checks] [--tier quick|thorough] [BUG ...]   (default: every bug of seeded/)
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main() -> int:
    args = sys.argv[1:]
    every = "--all-checks" in args
    args = [a for a in args if a != "--all-checks"]
    bugs = args or sorted(os.listdir(f"{HERE}/seeded"))
    ids = [json.loads(line)["id"] for line in open(f"{HERE}/properties.jsonl")]
    missed = 0
    for bug in bugs:
        folder = f"{HERE}/seeded/{bug}"
        meta = json.load(open(f"{folder}/meta.json"))
        copy = f"/tmp/detect-{bug}"
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        try:
            subprocess.run(["git", "apply", f"{folder}/patch.diff"], cwd=copy, check=True)
            for pid in ids if every else [meta["property"]]:
                start = time.time()
                done = subprocess.run([f"{HERE}/check", pid], cwd=HERE, capture_output=True, text=True,
                                      env=dict(os.environ, ARSIM_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
                hit = [line for line in done.stdout.splitlines() if line.startswith("VIOLATION")]
                ok = done.returncode == 1 and hit
                if not every or ok or done.returncode not in (0, 1):
                    print(bug, pid, "CAUGHT" if ok else f"MISSED rc={done.returncode}", f"{time.time() - start:.0f}s",
                          flush=True)
                    if ok and not every:
                        where = done.stdout.splitlines().index(hit[0])
                        print("   ", "\n    ".join(l[:300] for l in done.stdout.splitlines()[max(0, where - 3):where]))
                if not ok and not every:
                    missed += 1
                    print("   ", (done.stdout + done.stderr)[-400:])
        finally:
            shutil.rmtree(copy, ignore_errors=True)
    return 1 if missed else 0


if __name__ == "__main__":
    sys.exit(main())
