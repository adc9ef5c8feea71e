#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and stores it under seeded/.

usage: plant.py SPEC.py [...]   (a spec defines PROPERTY, NEEDS, BREAKS, EDITS, DEMO)

The change has to touch lines of the original repository, build, pass the
existing tests, and its demonstration has to exit 0 without and non-zero with
the change.  Nothing is ever changed in /repo itself.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
BASE = "1600e04"


def run(args, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    env.update(kw.pop("env", {}))
    return subprocess.run(args, cwd=cwd, capture_output=True, text=True, env=env, **kw)


def plant(spec_path: str) -> bool:
    name = os.path.splitext(os.path.basename(spec_path))[0]
    spec = runpy.run_path(spec_path)
    copy = f"/tmp/plant-{name}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        for rel, old, new in spec["EDITS"]:
            path = os.path.join(copy, "src/autosar", rel)
            with open(path, encoding="utf-8") as handle:
                text = handle.read()
            if text.count(old) != 1:
                print(name, "edit matches", text.count(old), "times in", rel, repr(old[:60]))
                return False
            with open(path, "w", encoding="utf-8") as handle:
                handle.write(text.replace(old, new))
        diff = run(["git", "diff", "--no-color"], copy).stdout
        # which removed lines are original
        original = own = 0
        path = None
        for line in run(["git", "diff", "-U0", "--no-color"], copy).stdout.splitlines():
            if line.startswith("--- a/"):
                path = line[6:]
            elif line.startswith("@@"):
                spec_range = line.split()[1][1:]
                start, _, count = spec_range.partition(",")
                count = int(count) if count else 1
                if count:
                    blame = run(["git", "blame", "-s", "-L", f"{start},+{count}", "HEAD", "--", path], copy).stdout
                    for b in blame.splitlines():
                        if b.lstrip("^").startswith(BASE[:7]):
                            original += 1
                        else:
                            own += 1
        if original == 0 or own > 0:
            print(name, f"removes {original} original and {own} own lines")
            if original == 0:
                return False
        tests = run([PYTHON, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], copy,
                    env={"PYTHONPATH": f"{copy}/src"})
        if tests.returncode:
            print(name, "tests fail:", tests.stdout[-600:])
            return False
        target = os.path.join(HERE, "seeded", name)
        shutil.rmtree(target, ignore_errors=True)
        os.makedirs(target)
        with open(f"{target}/patch.diff", "w", encoding="utf-8") as handle:
            handle.write(diff)
        with open(f"{target}/demo.py", "w", encoding="utf-8") as handle:
            handle.write("import os\nimport sys\nimport tempfile\n\n"
                         "sys.dont_write_bytecode = True\n"
                         "sys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n\n"
                         + spec["DEMO"].strip() + "\n")
        with open(f"{target}/demo.sh", "w", encoding="utf-8") as handle:
            handle.write("#!/bin/sh\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(f"{target}/demo.sh", 0o755)
        with open(f"{target}/meta.json", "w", encoding="utf-8") as handle:
            json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                      handle, indent=1)
            handle.write("\n")
        good = run(["sh", f"{target}/demo.sh"], "/repo", timeout=300)
        bad = run(["sh", f"{target}/demo.sh"], copy, timeout=300)
        if good.returncode != 0 or bad.returncode == 0:
            print(name, "demo: unchanged", good.returncode, good.stdout[-300:], good.stderr[-600:],
                  "patched", bad.returncode, bad.stdout[-300:])
            shutil.rmtree(target)
            return False
        check = run(["git", "apply", "--check", f"{target}/patch.diff"], "/repo")
        if check.returncode:
            print(name, "does not apply", check.stderr)
            return False
        print(name, spec["PROPERTY"], "confirmed:", (bad.stdout + bad.stderr).strip().splitlines()[-1:])
        return True
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main() -> int:
    results = [plant(path) for path in sys.argv[1:]]
    return 0 if all(results) else 1


if __name__ == "__main__":
    sys.exit(main())
