"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NOTES = json.load(open(os.path.join(HERE, "notes.json"), encoding="utf-8"))


def main():
    checks, na = [], []
    for line in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8"):
        pid = json.loads(line)["id"]
        if pid in NOTES["not_applicable"]:
            na.append({"property": pid, "reason": NOTES["not_applicable"][pid]})
        elif os.path.exists(os.path.join(VERIF, "arsim", "props", pid.lower() + ".py")):
            note = NOTES["checks"][pid]
            checks.append({"property": pid, "quick_cmd": f"./check {pid} --tier quick",
                           "thorough_cmd": f"./check {pid} --tier thorough", "evidence_file": f"evidence/{pid}.json",
                           "technique": note["technique"], "level": "exploration", "level_note": note["note"]})
        else:
            na.append({"property": pid, "reason": "check not built yet (work in progress); applicable in principle, see DESIGN.md"})
    out = {"version": 1, "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -m arsim.run setup",
           "checks": checks, "not_applicable": na, "notes": NOTES["notes"]}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as handle:
        json.dump(out, handle, indent=1, ensure_ascii=True)
        handle.write("\n")


main()
