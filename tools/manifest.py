"""Writes MANIFEST.json from properties.jsonl and the check modules present."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}


def note(pid):
    path = os.path.join(VERIF, "hv", "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        return None
    return open(path).readline().strip().strip('"')


def main():
    props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, absent = [], []
    for p in props:
        pid = p["id"]
        if note(pid) is None:
            absent.append({"property": pid, "reason": "check not built yet"})
            continue
        cmd = f"/opt/venv/bin/python run.py {pid}"
        checks.append(
            {
                "property": pid,
                "quick_cmd": cmd,
                "thorough_cmd": cmd,
                "evidence_file": f"evidence/{pid}.json",
                "technique": "property-based testing with Hypothesis: generated cases, independent oracles, shrinking",
                "level": "exploration",
                "level_note": "finite random sample of the generated input space described in DESIGN.md; the evidence file counts cases and non-trivial cases per facet",
            }
        )
    doc = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python run.py --setup",
        "checks": checks,
        "not_applicable": absent,
        "notes": "Hypothesis is vendored in /verif/vendor. No hooks in /repo: the checks use the public interface only.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
