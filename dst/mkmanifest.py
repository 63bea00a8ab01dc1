"""Writes MANIFEST.json from the registered scenarios (development tool)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
NA = {
    "C26": "encoding and decoding one frame are pure functions of their arguments: no schedule, clock, I/O or "
           "second party takes part, so a simulator has nothing to decide beyond plain input generation",
    "C27": "injecting and extracting a span context are pure functions of their arguments: no schedule, clock, "
           "I/O or second party takes part, so a simulator has nothing to decide beyond plain input generation",
}
TECH = "deterministic simulation with fault injection (seeded schedule and fault search, replayable, minimised)"


def main():
    from dst import boot
    boot.boot()
    from dst.props import PROPS
    ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in PROPS:
            s = PROPS[i]
            checks.append({
                "property": i,
                "quick_cmd": "/opt/venv/bin/python -m dst.check %s" % i,
                "thorough_cmd": "/opt/venv/bin/python -m dst.check %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH,
                "level": "exploration",
                "level_note": s.note,
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is put under the unmodified sources by the simulator when it "
                    "loads them. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
