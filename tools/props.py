"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = "the unit tests run two parties over the real transport with whatever interleaving the machine produces"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level="exploration", note="", technique=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                 "observe_at": observe, "hook_needed": None},
        _level=level, _note=note, _tech=technique))


exec(open(os.path.join(VERIF, "tools", "props_data.py")).read())

NA = NOT_APPLICABLE  # noqa: F821

if __name__ == "__main__":
    claimed = [p for p in P if os.path.exists(os.path.join(VERIF, "sim", "checks", p["id"] + ".py"))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in claimed + [q for q in P if q["id"] in NA]:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash /verif/setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
            "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["_tech"] or "deterministic simulation: seeded search over schedules and faults of the real multi-party code",
            "level": p["_level"],
            "level_note": p["_note"],
        } for p in claimed],
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "No hooks were needed in /repo: every seam is an environment variable, a module the code imports (torch.distributed, os, time, threading, queue, multiprocessing) or a public API. Commits in /repo are fix: commits only.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("claimed:", " ".join(p["id"] for p in claimed))
    print("not built:", " ".join(p["id"] for p in P if p not in claimed and p["id"] not in NA))
