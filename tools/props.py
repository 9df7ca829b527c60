"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note, state=state or []))


def pkg(*names):
    return [f"openptv_python/{n}.py" for n in names]


from propdefs import define  # noqa: E402

define(P, pkg)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        assert len([s for s in p["statement"].replace("e.g.", "eg").split(". ") if s.strip()]) <= 3, p["id"]

with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks were added to /repo: every monitor observes at public calls and files",
                  "source_commits": []},
        "checks": [{
            "property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"./run.sh {p['id']} --thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": [],
        "notes": "Runtime monitoring: see DESIGN.md. --thorough sets the tier whatever VERIF_TIER says.",
    }, f, indent=1)
print(len(PROPS), "properties")
