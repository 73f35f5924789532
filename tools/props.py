# Source of truth for properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both.
import json, os
P = []
def prop(id, title, statement, quant, why, files, mech, tech=None, note="", over=("inputs",), na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, over=list(over), na=na, state=state or [], observe=observe or []))

exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none (no hooks: every monitor observes public APIs)", "enable": "nothing to enable", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    elif os.path.exists(os.path.join(root, "harness/src/bin", p["id"].lower() + ".rs")) or os.path.exists(os.path.join(root, "ffi/src/bin", p["id"].lower() + ".rs")):
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "no check built yet (planned: runtime monitor)"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
