#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, state=state, observe=observe))
NA = []
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check setup",
     "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check " + p["id"] + " -tier thorough",
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
                 "level_note": p["note"]} for p in P if p["id"] not in [n["property"] for n in NA]],
     "not_applicable": NA,
     "notes": "No hooks in /repo: scheduling points, virtual clocks and file-system call recording are inserted at build time into overlay copies of the current working tree (go build -overlay)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties")
