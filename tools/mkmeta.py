#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = "/verif"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, level="exploration", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, observe=observe))

SIM = "deterministic simulation: the real threads run on an interposed libc (scheduler, clock, file system, inotify, pipes, processes), seeded schedules and faults, minimised replay"

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
for n in NA:
    with open(V + "/properties.jsonl", "a") as f:
        f.write(json.dumps({"id": n["id"], "title": n["title"], "statement": n["statement"], "quantifier": {"over": n["over"], "text": n["text"]}, "why_tests_cant": n["why"], "anchors": {"files": n["files"], "mechanism": [{"name": a, "where": b} for a, b in n["mech"]]}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/build.sh && (bash /verif/typed.sh build >/dev/null || true)", "hooks": {"guard": "none", "enable": "no hooks: the seam is the C library, interposed when the harness is linked", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/check.sh {p['id']} quick", "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": SIM, "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
     "notes": "Replay a reported violation with: bash /verif/check.sh replay <file> -v. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), ps)
print(len(P), "checks,", len(NA), "not applicable")
