#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=list(observe), technique=technique, note=note))
C="crates/ass-core/"; E="crates/ass-editor/"; R="crates/ass-renderer/src/"
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
    technique=p["technique"], level="exploration", level_note=p["note"]) for p in P if p["technique"]]
man = dict(version=1, setup_cmd="bash run.sh build",
    hooks=dict(guard="none", enable="no hooks are needed: every monitor observes through the public API", source_commits=[]),
    checks=checks, not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if not p["technique"]] + NA,
    notes=NOTES)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties", len(checks), "checks")

# DESIGN.md = head + per-property part + tail
head = open(os.path.join(ROOT, "tools", "design_head.md")).read()
body = open(os.path.join(ROOT, "tools", "design_props.md")).read()
tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
rows = []
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    c = os.path.join(ROOT, "tools", "caught.txt")
    caught = dict(l.split(None, 1) for l in open(c).read().splitlines() if l.strip())
    rows.append(f"| {d}: {m['what_it_breaks']} | {m['property']} | {caught.get(d, 'not run').strip()} |")
tail = tail.replace("SEEDED", chr(10).join(rows))
for p in P:
    assert f"### {p['id']} " in body, p["id"]
open(os.path.join(ROOT, "DESIGN.md"), "w").write(head + body + tail)
