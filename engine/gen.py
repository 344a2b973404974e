#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/props.py (the single source of both)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import props, specs
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"]}}) + "\n")
checks = []
for p in props.PROPS:
    if p["id"] not in specs.SPECS:
        continue
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 engine/run.py %s --tier quick" % i,
                   "thorough_cmd": "python3 engine/run.py %s --tier thorough" % i,
                   "technique": "property-based testing: " + p["how"], "level": specs.SPECS[i]["level"],
                   "level_note": p["level_note"], "evidence_file": "evidence/%s.json" % i})
json.dump({"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": checks,
           "not_applicable": props.NOT_APPLICABLE, "notes": props.NOTES},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(props.PROPS), "properties,", len(checks), "checks")

# the per-property part, the fixes and the limits in DESIGN.md come from the same sources
d = os.path.join(VERIF, "DESIGN.md")
t = open(d).read()
def section(name, body):
    global t
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = t.find(a), t.find(b)
    if i >= 0 and j > i:
        t = t[:i] + a + "\n" + body + "\n" + t[j:]
body = []
for p in props.PROPS:
    s = specs.SPECS.get(p["id"])
    body.append("### %s: %s\n" % (p["id"], p["title"]))
    body.append("* Why tests cannot settle it: %s" % p["why"])
    body.append("* Generated, and decided against: %s." % p["how"].rstrip("."))
    if s:
        body.append("* Cases: %s" % s["rule"])
        body.append("* Instruction sets: quick %s; thorough %s%s." % (
            ", ".join(s["archs"]), ", ".join(s.get("archs_thorough", s["archs"])),
            ". Sanitizers: " + s["sanitize"] if s.get("sanitize") else ""))
    body.append("* %s\n" % p["level_note"])
section("properties", "\n".join(body))
k = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
section("findings", "\n".join("* `%s` (%s) %s" % (x["text"].split()[2] if x["status"] == "fixed" else x["id"],
                                                  x["property"] + (", fixed" if x["status"] == "fixed" else ", recorded"), x["what"]) for x in k))
open(d, "w").write(t)
