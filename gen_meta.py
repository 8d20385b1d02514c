#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one description of the properties below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, thorough=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, thorough=thorough))


def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech, None, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "meta_props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}},
                           ensure_ascii=False) + "\n")
checks = []
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["technique"] is None:
        continue
    d = {"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"]}
    if p["thorough"]:
        d["thorough_cmd"] = "python3 check.py %s thorough" % p["id"]
    d.update(technique=p["technique"], level="other", level_note=p["note"])
    checks.append(d)
m = {"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks, "not_applicable": NA,
     "notes": "Every check rebuilds the MIR facts of /repo's current tree with the rustc driver in driver/ and decides from them; nothing of the "
              "library is executed. /repo carries no hooks, only fix: commits."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(NA), "not applicable")

# DESIGN.md: hand-written head and tail, per-property section generated from the same description
with open(os.path.join(HERE, "design_head.md")) as f:
    head = f.read()
with open(os.path.join(HERE, "design_tail.md")) as f:
    tail = f.read()
out = [head, "## Properties\n"]
for p in sorted(PROPS, key=lambda p: p["id"]):
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    if p["technique"] is None:
        out.append("Not applicable: %s\n" % [x["reason"] for x in NA if x["property"] == p["id"]][0])
    else:
        out.append("*Decided by* %s. *Quantifies over* %s. *Why tests cannot:* %s\n" % (p["technique"], p["quant"], p["why"]))
        if p["id"] in DESIGN:
            out.append(DESIGN[p["id"]].strip() + "\n")
        out.append("*Assurance:* %s\n" % p["note"].strip())
import glob
rows = ["## Planted bugs\n", "Each folder of `seeded/` is a change that compiles, passes the stable tests and breaks a property in a situation the tests do not reach.\n",
        "| change | breaks | needs | result |", "|---|---|---|---|"]
rec = json.load(open(os.path.join(HERE, "seeded.json")))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m_ = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, m_["what_it_breaks"], m_["needs"], ", ".join("%s by %s" % (v, k) for k, v in sorted(rec.get(i, {}).items())) or "not run"))
out.append("\n".join(rows) + "\n")
out.append(tail)
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
