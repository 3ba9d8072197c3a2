#!/usr/bin/env python3
"""Developer tool: regenerates properties.jsonl and MANIFEST.json from the table below (only properties that have a harness)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), note=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None), note=note))
exec(open(os.path.join(HERE, "tools", "table.py")).read())
have = {os.path.basename(d) for d in glob.glob(HERE + "/harness/C*")}
with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        if p["id"] in have:
            f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
checks = []
for p in P:
    if p["id"] not in have: continue
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough", evidence_file=f"evidence/{i}.json",
        technique="bounded exhaustive stateless model checking of the real code: every operation history / input in stated bounds, compared with a reference model",
        level="model_checking", level_note="Exhaustive within the bounds printed per group in the evidence; trusts the reference models in harness/" + i + (" and " + p["note"] if p["note"] else "") + ", g++-10 and AddressSanitizer."))
json.dump(dict(version=1, setup_cmd="python3 run.py --selftest", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the harnesses use the public API only. Randomness is controlled by macro substitution of std::random_device / std::mt19937 inside the harness translation units."), open(HERE + "/MANIFEST.json", "w"), indent=1)
missing = have - {p["id"] for p in P}
print(len(checks), "claimed; harness without table row:", sorted(missing))
