#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/properties.py and the jobs in props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + "/tools"]
from properties import PROPERTIES, NOT_APPLICABLE
from props import PROPS
from oracles import ORACLE, CAUGHT

with open(HERE + "/properties.jsonl", "w") as f:
    for p in PROPERTIES:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p.get("over", ["inputs"]), text=p["forall"]), why_tests_cant=p["why"],
                 anchors=dict(files=["sources/" + x for x in p["files"]], mechanism=[dict(name=n, where="sources/" + w) for n, w in p["mech"]]))
        if "observe" in p:
            d["anchors"]["observe_at"] = p["observe"]
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")

NOTE = ("Every path of the real headers, compiled to LLVM IR from the current tree, is executed symbolically within the stated bounds and each assertion is decided by the simplifier or Z3; "
        "counterexamples are only reported when the natively compiled code (ASan, UBSan) fails on them as well. Trusted: the engine's model of the libstdc++ pieces listed in DESIGN.md (cross-checked by replaying sampled paths natively), clang's IR generation, Z3. Bounds: ")
checks = []
for p in PROPERTIES:
    if p["id"] in PROPS:
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                           technique="bounded symbolic execution of the LLVM IR of the real headers, decided by Z3 (bit-vectors, floating point)", level="model_checking", level_note=NOTE + PROPS[p["id"]]["bounds"] + "."))
missing = [p["id"] for p in PROPERTIES if p["id"] not in PROPS and p["id"] not in [n["property"] for n in NOT_APPLICABLE]]
extra = [i for i in PROPS if i not in [p["id"] for p in PROPERTIES]]
if missing or extra:
    print("properties without check:", missing, "checks without property:", extra)
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=NOT_APPLICABLE,
               notes="No hooks: the harnesses in harness/ use the public interface of the headers in /repo/sources."), open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(PROPERTIES), "properties")

# DESIGN.md
k = json.load(open(HERE + "/known_findings.json"))
seeds = []
for d in sorted(os.listdir(HERE + "/seeded")) if os.path.isdir(HERE + "/seeded") else []:
    m = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    seeds.append(f"| {d} | {m['property']} | {m['needs']} | {CAUGHT.get(d, 'caught')} |")
t = open(HERE + "/tools/DESIGN.in.md").read()
table = ["| | Property | Decided against | Bounds |", "|---|---|---|---|"]
for p in PROPERTIES:
    q = PROPS[p["id"]]
    table.append(f"| {p['id']} | {p['title']} | {ORACLE[p['id']]} | {q['bounds']}" + (f"; outside: {q['outside']}" if q.get("outside") else "") + " |")
for a, b in dict(count=str(len(PROPERTIES)), table="\n".join(table), fixed="\n".join("- " + e["entry"] for e in k if e["status"] == "fixed"), nseeds=str(len(seeds)),
                 open="\n".join(f"- {e['property']} {e['id']}: {e['what']}" for e in k if e["status"] == "open"), seeds="\n".join(["| change | property | needs | result |", "|---|---|---|---|"] + seeds)).items():
    t = t.replace("{{" + a + "}}", b)
open(HERE + "/DESIGN.md", "w").write(t)
