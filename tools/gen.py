import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
import props
TECH = "symbolic execution of the real functions (z3 decides every branch and obligation), counterexamples replayed"
NA = getattr(props, "NOT_APPLICABLE", [])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": p["mechanism"]}
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier={"over": p["over"], "text": p["qtext"]},
                 why_tests_cant=p["why"], anchors=a)
        f.write(json.dumps(d) + "\n")
have = {f[:-3] for f in os.listdir(os.path.join(ROOT, "checks"))}
na = {n["property"] for n in NA}
checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
               technique=TECH, level="model_checking",
               level_note="bounded: " + p["note"] + ". Within the bounds every feasible path is explored and each obligation decided by z3; "
               "files live in a byte-map stand-in and binary64 quotients of integers are idealised during the symbolic run, counterexamples are replayed on the real code.")
          for p in PROPS if p["id"] in have and p["id"] not in na]
for p in PROPS:
    if p["id"] not in have and p["id"] not in na:
        NA.append({"property": p["id"], "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(NA), "not applicable")
