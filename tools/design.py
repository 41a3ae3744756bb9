"""DESIGN.md = notes/design_head.md + one section per property + notes/design_tail.md"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
from design_notes import ORACLE
out = [open(ROOT + "/notes/design_head.md").read().rstrip(), "", "## Per property", ""]
kf = json.load(open(ROOT + "/known_findings.json"))["findings"]
seeds = {}
for s in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{s}/meta.json")); seeds.setdefault(m["property"], []).append((s, m["what_it_breaks"]))
try: caught = json.load(open(ROOT + "/notes/caught.json"))
except OSError: caught = {}
for p in props.PROPS:
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    fun = "; ".join(f"`{m['where']}`" for m in p["mechanism"])
    out += [f"* Encoded: {fun}.", f"* Symbolic: {p['qtext']}.", f"* Bounds: {p['note']}."]
    if i in ORACLE: out += [f"* Oracle: {ORACLE[i]}"]
    ev = f"{ROOT}/checks/{i}.py"
    if os.path.exists(ev):
        t = open(ev).read(); m = re.search(r"ASSUMPTIONS = \[(.*?)\n\]", t, re.S)
        try: m and eval("[" + m.group(1) + "]")
        except NameError: m = None
        if m: out += ["* Assumptions: " + "; ".join(eval("[" + m.group(1) + "]")) + "."]
    out += [f"* Why tests cannot: {p['why']}."]
    f = [x for x in kf if x["property"] == i]
    fx = [x for x in f if x["status"] == "fixed"]; kn = [x for x in f if x["status"] == "known"]
    if fx: out += [f"* Defects found and repaired ({len(fx)}): " + "; ".join(f"{x['id']} " + x["what"].split(" ", 3)[-1] for x in fx) + "."]
    if kn: out += ["* Known findings: " + "; ".join(f"{x['id']} {x['what']}" for x in kn) + "."]
    if i in seeds: out += ["* Planted changes: " + "; ".join(f"`{s}` ({w}) — {caught.get(s, 'not run yet')}" for s, w in seeds[i]) + "."]
    out += [""]
out += ["## Properties this family does not decide here", ""]
for n in getattr(props, "NOT_APPLICABLE", []): out += [f"* {n['property']}: {n['reason']}"]
if not getattr(props, "NOT_APPLICABLE", []): out += ["* none so far"]
out += ["", open(ROOT + "/notes/design_tail.md").read().rstrip(), ""]
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
