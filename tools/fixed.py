"""Development aid: apply a repair to /repo as one commit and record it."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ["SYMEX_REPO"]


def record(pid, h, what):
    p = os.path.join(ROOT, "known_findings.json")
    d = json.load(open(p))
    n = 1 + max([int(f["id"][1:]) for f in d["findings"]] or [0])
    d["findings"].append(dict(id=f"F{n:02d}", property=pid, status="fixed", what=f"fixed: property={pid} {h} {what}"))
    with open(p, "w") as f:
        f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in d["findings"]) + "\n]}\n")


def fix(pid, path, pairs, msg, what):
    p = REPO + "/" + path
    s = open(p).read()
    for a, b in pairs:
        assert s.count(a) == 1, (s.count(a), a)
        s = s.replace(a, b)
    open(p, "w").write(s)
    subprocess.check_call(["git", "-C", REPO, "commit", "-qam", "fix: " + msg])
    h = subprocess.check_output(["git", "-C", REPO, "rev-parse", "--short", "HEAD"], text=True).strip()
    record(pid, h, what)
    print(h, msg)
