"""Development aid: confirm planted bugs and keep them under seeded/.
usage: seed.py SPECFILE [id ...]    (SPECFILE defines SEEDS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks)])
"""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMEX_REPO", "/repo")
WT = "/tmp/seedwt"
PYX = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        sh(f"rm -rf {WT}; cp -a {REPO} {WT}")
        for path, old, new in s["edits"]:
            p = f"{WT}/{path}"
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {WT} diff").stdout
        d = f"{ROOT}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport SETUPTOOLS_SCM_PRETEND_VERSION=0.15.dev0 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        env = dict(os.environ)
        r0 = sh(f"bash {d}/demo.sh", cwd=REPO, env=dict(env, PYTHONPATH=REPO))
        r1 = sh(f"bash {d}/demo.sh", cwd=WT, env=dict(env, PYTHONPATH=WT))
        c = sh(f"./check {s['prop']}", cwd=ROOT, env=dict(env, SYMEX_REPO=WT))
        v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION") or l.startswith("   harness")]
        msg = f"{s['id']}: demo clean={r0.returncode} bug={r1.returncode} check={c.returncode} {v[1] if len(v) > 1 else ''}"
        if r0.returncode:
            msg += r0.stderr[-300:]
        if "-t" in sys.argv:
            mods = s.get("tests") or "rsciio/tests"
            sh(f"rm -f /tmp/seed.xml; . /opt/vp/env.sh; cd {WT}; PYTHONPATH=/opt/vp/plugins NUMBA_CACHE_DIR=/tmp/seednumba {PYX} -m pytest -q -p vp_missing_data -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 6 --dist loadfile --ignore=rsciio/tests/test_edax.py --ignore=rsciio/tests/test_usid.py -o junit_family=xunit2 --basetemp=/tmp/seedbase --junitxml=/tmp/seed.xml {mods}", executable="/bin/bash")
            bad = []
            for tc in ET.parse("/tmp/seed.xml").iter("testcase"):
                if tc.find("failure") is not None or tc.find("error") is not None:
                    n = tc.get("classname") + "::" + tc.get("name")
                    if base is None or any(n.endswith(x) or x.endswith(n) or n == x for x in base):
                        bad.append(n)
            msg += f" tests_broken={len(bad)} {bad[:2]}"
        print(msg, flush=True)
    sh(f"rm -rf {WT} /tmp/seedbase /tmp/seednumba")


main()
