"""Runs the harnesses of one property, replays candidates, writes evidence."""

import importlib.util
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get("SYMEX_PY", "/opt/venv/bin/python")


def load_check(prop):
    p = os.path.join(VERIF, "checks", f"{prop}.py")
    spec = importlib.util.spec_from_file_location(f"check_{prop}", p)
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    return m


def child_env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.setdefault("SETUPTOOLS_SCM_PRETEND_VERSION", "0.15.dev0")
    e["MPLBACKEND"] = "agg"
    e["PYTHONHASHSEED"] = "0"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS"):
        e[k] = "1"
    e["PYTHONPATH"] = VERIF + os.pathsep + os.environ.get("SYMEX_REPO", "/repo")
    return e


class Worker:
    """a long-lived child process answering one JSON request per line"""

    def __init__(self, kind, prop, extra_env=None):
        e = child_env()
        e.update(extra_env or {})
        self.kind = kind
        self.crashed = False
        self.p = subprocess.Popen(
            [PY, "-m", "symex.worker", kind, prop],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL if not os.environ.get("SYMEX_DEBUG") else None,
            env=e,
            cwd=VERIF,
            text=True,
        )

    def ask(self, req, timeout):
        import threading

        out = {}

        def rd():
            while True:
                line = self.p.stdout.readline()
                if not line:
                    break
                if line.startswith("@@"):
                    out["r"] = json.loads(line[2:])
                    break

        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return None
        t = threading.Thread(target=rd, daemon=True)
        t.start()
        t.join(timeout)
        if "r" not in out:
            try:
                self.p.wait(1)
            except subprocess.TimeoutExpired:
                pass
            rc = self.p.poll()
            self.crashed = rc is not None and rc < 0
            self.kill()
            return None
        return out["r"]

    def alive(self):
        return self.p.poll() is None

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.kill()


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("SYMEX_ONLY")
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    # the list of harnesses is asked of a worker, so that a broken import of
    # /repo is seen in one place
    w = Worker("list", prop)
    info = w.ask({"tier": tier}, 300)
    w.close()
    evid_dir = os.environ.get("SYMEX_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evid_dir, "replay"), exist_ok=True)
    if info is None or "error" in info:
        # the code under test cannot be imported at all: every harness fails
        print(f"[{prop}] cannot list harnesses: {None if info is None else info['error']}")
        sys.exit(2)
    hs = info["harnesses"]
    if only:
        hs = [h for h in hs if only in h["name"]]
    nproc = min(int(os.environ.get("SYMEX_JOBS", "8")), max(1, len(hs)))
    order = sorted(range(len(hs)), key=lambda i: -hs[i]["budget"])
    results = [None] * len(hs)
    import queue

    q = queue.Queue()
    for i in order:
        q.put(i)
    hard_stop = t0 + info.get("wall", 600)

    def loop(_):
        wk = None
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            left = hard_stop - time.time()
            if left < 5:
                results[i] = {"skipped": "wall budget"}
                continue
            if wk is None or not wk.alive():
                wk = Worker("sym", prop)
            b = min(hs[i]["budget"], left)
            r = wk.ask({"i": i if not only else hs[i]["index"], "tier": tier, "budget": b}, b + 90)
            if r is None:
                results[i] = {"skipped": "worker died or overran"}
                wk = None
            else:
                results[i] = r
                if r.get("candidates") and os.environ.get("SYMEX_FAILFAST"):
                    # development aid: the first finding is enough
                    while not q.empty():
                        try:
                            q.get_nowait()
                        except queue.Empty:
                            pass
        if wk is not None:
            wk.close()

    with ThreadPoolExecutor(nproc) as ex:
        list(ex.map(loop, range(nproc)))

    # replay candidates, unsupported-path probes and path witnesses
    jobs = []
    for i, r in enumerate(results):
        if not r or "skipped" in r:
            continue
        for kind in ("candidates", "probe", "samples"):
            for c in r.get(kind, []):
                vals = c["values"] if kind != "samples" else c
                jobs.append({"h": i, "i": hs[i]["index"], "kind": kind, "values": vals,
                             "msg": c.get("msg") if kind != "samples" else "witness"})
    jq = queue.Queue()
    for j in jobs:
        jq.put(j)

    def rloop(_):
        wk = None
        while True:
            try:
                j = jq.get_nowait()
            except queue.Empty:
                break
            if time.time() > hard_stop + 120:
                j["out"] = None
                continue
            if wk is None or not wk.alive():
                wk = Worker("replay", prop)
            j["out"] = wk.ask({"i": j["i"], "tier": tier, "values": j["values"]}, 120)
            if j["out"] is None:
                if wk.crashed:
                    j["out"] = {"status": "refuted", "msg": "the interpreter crashed on this input"}
                else:
                    j["out"] = {"status": "no-answer", "msg": "replay timed out"}
                wk = None
        if wk is not None:
            wk.close()

    with ThreadPoolExecutor(min(8, max(1, len(jobs)))) as ex:
        list(ex.map(rloop, range(min(8, max(1, len(jobs))))))

    violations, spurious, mismatch, errors = [], [], [], []
    replays_ok = 0
    for j in jobs:
        o = j.get("out")
        if o is None:
            continue
        name = hs[j["h"]]["name"]
        if o["status"] == "refuted":
            violations.append((name, j, o))
        elif o["status"] == "no-answer":
            # the real code crashed the interpreter or hung on this input
            if o.get("crash", True) and j["kind"] == "candidates":
                spurious.append({"harness": name, "candidate": j["msg"], "replay": "no answer"})
            else:
                errors.append({"harness": name, "replay": "no answer"})
        elif o["status"] == "error":
            errors.append({"harness": name, "error": o.get("msg")})
        else:
            if j["kind"] == "candidates":
                spurious.append({"harness": name, "candidate": j["msg"], "values": _short(j["values"])})
            else:
                replays_ok += 1

    for f in os.listdir(os.path.join(evid_dir, "replay")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(evid_dir, "replay", f))
    known = load_known(prop)
    seen, printed = set(), 0
    real_viol = 0
    for name, j, o in violations:
        key = (name, o["msg"])
        if key in seen:
            continue
        seen.add(key)
        real_viol += 1
        rp = os.path.join(evid_dir, "replay", f"{prop}-{printed}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "harness": name, "index": hs[j["h"]]["index"], "params": hs[j["h"]]["params"], "tier": tier,
                       "message": o["msg"], "found_as": j["kind"], "values": j["values"],
                       "replay_cmd": f"./check {prop} --replay {rp}"}, f, indent=1)
        if printed < 20:
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"   harness {name}: {o['msg']}")
        printed += 1
    for k in info.get("known", []):
        if k.get("still_fails"):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    tot = lambda key: sum((r or {}).get(key, 0) or 0 for r in results if r and "skipped" not in r)
    per = []
    for h, r in zip(hs, results):
        d = {"harness": h["name"], "functions": h.get("functions"), "bounds": h.get("bounds")}
        if not r:
            d["status"] = "not run"
        elif "skipped" in r:
            d["status"] = r["skipped"]
        else:
            for k in ("paths", "obligations", "discharged", "exhausted", "queries", "solver_s", "wall_s",
                      "unknown", "truncated_forks", "ended", "unsupported", "covers", "undecided", "exceptions"):
                if r.get(k) not in (None, {}, [], 0) or k in ("exhausted", "obligations"):
                    d[k] = r.get(k)
        per.append(d)
    vac = []
    for h, r in zip(hs, results):
        if r and "skipped" not in r:
            if not r["obligations"]:
                vac.append(h["name"])
            for c in h.get("covers", []):
                if c not in r["covers"]:
                    vac.append(f"{h['name']}: {c}")
    cov = {
        "states": tot("paths"),
        "transitions": tot("decisions"),
        "traces_validated_against_impl": replays_ok,
        "samples": [
            {"harness": hs[j["h"]]["name"], "input": _short(j["values"]), "replay": j["out"]["status"]}
            for j in [j for j in jobs if j.get("out")][:4]
        ],
        "harnesses": len(hs),
        "obligations_generated": tot("obligations"),
        "obligations_discharged": tot("discharged"),
        "solver_queries": tot("queries"),
        "solver_seconds": round(tot("solver_s"), 2),
        "solver_unknown": tot("unknown"),
        "harnesses_exhausted": sum(1 for r in results if r and r.get("exhausted")),
        "vacuous": vac,
        "spurious_candidates": spurious,
        "replay_errors": errors[:20],
        "engine_versions": info.get("versions"),
        "detail": per,
        "explanation": "Symbolic execution of the real functions of /repo; states = feasible paths explored, "
        "transitions = symbolic branch decisions taken, traces_validated_against_impl = solver models of "
        "explored paths replayed on the unpatched code with the same verdict.",
    }
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": real_viol,
    }
    with open(os.path.join(evid_dir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"[{prop}] harnesses={len(hs)} exhausted={cov['harnesses_exhausted']} paths={cov['states']} "
        f"obligations={cov['obligations_generated']}/{cov['obligations_discharged']} queries={cov['solver_queries']} "
        f"solver={cov['solver_seconds']}s spurious={len(spurious)} replays={replays_ok} vacuous={len(vac)} "
        f"unsupported={sum(len((r or {}).get('unsupported') or {}) for r in results)} wall={ev['wall_s']}s violations={real_viol}"
    )
    if os.environ.get("SYMEX_VERBOSE"):
        for d in per:
            d = dict(d)
            d.pop("functions"), d.pop("bounds")
            if d.get("exhausted") and set(d["ended"]) == {"complete"}:
                print("  ", d["harness"], d["paths"], d["obligations"], d.get("queries"), d["wall_s"])
            else:
                print("  ", json.dumps(d)[:1500])
        print("vacuous", vac)
        print(json.dumps(spurious)[:3000])
        print(json.dumps(errors)[:3000])
    sys.exit(1 if real_viol else 0)


def _short(v):
    return dict(list(v.items())[:40])


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


if __name__ == "__main__":
    main(sys.argv[1])
