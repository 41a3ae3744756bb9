"""Child process: 'list', 'sym' (symbolic exploration) or 'replay' (real code)."""

import atexit
import json
import os
import shutil
import sys
import tempfile
import traceback
import warnings

OUT = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)


def say(obj):
    OUT.write("@@" + json.dumps(obj, default=str) + "\n")
    OUT.flush()


def main():
    kind, prop = sys.argv[1:3]
    tmp = tempfile.mkdtemp(prefix="symexw-")
    atexit.register(shutil.rmtree, tmp, True)
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(tmp, "numba")
    os.environ["HOME"] = tmp
    tempfile.tempdir = tmp
    warnings.simplefilter("always" if os.environ.get("SYMEX_WARN") else "ignore")
    import logging

    logging.disable(logging.CRITICAL)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.setrecursionlimit(20000)
    from symex import env, runner

    env.SCRATCH = os.path.join(tmp, "scratch")
    os.makedirs(env.SCRATCH)
    try:
        import dask

        dask.config.set(scheduler="synchronous")
    except Exception:
        pass
    if kind == "sym":
        from symex import hook

        hook.install()
        from symex import h5

        h5.install()
        h5.install_dask()
        import resource

        lim = int(os.environ.get("SYMEX_MEM_GB", "3")) << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim + (4 << 30), lim + (4 << 30)))
    try:
        chk = runner.load_check(prop)
        if kind == "sym" and getattr(chk, "ZARR", False):
            from symex import zr

            zr.install()
        if getattr(chk, "PYX", False):
            from symex import pyx

            pyx.install(kind == "sym")
    except BaseException as e:
        say({"error": f"{type(e).__name__}: {e}"})
        return
    for line in sys.stdin:
        req = json.loads(line)
        tier = req.get("tier", "quick")
        hs = chk.harnesses(tier)
        if kind == "list":
            import numpy
            import z3

            known = []
            for k in runner.load_known(prop):
                k = dict(k)
                if k.get("status") == "known":
                    k["still_fails"] = known_still_fails(chk, k)
                    known.append(k)
            say(
                {
                    "harnesses": [
                        {
                            "index": i,
                            "name": h.name,
                            "budget": h.budget,
                            "params": str(h.params),
                            "functions": h.functions,
                            "bounds": h.bounds,
                            "covers": h.covers,
                        }
                        for i, h in enumerate(hs)
                    ],
                    "assumptions": getattr(chk, "ASSUMPTIONS", []),
                    "wall": getattr(chk, "WALL", {"quick": 420, "thorough": 3600}).get(tier, 420),
                    "versions": {"z3": z3.get_version_string(), "numpy": numpy.__version__, "python": sys.version.split()[0]},
                    "known": known,
                }
            )
            continue
        h = hs[req["i"]]
        if kind == "sym":
            try:
                r = env.explore(h.fn, h.params, budget_s=req.get("budget", h.budget), reset=h.reset)
                for k in ("candidates", "samples", "probe"):
                    r[k] = r[k][:30]
            except BaseException as e:
                traceback.print_exc()
                r = {"skipped": f"engine error {type(e).__name__}: {e}"}
            say(r)
        elif kind == "replay":
            try:
                st, msg, _ = env.run_concrete(h.fn, h.params, req["values"])
                say({"status": st, "msg": msg})
            except BaseException as e:
                traceback.print_exc()
                say({"status": "error", "msg": f"{type(e).__name__}: {e}"})


def known_still_fails(chk, k):
    from symex import env

    fn = getattr(chk, "KNOWN", {}).get(k["id"])
    if fn is None:
        return False
    st, msg, _ = env.run_concrete(fn, {}, {})
    return st == "refuted"


if __name__ == "__main__":
    main()
