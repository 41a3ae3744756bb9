"""Development aid: random small changes to a property's source files; lists those its check does not notice.
usage: mutate.py PROP [-n N] [-j JOBS] [-s SEED] [-f file] [-k function-substring]
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
import props
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("-n", type=int, default=40); ap.add_argument("-j", type=int, default=4)
ap.add_argument("-s", type=int, default=0); ap.add_argument("-f"); ap.add_argument("-k", default=""); ap.add_argument("-t", type=int, default=400)
a = ap.parse_args()
REPO = os.environ.get("SYMEX_REPO", "/repo")
P = {p["id"]: p for p in props.PROPS}[a.prop]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//"}
SWAP = [("x", "y"), ("width", "height"), ("0", "1"), ("first", "last"), ("scale", "offset"), ("scales", "offsets"), ("start", "stop"), ("min", "max"), ("row", "col"), ("nx", "ny"), ("NX", "NY")]
SW = {}
for p, q in SWAP: SW[p] = q; SW[q] = p


def seg(lines, n):
    return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)


def muts(path, src):
    tree = ast.parse(src); out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef,)) or a.k not in fn.name: continue
        doc = ast.get_docstring(fn)
        for n in ast.walk(fn):
            t = None
            if not hasattr(n, "lineno"): continue
            s = ast.get_source_segment(src, n)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                t = f"({ast.unparse(n.left)} {CMP[type(n.ops[0])]} {ast.unparse(n.comparators[0])})"
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) :
                if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant): continue
                t = f"({ast.unparse(n.left)} {BIN[type(n.op)]} {ast.unparse(n.right)})"
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                t = str(n.value + 1)
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                t = str(not n.value)
            elif isinstance(n, ast.Constant) and type(n.value) is float:
                t = repr(n.value * 2 + 1)
            elif isinstance(n, ast.Constant) and type(n.value) is str and n.value in SW:
                t = repr(SW[n.value])
            elif isinstance(n, ast.Constant) and type(n.value) is str and n.value != doc and 1 <= len(n.value) < 40 and n.col_offset:
                v = n.value
                if v[0] in "<>": t = repr({"<": ">", ">": "<"}[v[0]] + v[1:])
                else: t = repr(v + "_")
                if random.random() < .5: t = None
            elif isinstance(n, ast.Name) and n.id in SW and isinstance(n.ctx, ast.Load):
                t = SW[n.id]
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                t = f"bool({ast.unparse(n.operand)})"
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                t = f"({ast.unparse(n.operand)})"
            elif isinstance(n, ast.BoolOp):
                o = " or " if isinstance(n.op, ast.And) else " and "
                t = "(" + o.join(f"({ast.unparse(v)})" for v in n.values) + ")"
            elif isinstance(n, ast.IfExp):
                t = f"({ast.unparse(n.orelse)})"
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and random.random() < .3:
                t = "pass" if isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], (ast.Name, ast.Tuple)) else None
            elif isinstance(n, ast.If) and random.random() < .5:
                n = n.test; s = ast.get_source_segment(src, n); t = "False"
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and random.random() < .5:
                t = "pass"
            if t is None or s is None or t == s: continue
            line = src.split("\n")[n.lineno - 1]
            if "_logger" in line or "raise" in line or "warn" in line: continue
            out.append((path, fn.name, seg(None, n), s, t))
    return out


random.seed(a.s)
files = [a.f] if a.f else [f for f in P["files"] if f.endswith(".py")]
allm = []
for f in files:
    src = open(f"{REPO}/{f}").read()
    seen = {}
    for m in muts(f, src): seen[(m[2], m[4])] = m
    allm += list(seen.values())
random.shuffle(allm)
print(len(allm), "candidates", flush=True)
q = queue.Queue()
for m in allm[: a.n]: q.put(m)
lock = threading.Lock(); stat = {}


def apply(src, pos, t):
    L = src.split("\n"); l0, c0, l1, c1 = pos
    enc = lambda s, c: len(s.encode()[:c].decode())
    pre = L[l0 - 1][: enc(L[l0 - 1], c0)]; post = L[l1 - 1][enc(L[l1 - 1], c1):]
    return "\n".join(L[: l0 - 1] + [pre + t + post] + L[l1:])


def loop(k):
    wt = f"/tmp/mut/{a.prop}-{k}"
    shutil.rmtree(wt, ignore_errors=True); os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["cp", "-a", REPO, wt])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        path, fn, pos, s, t = m
        src = open(f"{wt}/{path}").read()
        new = apply(src, pos, t)
        try: compile(new, path, "exec")
        except SyntaxError: continue
        open(f"{wt}/{path}", "w").write(new)
        e = dict(os.environ, SYMEX_REPO=wt, SYMEX_FAILFAST="1", SYMEX_JOBS="2", SYMEX_EVIDENCE=f"/tmp/mut/ev-{a.prop}-{k}")
        try:
            r = subprocess.run(["./check", a.prop], cwd=ROOT, env=e, capture_output=True, text=True, timeout=a.t); rc = r.returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        open(f"{wt}/{path}", "w").write(src)
        with lock:
            stat[rc] = stat.get(rc, 0) + 1
            if rc != 1:
                print(f"rc={rc} {path}:{pos[0]} {fn}: {s[:100]!r} -> {t[:100]!r}", flush=True)
    shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(f"/tmp/mut/ev-{a.prop}-{k}", ignore_errors=True)


th = [threading.Thread(target=loop, args=(k,)) for k in range(a.j)]
[t.start() for t in th]; [t.join() for t in th]
print(a.prop, stat)
