#!/opt/venv/bin/python
"""Random small mutants of one source file, run against the checks given: which survive?

mutate.py FILE N SEED C01 C02 ...   (prints one line per mutant; copies live in /tmp/mm)
A mutant that no listed check reports is printed as SURVIVED with the changed line: it is
either equivalent, outside every property, or a gap.
"""
import ast
import os
import random
import shutil
import subprocess
import sys

REPO = "/repo"
FN, N, SEED, CHECKS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
src = open(os.path.join(REPO, FN)).read()
lines = src.split("\n")
off = [0]
for ln in lines:
    off.append(off[-1] + len(ln.encode()) + 1)
raw = src.encode()


def span(n):
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def text(n):
    a, b = span(n)
    return raw[a:b].decode()


SWAP = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "nanargmin": "nanargmax", "log10": "log", "zeros_like": "ones_like",
        "ones_like": "zeros_like", "zeros": "ones", "ones": "zeros", "maximum": "minimum", "minimum": "maximum", "nanmin": "nanmax",
        "sum": "mean", "mean": "sum", "any": "all", "all": "any", "cumsum": "cumprod"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
sites = []
tree = ast.parse(src)
skip = set()
for n in ast.walk(tree):
    if isinstance(n, ast.Call):
        f = text(n.func)
        if "add_argument" in f or f == "print" or f.endswith("Error") or "plt." in f or "ax" in f.split(".")[0]:
            for c in ast.walk(n):
                skip.add(id(c))
    if isinstance(n, ast.Assert):
        for c in ast.walk(n):
            skip.add(id(c))
for n in ast.walk(tree):
    if id(n) in skip or not hasattr(n, "lineno"):
        continue
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        v = n.value
        outs = [repr(v + 1), repr(v - 1)] if isinstance(v, int) else [repr(v * 1.1 if v else 0.1), repr(v + 1.0), repr(-v if v else 1.0)]
        for o in outs:
            sites.append((*span(n), o if not o.startswith("-") else f"({o})", "const"))
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        sites.append((*span(n), repr(not n.value), "bool"))
    elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
        a, b = span(n.left)[1], span(n.right)[0]
        mid = raw[a:b].decode()
        sym = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**", "BitAnd": "&", "BitOr": "|", "FloorDiv": "//"}[type(n.op).__name__]
        if mid.count(sym) == 1:
            sites.append((a, b, mid.replace(sym, OPS[type(n.op)]), "op"))
        sites.append((*span(n), text(n.left), "left"))
        if not isinstance(n.op, (ast.Sub, ast.Div)):
            sites.append((*span(n), text(n.right), "right"))
    elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        a, b = span(n.left)[1], span(n.comparators[0])[0]
        sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}[type(n.ops[0]).__name__]
        mid = raw[a:b].decode()
        sites.append((a, b, mid.replace(sym, CMP[type(n.ops[0])]), "cmp"))
    elif isinstance(n, ast.Attribute) and n.attr in SWAP:
        a, b = span(n)
        sites.append((a, b, text(n)[:-len(n.attr)] + SWAP[n.attr], "fn"))
    elif isinstance(n, ast.Call):
        ar = n.args
        for i in range(len(ar) - 1):
            if not any(isinstance(x, ast.Starred) for x in ar[i:i + 2]) and text(ar[i]) != text(ar[i + 1]):
                a, b = span(ar[i])[0], span(ar[i + 1])[1]
                mid = raw[span(ar[i])[1]:span(ar[i + 1])[0]].decode()
                sites.append((a, b, text(ar[i + 1]) + mid + text(ar[i]), "argswap"))
        if len(ar) == 1 and isinstance(n.func, ast.Attribute):
            sites.append((*span(n), text(ar[0]), "unwrap"))
        for k in n.keywords:
            if k.arg and not isinstance(k.value, ast.Constant):
                pass
    elif isinstance(n, ast.AugAssign):
        sites.append((*span(n), "pass", "drop"))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
        sites.append((*span(n), "(" + text(n.operand) + ")", "unary"))
    elif isinstance(n, ast.Continue) or isinstance(n, ast.Break):
        sites.append((*span(n), "pass", "flow"))
    elif isinstance(n, ast.If):
        sites.append((*span(n.test), "True", "cond"))
        sites.append((*span(n.test), "False", "cond"))
    elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(getattr(n, "ctx", None), ast.Load) and 1 < len(n.elts) < 20:
        for i in range(len(n.elts) - 1):
            e = n.elts
            if not any(isinstance(x, ast.Starred) for x in e[i:i + 2]) and text(e[i]) != text(e[i + 1]):
                mid = raw[span(e[i])[1]:span(e[i + 1])[0]].decode()
                sites.append((span(e[i])[0], span(e[i + 1])[1], text(e[i + 1]) + mid + text(e[i]), "eltswap"))
rng = random.Random(SEED)
rng.shuffle(sites)
done = 0
seen = set()
for a, b, new, kind in sites:
    if done >= N:
        break
    ln = raw[:a].count(b"\n")
    mut = (raw[:a] + new.encode() + raw[b:]).decode()
    if mut == src or (ln, kind) in seen:
        continue
    seen.add((ln, kind))
    try:
        compile(mut, FN, "exec")
    except SyntaxError:
        continue
    done += 1
    d = f"/tmp/mm/{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f"git -C {REPO} archive HEAD | tar -x -C {d}", shell=True, check=True)
    open(os.path.join(d, FN), "w").write(mut)
    caught = None
    for c in CHECKS:
        try:
            r = subprocess.run(["nice", "-n", "10", "./run.py", c], cwd=os.environ.get("MVERIF", "/verif"), env=dict(os.environ, VERIF_REPO=d),
                               capture_output=True, text=True, timeout=600)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = 124, ""
        if rc != 0:
            caught = f"{c} rc={rc}" + ("" if "VIOLATION" in out else " NO-VIOLATION-LINE")
            break
    old = raw[a:b].decode()
    print(f"{'caught ' + caught if caught else 'SURVIVED'} | {FN}:{ln + 1} {kind}: {old!r} -> {new!r}   [{lines[ln].strip()[:100]}]", flush=True)
    shutil.rmtree(d, ignore_errors=True)
