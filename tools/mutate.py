"""Mutates a file of coinflip in many small ways, and runs checks on each mutant until one sees it.

usage: python3 tools/mutate.py FILE CHECK,CHECK,... [--sample K] [--seed N] [--log PATH] [--lines A-B]
FILE is relative to /repo/src/coinflip. Mutants which no check sees are written out as diffs."""
import argparse
import ast
import difflib
import os
import random
import shutil
import subprocess
import tempfile
import time

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
       ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
CMPS = {"<": ["<=", ">"], "<=": ["<", "=="], ">": [">=", "<"], ">=": [">", "=="], "==": ["!=", "<="],
        "!=": ["=="], "is": ["is not"], "is not": ["is"], "in": ["not in"], "not in": ["in"]}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}
BINS = {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "//": ["/"], "%": ["//"], "**": ["*"],
        "&": ["|"], "|": ["&"], "^": ["|"]}
NAMES = {"floor": "ceil", "ceil": "floor", "min": "max", "max": "min", "any": "all", "all": "any",
         "sum": "max", "abs": "", "sqrt": "", "log": "log2", "log2": "log", "gammaincc": "gammainc",
         "erfc": "erf", "sorted": "list", "iter": "list", "append": "count", "round": "int"}


def mutants(src):
    lines = src.split("\n")
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()) + 1)
    raw = src.encode()

    def at(line, col):
        return starts[line - 1] + col

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)

    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body \
                and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    anns = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                anns.update(ast.walk(a))
    out = []

    def put(a, b, new, what):
        out.append((a, b, new, what))

    def between(a, b, old, news):
        seg = raw[a:b].decode()
        i = seg.find(old)
        if i >= 0:
            for new in news:
                put(a + len(seg[:i].encode()), a + len(seg[:i].encode()) + len(old), new, f"{old} -> {new}")

    for n in ast.walk(tree):
        if n in anns or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            between(span(n.left)[1], span(n.comparators[0])[0], op, CMPS[op])
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            op = BIN[type(n.op)]
            between(span(n.left)[1], span(n.right)[0], op, BINS[op])
        elif isinstance(n, ast.BoolOp):
            op = "and" if isinstance(n.op, ast.And) else "or"
            for x, y in zip(n.values, n.values[1:]):
                between(span(x)[1], span(y)[0], op, ["or" if op == "and" else "and"])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            put(a, span(n.operand)[0], "", "drop " + type(n.op).__name__)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            a, b = span(n)
            v = n.value
            if isinstance(v, bool):
                put(a, b, str(not v), f"{v} -> {not v}")
            elif isinstance(v, int):
                put(a, b, str(v + 1), f"{v} -> {v + 1}")
                put(a, b, f"({v - 1})", f"{v} -> {v - 1}")
            elif isinstance(v, float):
                put(a, b, repr(v * 1.01), f"{v} * 1.01")
        elif isinstance(n, ast.Name) and n.id in NAMES or isinstance(n, ast.Attribute) and n.attr in NAMES:
            old = n.id if isinstance(n, ast.Name) else n.attr
            a, b = span(n)
            put(b - len(old), b, NAMES[old], f"{old} -> {NAMES[old]}")
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            put(a, b, "False", "if False")
            if isinstance(n, ast.If):
                put(a, b, "True", "if True")
        elif isinstance(n, ast.IfExp):
            a, b = span(n.test)
            put(a, b, "False", "if False")
            put(a, b, "True", "if True")
        elif isinstance(n, ast.Expr):
            a, b = span(n)
            put(a, b, "pass", "drop the statement")
        elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            a, b = span(n)
            put(a, b, "pass", "drop the statement")
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = span(n.value)
            put(a, b, "None", "return None")
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    a, b = span(x)
                    put(a, b, "", "drop a bound")
        elif isinstance(n, ast.Call) and len(n.args) == 2:
            a, b = span(n.args[0])
            c, d = span(n.args[1])
            put(a, d, (raw[c:d] + raw[b:c] + raw[a:b]).decode(), "swap arguments")
        elif isinstance(n, ast.Call) and n.keywords:
            k = n.keywords[-1]
            if k.arg:
                a, b = at(k.lineno, k.col_offset), at(k.end_lineno, k.end_col_offset)
                put(a, b, "", "drop a keyword")
    shown = set()       # lines of the classes which show results
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and any("Result" in ast.unparse(b) for b in n.bases):
            shown.update(range(n.lineno, n.end_lineno + 1))
    res, seen = [], set()
    for a, b, new, what in sorted(out):
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        if m not in seen and m != src:
            seen.add(m)
            line = raw[:a].count(b"\n") + 1
            res.append((line, what, lines[line - 1].strip(), m, line in shown))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lines", default="")
    ap.add_argument("--shown", default="", help="the checks of the lines which show results")
    ap.add_argument("--log", default="/tmp/mut")
    o = ap.parse_args()
    src = open(os.path.join("/repo/src/coinflip", o.file)).read()
    ms = mutants(src)
    if o.lines:
        a, b = map(int, o.lines.split("-"))
        ms = [m for m in ms if a <= m[0] <= b]
    if o.sample and o.sample < len(ms):
        ms = sorted(random.Random(o.seed).sample(ms, o.sample))
    tmp = tempfile.mkdtemp(prefix="mutant-", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    path = os.path.join(repo, "src/coinflip", o.file)
    os.makedirs(o.log, exist_ok=True)
    name = o.file.replace("/", "_")[:-3]
    alive = 0
    try:
        for k, (line, what, text, m, shown) in enumerate(ms):
            with open(path, "w") as f:
                f.write(m)
            t0 = time.time()
            by = None
            for c in (o.shown if shown and o.shown else o.checks).split(","):
                p = subprocess.run(["python3-vt", os.path.join(TOP, "tools/fastcheck.py"), c],
                                   env=dict(os.environ, COINFLIP_REPO=repo), cwd=TOP,
                                   capture_output=True, text=True)
                if p.returncode == 1:
                    first = next((x for x in p.stdout.split("\n") if x.startswith("FIRST ")), "")
                    by = f"{c}: {first[6:160]}"
                    break
                if p.returncode == 2:
                    by = f"{c}: ERROR {p.stderr.strip()[-150:]!r}"
                    break
            print(f"{o.file}:{line} [{what}] {text[:70]} | {'SURVIVES' if by is None else by} "
                  f"({time.time() - t0:.0f}s)", flush=True)
            if by is None:
                alive += 1
                with open(os.path.join(o.log, f"{name}-{line}-{k}.diff"), "w") as f:
                    f.writelines(difflib.unified_diff(src.splitlines(True), m.splitlines(True), n=2))
        print(f"{o.file}: {len(ms)} mutants, {alive} survive", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
