"""Runs checks on variants of the code: python3 tools/variants.py FILE.py [-j N] [only ...]

FILE.py defines V = [(name, property or properties, file below src/coinflip, old, new), ...];
prints which of them the (quick, fast) checks see."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(v):
    name, props, f, old, new = v
    d = tempfile.mkdtemp(prefix="variant-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        p = f"{d}/repo/src/coinflip/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(f"{name}: {s.count(old)} occurrences of {old!r} in {f}", flush=True)
            return
        open(p, "w").write(s.replace(old, new))
        for prop in props.split():
            r = subprocess.run(["nice", "-19", "python3-vt", os.path.join(TOP, "tools/fastcheck.py"), prop],
                               cwd=TOP, env=dict(os.environ, COINFLIP_REPO=d + "/repo"),
                               capture_output=True, text=True)
            first = [x for x in r.stdout.split("\n") if x.startswith("FIRST")]
            tail = first[0] if first else (r.stdout + r.stderr)[-300:] if r.returncode else ""
            print(f"{name}: {prop} {['MISSED', 'caught', 'NO ANSWER'][min(r.returncode, 2)]} {tail[:230]}",
                  flush=True)
            if r.returncode == 1:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    jobs = 3
    if "-j" in args:
        i = args.index("-j")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    ns = {}
    exec(open(args[0]).read(), ns)
    todo = [v for v in ns["V"] if not args[1:] or any(v[0].startswith(a) for a in args[1:])]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))


main()
