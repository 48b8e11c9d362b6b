"""Runs the check of each planted bug (or of those whose names are given) on a copy of /repo with it.

usage: python3 tools/trybugs.py [--thorough] [--seed N] [NAME ...]; writes a line for each."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    env = dict(os.environ)
    if "--thorough" in args:
        args.remove("--thorough")
        env["VERIF_TIER"] = "thorough"
    if "--seed" in args:
        i = args.index("--seed")
        env["VERIF_SEED"] = args[i + 1]
        del args[i:i + 2]
    for name in args or sorted(os.listdir(os.path.join(TOP, "seeded"))):
        d = os.path.join(TOP, "seeded", name)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="try-", dir="/tmp")
        t0 = time.time()
        try:
            repo = os.path.join(tmp, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            p = subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")])
            if p.returncode:
                print(f"{name}: does not apply", flush=True)
                continue
            env["COINFLIP_REPO"] = repo
            p = subprocess.run(["python3-vt", "harness/check.py", prop], cwd=TOP, env=env,
                               capture_output=True, text=True)
            hit = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
            lines = [x for x in p.stdout.split("\n") if x.startswith("  ")]
            nv = p.stdout.rsplit("violations=", 1)[-1].split()[0] if "violations=" in p.stdout else "?"
            print(f"{name}: {'caught' if hit else f'MISSED ({p.returncode})'} {time.time() - t0:.0f}s "
                  f"violations={nv} {lines[0][:200] if lines else p.stdout[-300:]}", flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
