"""Plants a bug: python3 tools/plant.py SPEC.py   (SPEC: a file defining ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO = text of demo.py [, FILES = {name: text}])

Makes /verif/seeded/<ID>/ after confirming, in a scratch copy of /repo, that the demonstration
passes without and fails with the change, that the change touches only original lines, and that
the reliable tests still pass. With SKIPTESTS=1 the tests are left out (run them later)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

BASE = "df9e323"
PY = "/opt/venv/bin/python"
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    out = os.path.join(TOP, "seeded", spec["ID"])
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp/plant")
    try:
        scratch = os.path.join(tmp, "repo")
        sh(f"git clone -q /repo {scratch}", "/tmp")
        for f, old, new in spec["EDITS"]:
            p = os.path.join(scratch, "src/coinflip", f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f"{spec['ID']}: {s.count(old)} occurrences in {f} of:\n{old}")
            open(p, "w").write(s.replace(old, new))
        # every line which is changed is an original one
        diff = sh("git diff", scratch).stdout
        own = sh(f"git diff -U0 {BASE} HEAD", scratch).stdout
        own = {x[1:] for x in own.split("\n") if x.startswith("+") and len(x.strip()) > 3}
        gone = [x[1:] for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
        mine = [x for x in gone if x in own]
        if mine or not gone:
            print(f"{spec['ID']}: WARNING not original lines: {mine}", flush=True)
        demo = os.path.join(tmp, "demo")
        os.mkdir(demo)
        open(os.path.join(demo, "demo.py"), "w").write(spec["DEMO"])
        for n, t in spec.get("FILES", {}).items():
            open(os.path.join(demo, n), "w").write(t)
        open(os.path.join(demo, "demo.sh"), "w").write(
            spec.get("DEMOSH") or "#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\n"
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        good = sh(f"sh {demo}/demo.sh", "/repo", timeout=300)
        bad = sh(f"sh {demo}/demo.sh", scratch, {"PYTHONPATH": scratch + "/src"}, timeout=300)
        if good.returncode != 0 or bad.returncode == 0:
            sys.exit(f"{spec['ID']}: demo {good.returncode} / {bad.returncode}\n{good.stdout[-800:]}"
                     f"{good.stderr[-1500:]}\n---\n{bad.stdout[-800:]}{bad.stderr[-800:]}")
        if not os.environ.get("SKIPTESTS"):
            t = sh(f"{PY} -m pytest -q -p no:cacheprovider -p vp_hypothesis_profile --run-slow -n 6 "
                   "--timeout=600 --continue-on-collection-errors --hypothesis-seed=0 "
                   "--hypothesis-profile=vp -W ignore::DeprecationWarning --tb=line "
                   f"--deselect tests/test_cli.py --basetemp={tmp}/pytest tests", scratch,
                   {"PYTHONPATH": f"{scratch}/src:/opt/vp/pytest_plugins", "OMP_NUM_THREADS": "1",
                    "TMPDIR": tmp, "HYPOTHESIS_STORAGE_DIRECTORY": tmp + "/hyp", "PYTHONHASHSEED": "0"},
                   timeout=1500)
            fails = [x for x in t.stdout.split("\n") if x.startswith(("FAILED", "ERROR"))]
            last = t.stdout.strip().split("\n")[-1]
            if fails or " passed" not in last:
                sys.exit(f"{spec['ID']}: tests fail:\n" + "\n".join(fails[:5]) + "\n" + last)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(f"{spec['ID']}: planted", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
