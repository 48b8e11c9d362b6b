"""The reliable tests on every planted bug: python3 tools/plantests.py [-n WORKERS] [ID ...]

Each bug is applied to a scratch copy of /repo; prints those which the repository's own tests see."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(bug, workers):
    tmp = tempfile.mkdtemp(prefix="plantest-", dir="/tmp")
    try:
        r = tmp + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", f"{TOP}/seeded/{bug}/patch.diff"], check=True)
        env = dict(os.environ, PYTHONPATH=f"{r}/src:/opt/vp/pytest_plugins", OMP_NUM_THREADS="1",
                   TMPDIR=tmp, HYPOTHESIS_STORAGE_DIRECTORY=tmp + "/hyp", PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1")
        subprocess.run(["nice", "-19", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                        "-p", "vp_hypothesis_profile", "--run-slow", "-n", str(workers), "--timeout=600",
                        "--continue-on-collection-errors", "--hypothesis-seed=0", "--hypothesis-profile=vp",
                        "-W", "ignore::DeprecationWarning", "--tb=line", f"--basetemp={tmp}/pytest",
                        "-o", "junit_family=xunit2", f"--junitxml={tmp}/junit.xml", "tests"],
                       cwd=r, env=env, capture_output=True)
        bad = []
        for c in ET.parse(tmp + "/junit.xml").iter("testcase"):
            name = f"{c.get('classname')}::{c.get('name')}"
            if (c.find("failure") is not None or c.find("error") is not None) and name in BASE:
                bad.append(name)
        print(f"{bug}: {'tests pass' if not bad else 'FAIL ' + ' '.join(bad[:4])}", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    workers = 4
    if args[:1] == ["-n"]:
        workers = int(args[1])
        args = args[2:]
    for bug in args or sorted(os.listdir(TOP + "/seeded")):
        one(bug, workers)


main()
