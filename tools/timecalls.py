"""Times what a check of single long calls costs: python3-vt tools/timecalls.py <test> <n> <maker> [par json]"""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import gen  # noqa: E402
import statchecks  # noqa: E402
from calls import raw  # noqa: E402
from vlib import Check  # noqa: E402

test, n, maker = sys.argv[1], int(sys.argv[2]), sys.argv[3]
par = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
rng = random.Random(7)
b = {"coin": lambda: gen.coin(rng, n), "skew": lambda: gen.coin(rng, n, .97),
     "walk": lambda: gen.walkish(rng, n), "bits": lambda: gen.bits(rng, n)}[maker]()
chk = Check("X" + str(os.getpid()))
t = time.time()
statchecks.run_calls(chk, [(test, raw(b), par)], nproc=1)
print(f"{test} {n} {time.time() - t:.1f} s", chk.violations if hasattr(chk, "violations") else "")
import shutil
shutil.rmtree(chk.dir, ignore_errors=True)
