"""A check which stops at its first violation, and explores no specification twice; for mutate.py.

usage: COINFLIP_REPO=... python3-vt tools/fastcheck.py <property>; exit 1 at a violation, else 0 (or 2)"""
import hashlib
import os
import shutil
import sys
import traceback

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(TOP, "harness"))
CACHE = "/tmp/coinflip-explored"

import registry  # noqa: E402
import vlib  # noqa: E402


def spec_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(vlib.SPEC)):
        if f.endswith(".tla"):
            h.update(open(os.path.join(vlib.SPEC, f), "rb").read())
    return h.hexdigest()


class Fast(vlib.Check):
    def violation(self, what, **detail):
        k = next((k for k in vlib.load_known(self.pid) if k in what), None)
        if k is None:
            print("FIRST " + what[:300].replace("\n", " "), flush=True)
            shutil.rmtree(self.dir, ignore_errors=True)
            os._exit(1)

    def tlc(self, module, cfg, env=None, **kw):
        env = env or {}
        if "TRACE" in env or kw.get("simulate") or set(env) - {"OUT"}:
            return super().tlc(module, cfg, env=env, **kw)
        key = hashlib.sha256(f"{module}|{cfg}|{SPECS}|{'OUT' in env}".encode()).hexdigest()
        path = os.path.join(CACHE, key)
        if not os.path.exists(path):
            r = super().tlc(module, cfg, env=env, **kw)
            if r[0] != 0:
                return r
            os.makedirs(CACHE, exist_ok=True)
            tmp = f"{path}.{os.getpid()}"
            if "OUT" in env and os.path.exists(env["OUT"]):
                shutil.copy(env["OUT"], tmp)
            else:
                open(tmp, "w").close()
            with open(tmp + ".txt", "w") as f:
                f.write(r[1])
            os.rename(tmp + ".txt", path + ".txt")
            os.rename(tmp, path)
            return r
        if "OUT" in env:
            shutil.copy(path, env["OUT"])
        return 0, open(path + ".txt").read(), 0


SPECS = spec_hash()


def main():
    pid = sys.argv[1]
    chk = Fast(pid)
    try:
        registry.CHECKS[pid](chk)
    except BaseException:
        traceback.print_exc()
        shutil.rmtree(chk.dir, ignore_errors=True)
        os._exit(2)
    shutil.rmtree(chk.dir, ignore_errors=True)
    print(f"QUIET {pid} {chk.elapsed():.0f}s")


main()
