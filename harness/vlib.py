"""Shared machinery of the checks: TLC runs, recorders, evidence, verdicts."""
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
EVIDENCE = os.path.join(ROOT, "evidence")
IMPL_PY = os.environ.get("COINFLIP_PY", "/opt/venv/bin/python")
TLA = "/opt/veriftools/tla"
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """the check itself cannot give an answer"""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"coinflip-{pid}-")
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.violations = []
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.jobs = itertools.count(1)
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def elapsed(self):
        return time.time() - self.t0

    def log(self, msg):
        print(f"[{self.pid} {self.elapsed():6.1f}s] {msg}", flush=True)

    def violation(self, what, **detail):
        """what: one line; detail: whatever replays it"""
        self.violations.append(dict(what=what, **detail))

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # ------------------------------------------------------------------ TLC

    def tlc(self, module, cfg, env=None, mem="3g", timeout=800, simulate=None, workers=1,
            allow_violation=False):
        """Runs TLC on spec/<module>.tla; returns its output, counting the states."""
        tag = f"{module}-{next(self.jobs)}"
        meta = self.path("meta-" + tag)
        cfg_path = self.path(tag + ".cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg)
        cmd = ["java", f"-Xmx{mem}", "-Xss64m", "-XX:+UseSerialGC",
               "-XX:TieredStopAtLevel=4",
               "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg_path]
        if simulate:
            cmd += simulate
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC on {module} took more than {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        if p.returncode != 0 and not allow_violation:
            raise MachineryError(f"TLC on {module} failed ({p.returncode}):\n{out[-6000:]}"
                                 f"\n{p.stderr[-2000:]}")
        gen = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        if gen:
            g, d = (int(x.replace(",", "")) for x in gen[-1])
            self.count(d, g)
        else:
            sim = re.findall(r"number of states generated: ([\d,]+)", out) or \
                re.findall(r"Progress: ([\d,]+) states checked", out)
            g = d = int(sim[-1].replace(",", "")) if sim else 0
            self.count(d, g)
        return p.returncode, out, d

    def count(self, states, transitions):
        with self.lock:
            self.states += states
            self.transitions += transitions

    def fresh(self, name):
        """a new path in the scratch directory"""
        return self.path(f"{next(self.jobs)}-{name}")

    def validate(self, module, trace_path, weights, cfg="SPECIFICATION Spec\n"
                 "CHECK_DEADLOCK FALSE\nPOSTCONDITION Done\n", jobs=None, env=None,
                 timeout=800, mem="3g"):
        """Splits the recorded lines into chunks, each validated by its own TLC.

        Returns the verdicts, in the order of the lines."""
        with open(trace_path) as f:
            lines = f.read().splitlines()
        jobs = jobs or NCPU
        total = sum(weights) or 1
        jobs = max(1, min(jobs, len(lines), int(total) + 1))
        order = sorted(range(len(lines)), key=lambda i: -weights[i])
        bins = [[] for _ in range(jobs)]
        load = [0.0] * jobs
        for i in order:
            j = load.index(min(load))
            bins[j].append(i)
            load[j] += weights[i] + 1e-3
        paths = []
        for j, idx in enumerate(bins):
            idx.sort()
            p = f"{trace_path}.{j}"
            with open(p, "w") as f:
                f.write("".join(lines[i] + "\n" for i in idx))
            paths.append((p, p + ".out"))

        def one(po):
            p, o = po
            self.tlc(module, cfg, env=dict(env or {}, TRACE=p, OUT=o), timeout=timeout, mem=mem)
            return read_out(o)

        with ThreadPoolExecutor(jobs) as ex:
            outs = list(ex.map(one, paths))
        verdicts = [None] * len(lines)
        for idx, out in zip(bins, outs):
            if len(idx) != len(out):
                raise MachineryError(f"{module}: {len(out)} verdicts of {len(idx)} lines")
            for i, v in zip(idx, out):
                verdicts[i] = v
        self.validated += len(lines)
        return verdicts

    # ------------------------------------------------------------- recorder

    def impl(self, script, *args, timeout=600, env=None, check=True):
        """Runs a recorder under the interpreter which has coinflip's dependencies."""
        e = dict(os.environ)
        e.update({"PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
                  "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
                  "XDG_DATA_HOME": self.path("xdg"), "HOME": self.dir})
        e.update(env or {})
        try:
            p = subprocess.run([IMPL_PY, os.path.join(HERE, script), *map(str, args)],
                               cwd=self.dir, env=e, capture_output=True, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"{script} took more than {timeout} s")
        if check and p.returncode != 0:
            raise MachineryError(f"{script} failed ({p.returncode}):\n{p.stdout[-3000:]}\n"
                                 f"{p.stderr[-4000:]}")
        return p

    # --------------------------------------------------------------- finish

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        known = load_known(self.pid)
        fresh, seen = [], {}
        for v in self.violations:
            k = next((k for k in known if k in json.dumps(v, ensure_ascii=False)), None)
            if k is None:
                fresh.append(v)
            else:
                seen.setdefault(k, v)
        for k, v in seen.items():
            print(f"KNOWN-FINDING: property={self.pid} {v['what']}")
        cov = dict(self.extra)
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.validated)
        cov["samples"] = self.samples
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(self.elapsed(), 2), violations=len(fresh))
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        replay = os.path.join(EVIDENCE, f"replay-{self.pid}.json")
        if os.path.exists(replay):
            os.remove(replay)
        shutil.rmtree(self.dir, ignore_errors=True)
        self.log(f"states={self.states} transitions={self.transitions} "
                 f"validated={self.validated} violations={len(fresh)}")
        if fresh:
            with open(replay, "w") as f:
                json.dump(fresh[:50], f, indent=1, default=str, ensure_ascii=False)
            for v in fresh[:5]:
                print("  " + v["what"][:400])
            print(f"VIOLATION property={self.pid} replay={replay}")
            sys.exit(1)
        sys.exit(0)


def read_out(path):
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        for line in f:
            v = json.loads(line)
            out.append(json.loads(v) if isinstance(v, str) else v)
    return out


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> match=<substring of the violation>'"""
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(rf"finding: property={pid} match=<<(.*)>>", line.strip())
                if m:
                    out.append(m.group(1))
    return out


def write_lines(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o) + "\n")


def read_lines(path):
    with open(path) as f:
        return [json.loads(line) for line in f]
