"""Records sessions of calls of the statistical tests, each in a process of its own.

usage: recsession.py LIBRARY.ndjson SESSIONS.ndjson TRACE.ndjson DIGESTS.json
The sessions with just one call must come first: they are the memo."""
import dataclasses
import gc
import json
import os
import signal
import sys
import warnings

import fresh  # noqa: F401

from calls import decode
from reccalls import kwargs_of, on_alarm

import numpy as np
import pandas as pd


def digest(x, depth=0):
    if depth > 8:
        return "..."
    if isinstance(x, (bool, np.bool_)):
        return f"{type(x).__name__}:{bool(x)}"
    if isinstance(x, (float, np.floating)):
        return f"{type(x).__name__}:{float(x):.9g}"
    if isinstance(x, (int, np.integer, str, bytes, type(None))):
        return f"{type(x).__name__}:{x!r}"
    if isinstance(x, np.ndarray):
        return f"ndarray:{x.dtype}:{[digest(y, depth + 1) for y in x.tolist()]}"
    if isinstance(x, (pd.Series, pd.Index)):
        idx = digest(x.index.tolist(), depth + 1) if isinstance(x, pd.Series) else ""
        return f"{type(x).__name__}:{x.dtype}:{idx}:{[digest(y, depth + 1) for y in x.tolist()]}"
    if dataclasses.is_dataclass(x) or (hasattr(x, "__dict__") and not callable(x)):
        d = {k: v for k, v in vars(x).items()}
        return type(x).__name__ + "{" + ",".join(
            f"{k}={digest(v, depth + 1)}" for k, v in sorted(d.items())) + "}"
    if hasattr(x, "items"):
        return type(x).__name__ + "{" + ",".join(
            f"{digest(k, depth + 1)}:{digest(v, depth + 1)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "[" + ",".join(digest(y, depth + 1) for y in x) + "]"
    if isinstance(x, (set, frozenset)):
        return type(x).__name__ + "(" + ",".join(sorted(digest(y, depth + 1) for y in x)) + ")"
    return type(x).__name__


def result_digest(r):
    if isinstance(r, tuple) and r and r[0] == "exc":
        return digest(r[1:])
    out = [digest(r)]
    for f in ("statistic", "p", "failures"):
        try:
            out.append(digest(getattr(r, f)))
        except Exception as e:
            out.append(type(e).__name__)
    try:
        out.append(str(r))
    except Exception as e:
        out.append("str:" + type(e).__name__)
    return "|".join(out)


class World:
    """the sequences of a session, made once each"""

    def __init__(self):
        self.inputs = {}
        self.slots = {}

    def sequence(self, c):
        import represent
        bits = decode(c["enc"])
        if c.get("values") is not None:
            xs = [c["values"][b] for b in bits]
        else:
            xs = None
        if c.get("slot"):
            # one object, whose contents change from call to call
            if c["slot"] == "list":
                o = self.slots.setdefault("list", [])
                o[:] = bits
            else:
                o = self.slots.setdefault(f"array{len(bits)}", np.zeros(len(bits), dtype=int))
                o[:] = bits
            return o, None
        key = json.dumps([c["enc"], c.get("rep"), c.get("values")])
        if c.get("temp"):
            return (list(bits) if xs is None else xs), None
        if key not in self.inputs:
            if xs is not None:
                o = list(xs)
            elif c.get("rep"):
                o, _ = represent.make(bits, c["rep"])
            else:
                o = list(bits)
            self.inputs[key] = (o, digest(o))
        return self.inputs[key][0], key


def run_session(lib, session, memo_ids):
    import coinflip.randtests as randtests
    import coinflip.randtests_refimpl as refimpl

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    w = World()
    held, steps = [], []
    for cid in session["calls"]:
        c = lib[cid]
        seq, _ = w.sequence(c)
        mod = refimpl if c["impl"] == "ref" else randtests
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                r = getattr(mod, c["test"])(seq, **kwargs_of(c["test"], c["par"]))
            except Exception as e:
                r = ("exc", type(e).__name__, str(e))
            texts = sorted(f"{x.category.__name__}:{x.message}" for x in ws
                           if "coinflip" in str(x.filename) or x.category is UserWarning)
        after = ";".join(texts)
        del seq
        held.append((r, after))
        k = len(held)
        look = range(k) if k == len(session["calls"]) else range(max(0, k - 2), k)
        now = [[j + 1, memo_ids(result_digest(held[j][0]) + "#" + held[j][1])] for j in look]
        ins = [int(digest(o) == d) for o, d in w.inputs.values()]
        steps.append(dict(call=cid, out=now[-1][1], held=now, inputs=ins))
        if c.get("temp"):
            held[-1] = (r, after)
            gc.collect()
    signal.alarm(0)
    return steps


def worker(lib, sessions, out):
    """every session in a child of its own: nothing has been called before"""
    with open(out, "w") as f:
        for s in sessions:
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    names = {}
                    seen = []

                    def ids(x):
                        if x not in names:
                            names[x] = len(seen)
                            seen.append(x)
                        return names[x]

                    steps = run_session(lib, s, ids)
                    data = json.dumps(dict(id=s["id"], steps=steps, seen=seen))
                except BaseException as e:
                    data = json.dumps(dict(id=s["id"], error=f"{type(e).__name__}: {e}"))
                with os.fdopen(wr, "w") as p:
                    p.write(data + "\n")
                os._exit(code)
            os.close(wr)
            with os.fdopen(r) as p:
                data = p.read()
            os.waitpid(pid, 0)
            f.write(data if data.strip() else json.dumps(dict(id=s["id"], error="died")) + "\n")


def main():
    lib_path, ses_path, out_path, dig_path = sys.argv[1:5]
    with open(lib_path) as f:
        lib = [json.loads(x) for x in f]
    with open(ses_path) as f:
        sessions = [json.loads(x) for x in f]
    import coinflip.randtests  # noqa: F401
    import coinflip.randtests_refimpl  # noqa: F401
    import represent  # noqa: F401

    n = 8
    pids = []
    for j in range(n):
        pid = os.fork()
        if pid == 0:
            try:
                worker(lib, sessions[j::n], f"{out_path}.{j}")
            finally:
                os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    rows = {}
    for j in range(n):
        with open(f"{out_path}.{j}") as f:
            for line in f:
                d = json.loads(line)
                rows[d["id"]] = d
    names = {}
    with open(out_path, "w") as f:
        for s in sessions:
            d = rows.get(s["id"], dict(error="missing"))
            if "error" in d:
                raise SystemExit(f"session {s}: {d['error']}")
            m = [names.setdefault(x, len(names)) for x in d["seen"]]
            for st in d["steps"]:
                st["out"] = m[st["out"]]
                st["held"] = [[j, m[x]] for j, x in st["held"]]
            f.write(json.dumps(dict(id=s["id"], steps=d["steps"])) + "\n")
    with open(dig_path, "w") as f:
        json.dump(list(names), f)


if __name__ == "__main__":
    main()
