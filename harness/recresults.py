"""Records histories of results as values: called for, copied, edited, compared.

usage: recresults.py HISTORIES.ndjson TRACE.ndjson"""
import copy
import dataclasses
import json
import multiprocessing
import pickle
import signal
import sys
import warnings

import fresh  # noqa: F401

from calls import decode, make_sequence
from reccalls import kwargs_of, on_alarm

import numpy as np


def canon(x, depth=0):
    """the contents of a value, alike for what Python takes as equal"""
    if depth > 9:
        return "..."
    if isinstance(x, (bool, int, float, np.bool_, np.integer, np.floating)):
        v = x.item() if isinstance(x, np.generic) else x
        try:
            return f"num {int(v)}" if v == int(v) else f"num {v!r}"
        except (ValueError, OverflowError):
            return f"num {v!r}"
    if x is None or isinstance(x, (str, bytes)):
        return repr(x)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return type(x).__name__ + "{" + ",".join(
            f"{f.name}={canon(getattr(x, f.name), depth + 1)}" for f in dataclasses.fields(x)) + "}"
    if hasattr(x, "items"):
        return "{" + ",".join(sorted(f"{canon(k, depth + 1)}:{canon(v, depth + 1)}"
                                     for k, v in x.items())) + "}"
    if hasattr(x, "tolist"):
        return canon(x.tolist(), depth + 1)
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(y, depth + 1) for y in x) + "]"
    return f"{type(x).__name__} {x}" if " at 0x" not in repr(x) else type(x).__name__


def answer(f):
    """0 or 1; 2 for anything else"""
    try:
        r = f()
    except Exception:
        return 2
    return int(r) if isinstance(r, (bool, np.bool_)) else 2


def accessors(r):
    """of a result of several"""
    subs = getattr(r, "results", None)
    if not hasattr(subs, "items"):
        return []
    keys = [canon(k) for k in subs]
    ps = [v.p for v in subs.values()]
    order = sorted(set(map(float, ps)))
    out = dict(keys=keys, stats=[canon(v.statistic) for v in subs.values()],
               ps=[canon(p) for p in ps], ranks=[order.index(float(p)) for p in ps])

    def listed(name):
        try:
            return [canon(x) for x in getattr(r, name)]
        except Exception as e:
            return [type(e).__name__]

    out["statistics"], out["pvalues"] = listed("statistics"), listed("pvalues")
    try:
        k, v = r.min
        out.update(minkey=canon(k), minstat=canon(v.statistic), minp=canon(v.p))
    except Exception as e:
        out.update(minkey=type(e).__name__, minstat="", minp="")
    return [out]


def call(c):
    import coinflip.randtests as randtests
    seq, _ = make_sequence(decode(c["enc"]), c.get("rep"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(randtests, c["test"])(seq, **kwargs_of(c["test"], c["par"]))


def deepened(o, how):
    return copy.deepcopy(o) if how == "deepcopy" else pickle.loads(pickle.dumps(o, int(how)))


class Ids:
    def __init__(self):
        self.names = {}

    def __call__(self, x):
        return self.names.setdefault(x, len(self.names))


def history(h):
    objs, steps, texts, fps = [], [], Ids(), Ids()
    tops, inners, last = {}, {}, len(h["ops"])
    for t, op in enumerate(h["ops"], 1):
        o = dict(op)
        if op["k"] == "call":
            r = call(h["calls"][op["c"]])
            objs.append(r)
            o["base"] = fps(canon(r))
        elif op["k"] == "copy":
            objs.append(copy.copy(objs[op["i"] - 1]))
        elif op["k"] == "deep":
            try:
                objs.append(deepened(objs[op["i"] - 1], op["how"]))
            except Exception as e:
                objs.append(e)
        else:
            x = objs[op["i"] - 1]
            try:
                if op["k"] == "top":
                    x.heads = ("edited", x.heads)
                else:
                    x.failures.append("edited")
            except (AttributeError, TypeError):
                break      # what cannot be edited
        o.pop("how", None)

        def first(x):
            try:
                return objs.index(x) + 1
            except Exception:
                return 0

        seen = dict(eq=[[answer(lambda: a == b) for b in objs] for a in objs],
                    ne=[[answer(lambda: a != b) for b in objs] for a in objs],
                    first=[first(x) for x in objs], fp=[fps(canon(x)) for x in objs],
                    text=[texts(str(x)) for x in objs] if t == last else [0] * len(objs))
        steps.append(dict(op=o, seen=seen, acc=accessors(objs[-1])
                          + (accessors(objs[0]) if t == last and len(objs) > 1 else [])))
    return dict(id=h["id"], kind="history", steps=steps)


def error(h):
    """an error, as it is and after a round trip"""
    try:
        call(h["calls"][0])
    except Exception as e:
        def fields(x):
            return [f"{k}={v!r}" for k, v in sorted(vars(x).items())]
        try:
            x = deepened(e, h["how"])
        except Exception as y:
            x = y
        return dict(id=h["id"], kind="error", type=type(e).__name__, type2=type(x).__name__,
                    text=str(e), text2=str(x), fields=fields(e), fields2=fields(x))
    raise SystemExit(f"{h} is no error")


def one(h):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    try:
        return error(h) if h.get("how") else history(h)
    finally:
        signal.alarm(0)


def main():
    with open(sys.argv[1]) as f:
        hs = [json.loads(x) for x in f]
    import coinflip.randtests  # noqa: F401
    import represent  # noqa: F401
    with multiprocessing.Pool(8) as pool, open(sys.argv[2], "w") as f:
        for r in pool.imap(one, hs, chunksize=8):
            f.write(json.dumps(r) + "\n")


if __name__ == "__main__":
    main()
