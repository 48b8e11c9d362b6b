"""Records histories of operations on the public containers."""
import ast
import copy
import json
import multiprocessing
import pickle
import signal
import sys
from fractions import Fraction

import fresh  # noqa: F401

from reccalls import on_alarm, toint

NONE = 999


# exact reals whose neighbours differ by little
SCALES = {
    "huge": (lambda u: 10 ** 20 + u, lambda x: x - 10 ** 20),
    "near": (lambda u: 1 + u * 2.0 ** -42, lambda x: (x - 1) * 2 ** 42),
    "tiny": (lambda u: u * 2.0 ** -60, lambda x: x * 2 ** 60),
    "thirds": (lambda u: Fraction(u, 3), lambda x: x * 3),
}
STYLE = None


def num(u, style, i=0):
    """a real of u quarters, or on another scale"""
    if style in SCALES:
        return SCALES[style][0](u)
    if style == "mixed":
        style = ("int", "float", "frac", "numpy")[(u + i) % 4]
    if style == "int" and u % 4 == 0:
        return u // 4
    if style == "frac":
        return Fraction(u, 4)
    if style == "numpy":
        import numpy as np
        return np.float64(u / 4)
    return u / 4


def unnum(x):
    try:
        return toint(SCALES[STYLE][1](x) if STYLE in SCALES else x * 4)
    except Exception:
        return toint(None)


def error(e):
    return ["e:" + type(e).__name__, []]


def copied(x, how):
    return pickle.loads(pickle.dumps(x)) if how == "pickle" else copy.deepcopy(x)


def eqs(a, b):
    return ["s", [int(a == b), int(a != b), int(b == a)]]


def bins_op(b, o, style, i):
    global STYLE
    STYLE = style
    op = o["op"]
    if op == "items":
        return ["s", [[unnum(x), toint(v)] for x, v in b.items()]]
    if op == "contains":
        return ["v", [int(num(o["k"], style, i) in b)]]
    if op == "getd":
        return ["v", [toint(b.get(num(o["k"], style, i), o["v"]))]]
    if op == "setdef":
        return ["v", [toint(b.setdefault(num(o["k"], style, i), o["v"]))]]
    if op == "pop":
        return ["v", [toint(b.pop(num(o["k"], style, i)))]]
    if op == "popitem":
        k, v = b.popitem()
        return ["s", [unnum(k), toint(v)]]
    if op == "clear":
        b.clear()
        return ["ok", []]
    if op == "update":
        b.update([(num(k, style, i), v) for k, v in o["kv"]])
        return ["ok", []]
    if op == "eq":
        other = like(dict(b.items()), o.pop("how"))
        o["kv"] = sorted([unnum(k), toint(v)] for k, v in other.items())
        return eqs(b, other)
    if op == "get":
        return ["v", [toint(b[num(o["k"], style, i)])]]
    if op == "set":
        b[num(o["k"], style, i)] = o["v"]
        return ["ok", []]
    if op == "add":
        b[num(o["k"], style, i)] += o["v"]
        return ["ok", []]
    if op == "del":
        del b[num(o["k"], style, i)]
        return ["ok", []]
    if op == "len":
        return ["v", [len(b)]]
    if op == "keys":
        return ["s", [unnum(x) for x in b]]
    if op == "intervals":
        return ["s", [unnum(x) for x in b.intervals]]
    if op == "values":
        return ["s", [toint(x) for x in b.values()]]
    if op == "total":
        return ["v", [toint(sum(v for _, v in b.items()))]]


FAM = {
    "int": lambda k: k, "float": lambda k: k / 4, "neg": lambda k: k - 1000,
    "str": lambda k: "k%05d" % k, "tuple": lambda k: (k // 3, k % 3), "frac": lambda k: Fraction(k, 7),
    "bytes": lambda k: b"%05d" % k, "bigint": lambda k: k * 10 ** 20,
    "huge": lambda k: 10 ** 20 + k, "near": lambda k: 1 + k * 2.0 ** -42, "tiny": lambda k: (k - 99) * 2.0 ** -60,
}


def like(d, how):
    """a mapping much like d"""
    ks = sorted(d)
    if ks and how == "less":
        del d[ks[-1]]
    elif ks and how == "first":
        del d[ks[0]]
    elif ks and how == "value":
        d[ks[len(ks) // 2]] += 1
    elif ks and how == "swap":
        d[ks[0]], d[ks[-1]] = d[ks[-1]], d[ks[0]]
    return d


def floor_op(b, o, fam, back):
    op = o["op"]
    if op == "items":
        return ["s", [[back.get(x, -1), toint(v)] for x, v in b.items()]]
    if op == "contains":
        return ["v", [int(FAM[fam](o["k"]) in b)]]
    if op == "getd":
        return ["v", [toint(b.get(FAM[fam](o["k"]), o["v"]))]]
    if op == "eq":
        other = like(dict(b.items()), o.pop("how"))
        o["kv"] = sorted([back.get(k, -1), toint(v)] for k, v in other.items())
        return eqs(b, other)
    if op == "get":
        return ["v", [toint(b[FAM[fam](o["k"])])]]
    if op == "len":
        return ["v", [len(b)]]
    if op == "keys":
        return ["s", [back.get(x, -1) for x in b]]
    if op == "values":
        return ["s", [toint(x) for x in b.values()]]


def elem(x):
    if x is None:
        return -7
    if isinstance(x, list):
        return [toint(y) for y in x]
    return toint(x)


def ix(i):
    return None if i == NONE else i


def nearly(x, how, d):
    """a list much like x"""
    if how == "longer":
        return x + [d]
    if x and how == "shorter":
        return x[:-1]
    if x and how == "rest":
        return x[1:]
    if x and how == "value":
        return x[:-1] + [[97] if isinstance(x[-1], list) else 97]
    if x and how == "turned":
        return x[::-1]
    return x


def list_eq(s, o, style):
    from coinflip.collections import defaultlist

    if "how" in o:
        x = nearly(list(s), o.pop("how"), s.default_factory())
        o["vs"] = [elem(y) for y in x]
    else:
        x = o["vs"]
    if not o["seq"]:
        x = {"iter": iter(x), "tuple": dict(enumerate(x)), "bare": None}.get(style, 7)
    elif style == "tuple":
        x = tuple(x)
    elif style == "iter":
        y = defaultlist(s.default_factory)
        y.extend(x)
        x = y
    return eqs(s, x)


def list_op(s, o, style):
    if o["op"] == "eq":
        return list_eq(s, o, style)
    o = copy.deepcopy(o)     # what is recorded must not be shared with the list
    op = o["op"]
    if op == "get":
        return ["v", [elem(s[o["i"]])]]
    if op == "set":
        s[o["i"]] = o["v"]
    elif op == "push":
        s[o["i"]].append(o["v"])
    elif op == "del":
        del s[o["i"]]
    elif op in ("getslice", "setslice", "delslice", "slicemut", "slicegrow"):
        sl = slice(ix(o["a"]), ix(o["b"]), ix(o["step"]))
        if op == "getslice":
            r = s[sl]
            return ["s", [elem(x) for x in r]]
        if op == "slicemut":
            r = s[sl]
            r.append(77)
            if len(r) > 1:
                r[0] = 78
                del r[0]
        elif op == "slicegrow":
            return ["v", [elem(s[sl][o["i"]])]]
        elif op == "delslice":
            del s[sl]
        elif style == "iter":
            s[sl] = iter(o["vs"])
        elif style == "tuple":
            s[sl] = tuple(o["vs"])
        elif style == "scalar" and len(o["vs"]) == 1:
            s[sl] = o["vs"][0]
        else:
            s[sl] = list(o["vs"])
    elif op == "insert":
        s.insert(o["i"], o["v"])
    elif op == "append":
        s.append(o["v"])
    elif op == "extend":
        if style == "iadd":
            s += o["vs"]
        else:
            s.extend(o["vs"])
    elif op == "pop":
        return ["v", [elem(s.pop() if o["i"] == NONE else s.pop(o["i"]))]]
    elif op == "remove":
        s.remove(o["v"])
    elif op == "index":
        return ["v", [s.index(o["v"])]]
    elif op == "count":
        return ["v", [s.count(o["v"])]]
    elif op == "contains":
        return ["v", [int(o["v"] in s)]]
    elif op == "reverse":
        s.reverse()
    elif op == "clear":
        s.clear()
    elif op == "len":
        return ["v", [len(s)]]
    elif op == "all":
        return ["s", [elem(x) for x in s]]
    elif op == "reversed":
        return ["s", [elem(x) for x in reversed(s)]]
    elif op == "repr":
        return ["s", [elem(x) for x in ast.literal_eval(repr(s))]]
    elif op == "extendself":
        s += s
    elif op == "setself":
        s[o["i"]:o["i"]] = s
    elif op == "badkey":
        key = {"iter": "0", "tuple": 0.0, "bare": None}.get(style, (0, 1))
        if len(s) % 3 == 0:
            s[key]
        elif len(s) % 3 == 1:
            s[key] = 1
        else:
            del s[key]
    else:
        raise RuntimeError("unknown operation " + op)
    return ["ok", []]


def five():
    return 5


FACTORY = {"none": None, "int": int, "five": five, "list": list}


def make(h, back):
    from coinflip.collections import Bins, FloorDict, defaultlist

    style = h.get("style", "int")
    if h["kind"] == "bins":
        xs = [num(u, style, i) for i, u in enumerate(h["init"])]
        src = h.get("src", "list")
        return Bins(iter(xs) if src == "iter" else tuple(xs) if src == "tuple"
                    else {x: 0 for x in xs} if src == "dict" and len(set(xs)) == len(xs)
                    else xs)
    if h["kind"] == "floor":
        d = {FAM[style](k): v for k, v in h["init"]}
        back.update({FAM[style](k): k for k, _ in h["init"]})
        return FloorDict(d)
    f = h["factory"]
    return defaultlist() if f == "none" and style == "bare" else defaultlist(FACTORY[f])


def play(h):
    """plays a history, an operation at a time"""
    h["made"] = "ok"
    style = h.get("style", "int")
    back = {}
    try:
        obj = make(h, back)
    except Exception as e:
        h["made"] = "e:" + type(e).__name__
        for o in h["ops"]:
            o["res"] = ["e", []]
        return
    yield
    for i, o in enumerate(h["ops"]):
        try:
            if o["op"] == "copy":
                obj = copied(obj, o.get("how", "pickle"))
                o["res"] = ["ok", []]
            elif h["kind"] == "bins":
                o["res"] = bins_op(obj, o, style, i)
            elif h["kind"] == "floor":
                o["res"] = floor_op(obj, o, style, back)
            else:
                o["res"] = list_op(obj, o, style)
        except Exception as e:
            o["res"] = error(e)
        yield


def run_group(hs):
    """plays histories which take turns"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    plays = [play(h) for h in hs]
    while plays:
        plays = [p for p in plays if next(p, p) is None]
    signal.alarm(0)
    return [json.dumps(h) for h in hs]


def main():
    with open(sys.argv[1]) as f:
        hs = [json.loads(x) for x in f]
    import coinflip.collections  # noqa: F401

    groups = [[]]
    for h in hs:      # in turns: one alone, two together, three together
        if len(groups[-1]) > (len(groups) - 1) % 3:
            groups.append([])
        groups[-1].append(h)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        out = pool.map(run_group, groups, chunksize=32)
    with open(sys.argv[2], "w") as f:
        f.writelines(x + "\n" for g in out for x in g)


if __name__ == "__main__":
    main()
