"""Checks of the public containers against spec/Containers.tla."""
import random

from statchecks import explore
from vlib import read_lines, read_out, write_lines

NONE = 999


def histories(chk, hs, what):
    for i, h in enumerate(hs):
        h["id"] = i
    hp, tp = chk.fresh("hist.ndjson"), chk.fresh("trace.ndjson")
    write_lines(hp, hs)
    chk.impl("reccont.py", hp, tp)
    vs = chk.validate("TraceContainers", tp, [.2 + .05 * len(h["ops"]) for h in hs])
    got = read_lines(tp)
    bad = 0
    for h, v in zip(got, vs):
        if v["bad"]:
            bad += 1
            if bad > 20:
                continue
            k = v["bad"]
            if k < 0:
                chk.violation(f"{h['kind']} of {h['init']}: construction gives {h['made']}, "
                              f"should give {v['want'][0]}", history=h)
                continue
            o = {x: y for x, y in h["ops"][k - 1].items() if x != "res"}
            before = [{x: y for x, y in o.items() if x != "res"} for o in h["ops"][:k - 1]]
            chk.violation(f"{h['kind']}({h.get('init', h.get('factory'))}, {h.get('style')}): "
                          f"{o} after {before[-6:]} gives {h['ops'][k - 1]['res']}, "
                          f"should give {v['want']}", history=h, step=k)
    for h in got[::max(1, len(got) // 3)]:
        chk.sample(dict(kind=h["kind"], init=h.get("init"), ops=h["ops"][:8]), limit=8)
    nops = sum(len(h["ops"]) for h in hs)
    chk.extra["operations"] = chk.extra.get("operations", 0) + nops
    chk.log(f"{what}: {len(hs)} histories of {nops} operations, {bad} deviate")


HOWS = ["same", "less", "first", "value", "swap"]


def map_op(rng, k):
    """the rest of what a mapping offers"""
    r = rng.random()
    if r < .2:
        return dict(op="contains", k=k)
    if r < .4:
        return dict(op="getd", k=k, v=rng.randint(100, 109))
    if r < .6:
        return dict(op="copy", how=rng.choice(["pickle", "deep"]), k=k)
    if r < .8:
        return dict(op="items", k=k)
    return dict(op="eq", how=rng.choice(HOWS), kv=[], k=k)


BINS_TAIL = [dict(op="keys"), dict(op="values"), dict(op="len"), dict(op="total")]
STYLES = ["int", "float", "frac", "mixed", "huge", "near", "tiny", "thirds"]


def D01(chk):
    rng = random.Random(f"D01-{chk.seed}")
    em = explore(chk, "MCBins", {"Depth": chk.pick(2, 3)},
                 ["NearestOK", "MonotoneOK", "Shrinks"], props=["Conserves"])
    hs = [dict(kind="bins", init=x["init"], ops=x["ops"] + [dict(o) for o in BINS_TAIL],
               style=STYLES[i % 8], src=("list", "iter", "tuple", "dict")[i // 8 % 4])
          for i, x in enumerate(em)]
    histories(chk, hs, "all short histories")
    hs = []
    for _ in range(chk.pick(1500, 12000)):
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
        span = rng.choice([8, 40, 400])
        init = [rng.randint(-span, span) * rng.choice([1, 2, 4]) for _ in range(n)]
        if rng.random() < .9:
            init = list(dict.fromkeys(init))
        elif init:
            init.append(rng.choice(init))
        ops = []
        for _ in range(rng.randint(1, 40)):
            r = rng.random()
            if r < .35 and init:
                k = rng.choice(init) + rng.choice([0, 0, 1, -1, 2, -2])
                if len(init) > 1 and rng.random() < .4:
                    a, b = rng.sample(init, 2)
                    k = (a + b) // 2
            else:
                k = rng.randint(-2 * span - 9, 2 * span + 9)
            r = rng.random()
            if r < .3:
                ops.append(dict(op="get", k=k))
            elif r < .65:
                ops.append(dict(op="add", k=k, v=rng.randint(-3, 9)))
            elif r < .75:
                ops.append(dict(op="set", k=k, v=rng.randint(-3, 99)))
            elif r < .82:
                ops.append(dict(op=rng.choice(["del", "del", "pop"]),
                                k=rng.choice(init) if init and rng.random() < .8 else k))
            elif r < .84:
                ops.append(dict(op="update", kv=[[rng.randint(-span, span), rng.randint(0, 9)]
                                                 for _ in range(rng.randint(0, 4))]))
            elif r < .86:
                ops.append(rng.choice([dict(op="popitem"), dict(op="setdef", k=k, v=55),
                                       dict(op="clear") if rng.random() < .2 else dict(op="items")]))
            elif r < .95:
                ops.append(map_op(rng, k))
            else:
                ops.append(dict(rng.choice(BINS_TAIL + [dict(op="intervals")])))
        hs.append(dict(kind="bins", init=init, ops=ops + [dict(o) for o in BINS_TAIL],
                       style=rng.choice(STYLES), src=rng.choice(["list", "iter", "tuple", "dict"])))
    histories(chk, hs, "generated histories")


FAMS = ["int", "float", "neg", "str", "tuple", "frac", "bytes", "bigint", "huge", "near", "tiny"]
FLOOR_TAIL = [dict(op="len", k=0), dict(op="keys", k=0), dict(op="values", k=0)]


def D02(chk):
    rng = random.Random(f"D02-{chk.seed}")
    em = explore(chk, "MCFloor", {"Universe": chk.pick("{1, 2, 4, 7, 8}", "{1, 2, 4, 7, 8, 12, 13}"),
                                  "KeyMax": chk.pick(9, 14)}, ["FloorOK"], props=["Frozen"])
    hs = []
    for i, x in enumerate(em):
        for fam in FAMS:
            init = x["init"][:]
            rng.shuffle(init)
            hs.append(dict(kind="floor", init=init, style=fam,
                           ops=[dict(op="get", k=k) for k in range(0, 15)]
                           + [dict(o) for o in FLOOR_TAIL]))
    histories(chk, hs, "all lookups in small mappings")
    hs = []
    for _ in range(chk.pick(1500, 12000)):
        n = rng.choice([0, 1, 2, 3, 5, 10, 30])
        keys = rng.sample(range(0, 200), n)
        init = [[k, rng.randint(-9, 9)] for k in keys]
        ops = []
        for _ in range(rng.randint(1, 30)):
            if rng.random() < .8:
                k = rng.randint(0, 210)
                if keys and rng.random() < .6:
                    k = max(0, rng.choice(keys) + rng.choice([-1, 0, 1]))
                ops.append(dict(op="get", k=k))
            elif rng.random() < .6:
                ops.append(map_op(rng, rng.randint(0, 210)))
            else:
                ops.append(dict(rng.choice(FLOOR_TAIL)))
        hs.append(dict(kind="floor", init=init, style=rng.choice(FAMS),
                       ops=ops + [dict(o) for o in FLOOR_TAIL]))
    histories(chk, hs, "generated lookups")


DEFAULT = {"none": -7, "int": 0, "five": 5, "list": []}
LIST_TAIL = [dict(op="len"), dict(op="all")]


def list_ops(rng, count, factory, look):
    ops = []
    size = 0       # a guess, to aim at the edges

    def idx():
        r = rng.random()
        if r < .5:
            return rng.randint(-size - 1, size + 1)
        if r < .51:
            return rng.randint(20, 70)
        return rng.randint(-4, 6)

    def bound():
        return NONE if rng.random() < .3 else idx()

    lists = factory == "list"
    for _ in range(count):
        r = rng.random()
        v = rng.randint(1, 9)
        sl = dict(a=bound(), b=bound(), step=rng.choice([NONE, NONE, 1, 2, 3, -1, -2, 0]))
        if r < .10:
            o = dict(op="get", i=idx())
        elif r < .24:
            o = dict(op="push", i=idx(), v=v) if lists else dict(op="set", i=idx(), v=v)
            size += 1
        elif r < .34:
            o = dict(op="del", i=idx())
        elif r < .42:
            o = dict(op="getslice", **sl)
        elif r < .46:
            o = dict(op="slicemut", **sl)
        elif r < .58:
            o = dict(op="delslice", **sl)
        elif r < .74:
            vs = [[x] if lists else x for x in rng.sample(range(10, 90), rng.randint(0, 4))]
            o = dict(op="setslice", vs=vs, **sl)
            size += len(vs)
        elif r < .82:
            o = dict(op="insert", i=idx(), v=[v] if lists else v)
            size += 1
        elif r < .86:
            o = dict(op="append", v=[v] if lists else v)
            size += 1
        elif r < .88:
            o = dict(op="extend", vs=[[x] if lists else x for x in range(rng.randint(0, 3))])
        elif r < .93:
            o = dict(op="pop", i=rng.choice([NONE, idx()]))
        elif r < .97:
            o = dict(op=rng.choice(["remove", "index", "count", "contains"]),
                     v=[v] if lists else rng.choice([v, DEFAULT[factory]])) if factory != "none" \
                else dict(op="reverse")
        else:
            o = dict(op=rng.choice(["reverse", "clear", "reversed", "reverse"]))
            if o["op"] == "clear":
                size = 0
        if rng.random() < .1:
            o = rng.choice([
                dict(op="eq", seq=rng.random() < .9, vs=[],
                     how=rng.choice(["same", "same", "longer", "shorter", "rest", "value", "turned"])),
                dict(op="eq", seq=rng.random() < .9, vs=[],
                     how=rng.choice(["same", "same", "longer", "shorter", "rest", "value", "turned"])),
                dict(op="copy", how=rng.choice(["pickle", "deep"])), dict(op="repr"), dict(op="badkey"),
                dict(op="extendself") if not lists and size < 6 else dict(op="repr"),
                dict(op="setself", i=idx()) if not lists and size < 6 else dict(op="len"),
                dict(op="slicegrow", i=rng.randint(0, 4), **sl)])
        ops.append(o)
        if rng.random() < look:
            ops.append(dict(rng.choice(LIST_TAIL)))
        size = min(size, 9)
    return ops


def D03(chk):
    rng = random.Random(f"D03-{chk.seed}")
    out_view = "VIEW View\n"
    em = explore(chk, "MCDList", {"Builds": chk.pick(3, 4), "MaxI_": chk.pick(3, 4),
                                  "Wide": chk.pick("FALSE", "TRUE")}, [],
                 props=["Frame", "SpliceOK", "DelOK"], more=out_view)
    hs = []
    for i, x in enumerate(em):
        f = ("int", "five", "int", "none")[i % 4]
        if f != "int" and any(o["op"] in ("remove", "index", "count", "contains")
                              for o in x["ops"]):
            f = "int"
        hs.append(dict(kind="dlist", factory=f, d=DEFAULT[f], init=[],
                       style=("int", "iter", "tuple", "bare", "scalar")[i % 5],
                       ops=x["ops"] + [dict(o) for o in LIST_TAIL]))
    histories(chk, hs, "every operation on every small list")
    hs = []
    for _ in range(chk.pick(6000, 40000)):
        f = rng.choice(["int", "int", "five", "none", "list"])
        look = rng.choice([0, 0, .1, .5])
        hs.append(dict(kind="dlist", factory=f, d=DEFAULT[f], init=[],
                       style=rng.choice(["int", "iter", "tuple", "bare", "scalar", "iadd"])
                       if f != "list" else "int",
                       ops=list_ops(rng, rng.randint(1, 25), f, look)
                       + [dict(o) for o in LIST_TAIL]))
    histories(chk, hs, "generated histories")


CONT = dict(D01=D01, D02=D02, D03=D03)
