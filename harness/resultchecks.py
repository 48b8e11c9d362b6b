"""A08: results as values, against spec/Results.tla."""
import random

import gen
from calls import raw, rle
from purecheck import PARS, TESTS
from statchecks import explore
from vlib import read_lines, write_lines

LABELS = ["01", "ab", "f01", "-11", "10_9", "ts", "bool", "uni"]
WAYS = {"01": ["list", "ndarray", "series", "tuple", "Int64"], "ab": ["list", "series", "category"],
        "f01": ["list", "ndarray", "float32"], "-11": ["list", "int8", "series"],
        "10_9": ["list", "tuple"], "ts": ["list", "series"], "bool": ["list", "ndarray", "boolean"],
        "uni": ["list", "series"]}


def alike(rng):
    """two calls which say the same, and one which says something else"""
    test = rng.choice(TESTS)
    n = rng.choice([129, 160, 200, 257, 400]) if rng.random() < .9 else 2000
    b = rng.choice([gen.coin, gen.walkish])(rng, n)
    b[0] = 1 - b[1]
    p = rng.choice(PARS.get(test, [{}]) + [{}])
    la = rng.choice(LABELS)
    ways = [rng.choice(WAYS[la]) for _ in range(2)]
    calls = [dict(test=test, enc=raw(b), par=p, rep=f"{la}/{w}") for w in ways]
    kind = rng.randrange(5)
    other = dict(calls[0])
    if kind == 0:
        other["test"], other["par"] = rng.choice(TESTS), {}
    elif kind == 1:
        other["par"] = rng.choice(PARS.get(test, [{}]) + [{}])
    elif kind == 2:
        c = list(b)
        c[rng.randrange(2, n)] ^= 1
        other["enc"] = raw(c)
    elif kind == 3:
        other["enc"] = raw(b[::-1])
    else:
        la = rng.choice(LABELS)
        other["rep"] = f"{la}/{rng.choice(WAYS[la])}"
    return [*calls, other]


def concrete(rng, i, ops):
    out = []
    for op in ops:
        op = {k: v for k, v in op.items() if k != "base"}
        if op["k"] == "deep":
            op["how"] = rng.choice(["deepcopy", "0", "1", "2", "3", "4", "5"])
        out.append(op)
    return dict(id=i, calls=alike(rng), ops=out)


def some_ops(rng, k):
    ops, n = [], 0
    while len(ops) < k:
        kind = rng.choice(["call", "call", "copy", "deep", "deep", "top", "inner"]) if n else "call"
        if kind == "call":
            ops.append(dict(k="call", c=rng.randrange(3)))
        else:
            ops.append(dict(k=kind, i=rng.randint(1, n)))
        n += kind in ("call", "copy", "deep")
    return ops


def A08(chk):
    rng = random.Random(f"A08-{chk.seed}")
    em = explore(chk, "MCResults", {"NCalls": 3, "Depth": chk.pick(4, 5), "EmitOn": "TRUE"},
                 ["Equivalence", "Plain", "Accepts", "Rejects"],
                 props=["EditLocal", "EditOthers", "CopyEqual"])
    if chk.thorough and len(em) > 20000:
        em = rng.sample(em, 20000)
    hs = [concrete(rng, i, x["ops"]) for i, x in enumerate(em)]
    for _ in range(chk.pick(300, 3000)):
        hs.append(concrete(rng, len(hs), some_ops(rng, rng.randint(5, 10))))
    for test in TESTS:
        for enc in ([1, 1, 1, 1], [1], [0, 1] if test in ("longest_runs", "binary_matrix_rank")
                    else [0, 0]):
            for how in ("deepcopy", "0", "2", "4", "5"):
                hs.append(dict(id=len(hs), how=how, calls=[dict(test=test, enc=raw(enc), par={})]))
        hs.append(dict(id=len(hs), how="3", calls=[dict(test=test, enc=rle([(1, 70000)]), par={})]))
    hp, tp = chk.fresh("histories.ndjson"), chk.fresh("trace.ndjson")
    write_lines(hp, hs)
    chk.impl("recresults.py", hp, tp, timeout=850)
    trace = read_lines(tp)
    vs = chk.validate("TraceResults", tp, [.2 + .3 * len(t.get("steps", [])) for t in trace])
    what = dict(equality="do not compare as their contents do", inequality="!= is not the opposite of ==",
                contents="a copy differs, or an edit shows elsewhere", membership="is not found in a list",
                text="results of equal contents print differently",
                statistics="statistics are not those of the sub-results",
                pvalues="pvalues are not those of the sub-results",
                min="min is not the first sub-result of least p-value")
    bad = 0
    for h, v in zip(hs, vs):
        if v["bad"]:
            bad += 1
            c = h["calls"][0]
            chk.violation(f"results of {sorted({c['test'] for c in h['calls']})}: "
                          f"{what.get(v['why'], v['why'] + ' is lost by a copy')}, after "
                          f"{[(o['k'], o.get('c', o.get('i'))) for o in h.get('ops', [])[:v['bad']]]}",
                          history=h, par=c["par"])
    chk.sample(dict(test=hs[0]["calls"][0]["test"], ops=hs[len(em) // 2]["ops"]))
    chk.sample(dict(test=hs[len(em)]["calls"][0]["test"], ops=hs[len(em)]["ops"]))
    chk.extra["histories"] = len(hs)
    chk.log(f"{len(hs)} histories, {bad} deviate")


RESULTS = dict(A08=A08)
