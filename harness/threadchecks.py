"""A07: overlapping calls against spec/Threads.tla."""
import json
import random

import gen
from calls import raw
from purecheck import PARS, TESTS
from statchecks import explore
from vlib import read_lines, write_lines

PER = 6


def library(rng, chk):
    lib = []
    for test in TESTS:
        p = PARS.get(test, [{}, {}, {}])
        for k in range(PER):
            n = [160, 160, 160, 128, 200, 300][k]
            bits = gen.coin(rng, n) if k % 2 else gen.walkish(rng, n)
            if len(set(bits)) < 2:
                bits[0] = 1 - bits[0]
            lib.append(dict(enc=raw(bits), par=p[[0, 0, 1, 2, 0, 1][k]], test=test, impl="rt",
                            rep=[None, None, "01/series", None, "01/ndarray", None][k]))
        # on one sequence
        lib.append(dict(lib[-PER], par=p[1]))
        # refused
        lib.append(dict(enc=raw([1] * 50 if len(lib) % 2 else [1]), par={}, test=test, impl="rt", rep=None))
    n = len(lib)
    for test in TESTS:
        p = PARS.get(test, [{}, {}, {}])
        for k in range(2):
            lib.append(dict(enc=raw(gen.coin(rng, 160)), test=test, impl="ref", rep=None,
                            par={a: b for a, b in p[k].items() if a != "matches_ceil"}))
    return lib, n


def A07(chk):
    rng = random.Random(f"A07-{chk.seed}")
    inv = ["ScheduleOK", "Pure", "SharedShows", "OverlapOK"]
    two = explore(chk, "MCThreads", {"K": 2, "Steps": chk.pick(6, 8), "Bound": 3, "Shared": "FALSE",
                                     "EmitOn": "TRUE"}, inv, props=["Ends"])
    three = explore(chk, "MCThreads", {"K": 3, "Steps": chk.pick(3, 4), "Bound": chk.pick(2, 3),
                                       "Shared": "FALSE", "EmitOn": "TRUE"}, inv, props=["Ends"])
    explore(chk, "MCThreads", {"K": 3, "Steps": 3, "Bound": 3, "Shared": "TRUE", "EmitOn": "FALSE"}, inv,
            props=["Ends"])
    lib, n = library(rng, chk)
    each = PER + 2
    jobs = []

    def add(calls, sched, steps):
        jobs.append(dict(id=len(jobs), calls=calls, turns=sched, steps=steps,
                         jitter=[round(rng.random(), 3) for _ in calls]))

    s2, s3 = chk.pick(6, 8), chk.pick(3, 4)
    for t in range(len(TESTS)):
        g = t * each
        ref = [n + 2 * t, n + 2 * t + 1]
        for x in rng.sample(two, min(len(two), chk.pick(60, 320))):
            a, b = rng.sample(range(g, g + each - (rng.random() < .8)), 2)
            add([a, b], x["turns"], s2)
        for x in rng.sample(three, min(len(three), chk.pick(12, 90))):
            add(rng.sample(range(g, g + each), 3), x["turns"], s3)
        for x in rng.sample(two, chk.pick(6, 30)):
            add(ref, x["turns"], s2)
            add([rng.choice(ref), rng.randrange(g, g + each)], x["turns"], s2)
        for k in range(chk.pick(2, 15)):
            jobs.append(dict(id=len(jobs), calls=[rng.randrange(g, g + each) for _ in range(4)], turns=[],
                             steps=1, jitter=[0] * 4, free=1))
    for x in rng.sample(two, chk.pick(250, 500)) * chk.pick(1, 3):
        add([rng.randrange(len(lib)), rng.randrange(len(lib))], x["turns"], s2)
    lp, jp, tp = chk.fresh("lib"), chk.fresh("jobs"), chk.fresh("trace.ndjson")
    write_lines(lp, lib)
    write_lines(jp, jobs)
    chk.impl("recthreads.py", lp, jp, tp, timeout=850)
    chk.log(f"recorded {len(jobs)} schedules of {sum(len(j['calls']) for j in jobs)} calls")
    vs = chk.validate("TraceThreads", tp, [.02] * len(jobs))
    got = read_lines(tp)
    names = json.load(open(tp + ".names"))
    over = bad = 0
    for j, e, v in zip(jobs, got, vs):
        over += v["over"] >= 1
        calls = [f"{lib[c]['impl']}.{lib[c]['test']}({lib[c]['par']})" for c in j["calls"]]
        if v["bad"] or not v["input"]:
            bad += 1
            if bad > 30:
                continue
            p = v["bad"][0] if v["bad"] else 0
            why = "the sequence given to them is changed" if not p else \
                f"{calls[p - 1]} gives {diff(names[e['outs'][p - 1]], names[e['alone'][p - 1]])}"
            chk.violation(f"{' and '.join(calls)} at once, in turns {e['turns'][:6]}: {why}",
                          calls=[lib[c] for c in j["calls"]], job=j)
        elif not v["valid"]:
            raise RuntimeError(f"not a schedule: {e}")
    chk.extra["schedules"] = len(jobs)
    chk.extra["overlapping"] = over
    chk.sample(dict(calls=[lib[c]["test"] for c in jobs[0]["calls"]], turns=got[0]["turns"]))
    chk.log(f"{len(jobs)} schedules, {over} of which overlap, {bad} deviate")


def diff(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"..{a[max(0, k - 40):k + 40]!r}, alone ..{b[max(0, k - 40):k + 40]!r}"


THREADS = dict(A07=A07)
