"""P01: the progress of tests against spec/Progress.tla."""
import random

import gen
from anychecks import TESTS
from calls import raw
from statchecks import explore
from vlib import read_lines, write_lines


def P01(chk):
    rng = random.Random(f"P01-{chk.seed}")
    explore(chk, "MCProgress", {"NTests": chk.pick(3, 4), "Steps": chk.pick(4, 4)},
            ["WithinOK", "TurnsOK", "OverOK", "LegalOK", "AcceptOK", "RejectOK"],
            props=["ForwardOK", "EndOK"])
    jobs = []

    def job(mode, n, **kw):
        b = kw.pop("bits", None) or gen.bits(rng, n)
        jobs.append(dict(mode=mode, enc=raw(b), n=len(b), test="", par={}, **kw)
                    if mode == "all" else dict(dict(mode=mode, enc=raw(b), n=len(b)), **kw))

    for t in TESTS:
        for i in range(chk.pick(30, 300)):
            n = gen.size(rng, 2, 1500)
            if t == "longest_runs" and rng.random() < .9:
                n = rng.choice([128, 129, 136, 255, 256, 1000, 6272, 6300])
            par = gen.params(rng, t, n)
            if t == "maurers_universal" and rng.random() < .1:
                par = dict(blocksize=17)
            job("one" if i % 3 else "cli", n, test=t, par=par, series=i % 2)
        for n in (1, 2, 3, 4, 7, 8, 9, 127, 128):
            job("one", n, test=t, par={})
    for m in range(1, 12):
        for n in (m + 1, 20, 333):
            for t in ("serial", "approximate_entropy"):
                job("one", max(n, 2, m + 1), test=t, par=dict(blocksize=m))
    for n in [2, 3, 4, 5, 7, 8, 9, 20, 99, 100, 127, 128, 129, 200, 400, 999, 1000] + \
            [rng.randint(2, 700) for _ in range(chk.pick(8, 100))]:
        job("all", n)
    for n in (9, 129):
        job("all", n, bits=[0] * (n - 1) + [1])
        job("one", n, bits=[0] * (n - 1) + [1], test="spectral", par={})
    for i, j in enumerate(jobs):
        j["id"] = i
    jp, tp = chk.fresh("jobs"), chk.fresh("trace.ndjson")
    write_lines(jp, jobs)
    chk.impl("recprogress.py", jp, tp)
    got = read_lines(tp)
    vs = chk.validate("TraceProgress", tp, [.02 + len(g["log"]) / 2000 for g in got])
    bad, seen = 0, {}
    for j, g, v in zip(jobs, got, vs):
        who = f"{j['test']}(n={j['n']}, {j['par']})" if j["mode"] != "all" else f"all tests of n={j['n']}"
        kind = g["log"][-1]["k"]
        seen[j["mode"], kind] = seen.get((j["mode"], kind), 0) + 1
        m = []
        if v["bad"]:
            k = v["bad"]
            e = g["log"][k - 1] if k <= len(g["log"]) else "its end"
            m.append(f"its progress is wrong at event {k}: {e} {g['err']}")
        if not v["same"]:
            m.append(f"its result is not that without progress (tests {[i for i, x in enumerate(g['fp'], 1) if not x]})")
        if not v["quiet"]:
            m.append("it warns although its progress is followed")
        if m:
            bad += 1
            chk.violation(f"{who}, {j['mode']}: {m[0]}", job=j, mismatches=m, log=g["log"][:60])
    for j, g in list(zip(jobs, got))[:: len(jobs) // 5]:
        chk.sample(dict(test=j["test"] or "all", n=j["n"], par=j["par"],
                        log=[[e["k"], e["t"], e["x"], e["m"]] for e in g["log"][:12]]))
    chk.extra["outcomes"] = {f"{a}:{b}": n for (a, b), n in seen.items()}
    chk.log(f"{len(jobs)} logs {seen}: {bad} deviate")


PROG = dict(P01=P01)
