"""A03: sessions of calls against spec/Session.tla."""
import random

import gen
from calls import raw, rle
from statchecks import explore
from vlib import read_lines, write_lines

TESTS = ["monobit", "frequency_within_block", "runs", "longest_runs", "binary_matrix_rank",
         "spectral", "non_overlapping_template_matching", "overlapping_template_matching",
         "maurers_universal", "linear_complexity", "serial", "approximate_entropy", "cusum",
         "random_excursions", "random_excursions_variant"]
PARS = {
    "frequency_within_block": [{"blocksize": 8}, {"blocksize": 9}, {"blocksize": 8}],
    "binary_matrix_rank": [{"nrows": 3, "ncols": 3}, {"nrows": 3, "ncols": 4},
                           {"nrows": 4, "ncols": 3}],
    "non_overlapping_template_matching": [{"template_size": 2, "blocksize": 16},
                                          {"template_size": 3, "blocksize": 16},
                                          {"template_size": 2, "blocksize": 20}],
    "overlapping_template_matching": [{"template_size": 2, "blocksize": 16},
                                      {"template_size": 3, "blocksize": 16},
                                      {"template_size": 2, "blocksize": 16, "matches_ceil": 3}],
    "maurers_universal": [{"blocksize": 2, "init_nblocks": 5}, {"blocksize": 3, "init_nblocks": 5},
                          {"blocksize": 2, "init_nblocks": 9}],
    "linear_complexity": [{"blocksize": 8}, {"blocksize": 9}, {"blocksize": 16}],
    "serial": [{"blocksize": 2}, {"blocksize": 3}, {"blocksize": 4}],
    "approximate_entropy": [{"blocksize": 2}, {"blocksize": 3}, {"blocksize": 4}],
    "cusum": [{}, {"reverse": 1}, {"reverse": 0}],
}
GROUP = 16


def library(rng):
    """GROUP calls of each test"""
    lib = []
    for test in TESTS:
        n = 160
        a, b = gen.coin(rng, n), gen.walkish(rng, n)
        p = PARS.get(test, [{}, {}, {}])
        calls = [
            dict(enc=raw(a), par=p[0]), dict(enc=raw(b), par=p[0]),
            dict(enc=raw(a), par=p[1]), dict(enc=raw(a), par=p[2]), dict(enc=raw(a), par={}),
            dict(enc=raw(a), par=p[0], values=[False, True]),
            dict(enc=raw(a), par=p[0], values=[0.0, 1.0]),
            dict(enc=raw(b), par=p[0], rep="01/ndarray"),
            dict(enc=raw(b), par=p[1], rep="01/series"),
            dict(enc=raw(a), par=p[0], rep="ab/revindex"),
            dict(enc=raw(a), par=p[0], slot="array"), dict(enc=raw(b), par=p[0], slot="array"),
            dict(enc=raw(a + b), par=p[1], slot="list"),
            dict(enc=rle([(1, n)]), par=p[0]), dict(enc=raw([1]), par={}),
            dict(enc=raw(b), par=p[0], temp=1),
        ]
        assert len(calls) == GROUP
        lib += [dict(c, test=test, impl="rt") for c in calls]
    return lib


def refs(rng):
    """more calls, of the reference implementation"""
    lib = []
    for test in TESTS:
        a, b = gen.coin(rng, 160), gen.walkish(rng, 160)
        p = PARS.get(test, [{}, {}, {}])
        for bits, par in ((a, p[0]), (b, p[1])):
            lib.append(dict(enc=raw(bits), par={k: v for k, v in par.items()
                                                if k != "matches_ceil"}, test=test, impl="ref"))
    return lib


def A03(chk):
    rng = random.Random(f"A03-{chk.seed}")
    explore(chk, "MCSession", {"NCalls": 6, "Group": 6, "Cap": 2, "Depth": 4, "EmitOn": "FALSE",
                               "Coarse": "FALSE"}, ["Pure"], props=["Held"])
    explore(chk, "MCSession", {"NCalls": 6, "Group": 6, "Cap": 2, "Depth": 4, "EmitOn": "FALSE",
                               "Coarse": "TRUE"}, ["ShortOK"], props=["Held"])
    em = explore(chk, "MCSession", {"NCalls": GROUP * 15, "Group": GROUP, "Cap": 2,
                                    "Depth": 2, "EmitOn": "TRUE", "Coarse": "FALSE"},
                 ["Pure"], props=["Held"])
    sessions(chk, rng, em)


def sessions(chk, rng, em):
    lib = library(rng) + refs(rng)
    n = len(lib)
    ss = [dict(calls=[c]) for c in range(n)]
    ss += [dict(calls=x["calls"]) for x in em]
    for _ in range(chk.pick(900, 40000)):
        ss.append(dict(calls=rng.sample(range(n), 2)))
    for _ in range(chk.pick(500, 8000)):
        g = rng.randrange(15) * GROUP
        ss.append(dict(calls=[g + rng.randrange(GROUP) for _ in range(rng.choice([3, 4, 6]))]))
    for _ in range(chk.pick(160, 2500)):
        ss.append(dict(calls=[rng.randrange(n) for _ in range(rng.randint(6, 20))]))
    for i, s in enumerate(ss):
        s["id"] = i
    lp, sp, tp, dp, mp = (chk.fresh(x) for x in
                          ("lib", "sessions", "trace.ndjson", "digests", "memo.ndjson"))
    write_lines(lp, lib)
    write_lines(sp, ss)
    chk.impl("recsession.py", lp, sp, tp, dp, timeout=850)
    got = read_lines(tp)
    write_lines(mp, [dict(call=i, out=got[i]["steps"][0]["out"]) for i in range(n)])
    vs = chk.validate("TraceSession", tp, [.05 + .02 * len(s["calls"]) for s in ss],
                      env=dict(MEMO=mp))
    bad = 0
    for s, v in zip(ss, vs):
        if not v["bad"]:
            continue
        bad += 1
        k = v["bad"]
        calls = [f"{lib[c]['test']}({lib[c].get('rep') or lib[c].get('values') or lib[c].get('slot') or ''}"
                 f" {lib[c]['par']})" for c in s["calls"][:k]]
        what = dict(outcome="gives another outcome than in a fresh process",
                    held="changes a result returned before",
                    input="changes a sequence it was given")[v["why"]]
        chk.violation(f"{calls[-1]} {what}, after {calls[:-1]}", calls=[lib[c] for c in s["calls"]],
                      step=k)
    chk.sample(dict(session=[lib[c]["test"] for c in ss[-1]["calls"]]))
    chk.sample(dict(session=ss[n + 5]["calls"]))
    chk.extra["sessions"] = len(ss)
    chk.extra["library"] = n
    chk.log(f"{len(ss)} sessions of {sum(len(s['calls']) for s in ss)} calls, {bad} deviate")


PURE = dict(A03=A03)
