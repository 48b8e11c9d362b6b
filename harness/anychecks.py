"""Checks of the properties which all statistical tests share (A01 .. A06), and of the
reference implementation (S13)."""
import random

import gen
import represent_names as rn
from calls import decode, length, raw, rle
import statchecks
from statchecks import around, emitted_calls, explore, explore_all, run_calls, taken
from terms import Evaluator
from vlib import read_lines, write_lines

TESTS = ["monobit", "frequency_within_block", "runs", "longest_runs", "binary_matrix_rank",
         "spectral", "non_overlapping_template_matching", "overlapping_template_matching",
         "maurers_universal", "linear_complexity", "serial", "approximate_entropy", "cusum",
         "random_excursions", "random_excursions_variant"]
MIN = {"frequency_within_block": 8, "binary_matrix_rank": 4, "maurers_universal": 4}
CONTAINERS = ["list", "tuple", "objarray", "series", "objseries"]
EXTRA = {"int": ["Int64", "category", "unusedcat", "ndarray"], "na": ["Int64", "boolean"],
         "float": ["ndarray", "Float64", "category"], "str": ["string", "category", "ndarray"],
         "bool": ["boolean_"], "float2": ["ndarray"], "inf": ["ndarray"]}
FAMILIES = ["int", "int2", "float", "float2", "str", "str2", "bool", "ts", "na", "dec", "bytes",
            "date", "inf", "big"]


def A01(chk):
    rng = random.Random(f"A01-{chk.seed}")
    em = explore(chk, "MCGate", {"MaxN": chk.pick(6, 8), "EmitN": chk.pick(4, 5)},
                 ["Agrees", "Nested"], props=["Monotone"])
    calls = []

    def add(test, s, family=None, container=None):
        family = family or rng.choice(FAMILIES)
        if container is None:
            container = rng.choice(CONTAINERS + [c for c in EXTRA.get(family, []) if c[-1] != "_"])
        if container == "ndarray" and 3 in s and family in ("int", "str"):
            container = "objarray"
        if container == "boolean" and not set(s) <= {0, 1, 3}:
            container = "list"
        if container == "unusedcat" and not s:
            container = "list"
        calls.append(dict(id=len(calls), test=test, s=s, family=family, container=container))

    for x in em:
        for test in TESTS:
            add(test, x["s"])
    for test in TESTS:
        m = MIN.get(test, 2)
        for fam in FAMILIES:
            for c in CONTAINERS + [c for c in EXTRA.get(fam, []) if c[-1] != "_"]:
                for n in (0, 1, m - 1, m, m + 1, 20):
                    s = [i % 2 for i in range(n)]
                    rng.shuffle(s)
                    add(test, s, fam, c)
                s = [rng.randrange(2) for _ in range(rng.randint(3, 40))] + [0, 1]
                k = rng.randrange(len(s))
                if rng.random() < .5 or c in ("boolean", "unusedcat"):
                    add(test, s[:k] + [3] + s[k:], fam, c)       # one missing value
                else:
                    add(test, s[:k] + [2] + s[k:], fam, c)       # one third value
        # every length: no other exception from any accepted sequence
        for n in list(range(2, chk.pick(140, 300))) + around(152, 256, 500, 512, 1000) + \
                [gen.size(rng, 140, 2500) for _ in range(chk.pick(8, 60))]:
            add(test, gen.bits(rng, n), "int", "list")
        for n in (3, 5, 7, 9, 127, 129, 131):
            add(test, [0] * (n - 1) + [1], "int", "list")
            add(test, [1] * n, "int", "list")
        # a single value which does not belong, anywhere in a long sequence
        for n in (gen.size(rng, 100, 5000), 10007, rng.randint(30000, chk.pick(40000, 300000))):
            for odd in ([2], [3], [2, 3]):
                s = gen.bits(rng, n)
                for v in odd:
                    s[rng.choice([0, -1, -2, rng.randrange(n), rng.randrange(n), rng.randrange(n)])] = v
                fam = rng.choice(["int", "float", "str", "bytes", "big", "ts", "bool"])
                add(test, s, fam, rng.choice(["list", "tuple", "objarray", "objseries"]
                                             + ["ndarray", "series"] * (fam == "float")))
            add(test, [1] * rng.choice([n, 1000]), "int", rng.choice(["list", "ndarray", "series"]))
    cp, tp = chk.path("calls.ndjson"), chk.path("trace.ndjson")
    write_lines(cp, calls)
    chk.impl("reccount.py", cp, tp)
    chk.log(f"recorded {len(calls)} calls")
    vs = chk.validate("TraceGate", tp, [1] * len(calls))
    counts = {}
    for c, v, g in zip(calls, vs, read_lines(tp)):
        counts[v["want"]] = counts.get(v["want"], 0) + 1
        if not v["ok"]:
            chk.violation(f"{c['test']} of {len(c['s'])} values (as {c['container']} of "
                          f"{c['family']}): {g['status']} {g['carried'] or ''} "
                          f"({g.get('error', '')}), should be {v['want']}", call=c)
    for c in rng.sample(calls, 5):
        chk.sample(c | dict(s=c["s"][:40]))
    chk.extra["outcomes"] = counts
    chk.log(f"compared {len(calls)} outcomes: {counts}")
    # parameters beyond the implemented ones
    ts = []
    for L in (17, 18, 20, 25):
        ts.append(("maurers_universal", raw(gen.bits(rng, L * 4)), {"blocksize": L}))
        ts.append(("maurers_universal", raw(gen.bits(rng, L * 4)),
                   {"blocksize": L, "init_nblocks": 2}))
    run_calls(chk, ts, values=False)


def A02(chk):
    rng = random.Random(f"A02-{chk.seed}")
    em = explore(chk, "MCGate", {"MaxN": chk.pick(6, 8), "EmitN": chk.pick(5, 6)},
                 ["Agrees", "Nested"], props=["Monotone"])
    small = [x["s"] for x in em if set(x["s"]) == {0, 1}]
    reps = rn.all_reps()
    chk.extra["representations"] = len(reps)
    ts = []
    lengths = [n for n in range(8, 41)] + [100, 128, 129, 160, 200, 304]
    for rep in reps:
        for test in TESTS:
            n = rng.choice(lengths)
            if test == "longest_runs":
                n = max(n, 128)
            ts.append((test, raw(gen.bits(rng, n)), small_params(rng, test, n), {"rep": rep}))
    for s in small:
        for test in TESTS:
            ts.append((test, raw(s), {}, {"rep": rng.choice(reps)}))
    if chk.thorough:
        for rep in reps:
            for test in TESTS:
                for _ in range(3):
                    n = gen.size(rng, 128, 1500)
                    ts.append((test, raw(gen.bits(rng, n)), gen.params(rng, test, n), {"rep": rep}))
    run_calls(chk, ts, recs=True)


def small_params(rng, test, n):
    p = gen.params(rng, test, n) if rng.random() < .5 else {}
    if test == "overlapping_template_matching" and p.get("template_size", 1) > n:
        p = {}
    return p


def A04(chk):
    rng = random.Random(f"A04-{chk.seed}")
    jobs = []
    for module, const, inv in (
            ("MCFreq", {"MaxN": 8, "EmitN": 8}, ["MonobitOK"]),
            ("MCRuns", {"MaxN": 9, "EmitN": 9}, ["RunsOK"]),
            ("MCDft", {"MaxN": 8, "EmitN": 8}, ["LengthOK"]),
            ("MCTemplate", {"MaxN": 6, "EmitN": 6, "Kind": '"non"'}, ["Compare"]),
            ("MCTemplate", {"MaxN": 6, "EmitN": 6, "Kind": '"over"'}, ["Compare"]),
            ("MCUniversal", {"MaxW": 5, "MaxL": 2, "EmitN": 8}, ["TotalOK"]),
            ("MCLfsr", {"MaxN": 7, "EmitN": 7, "DeclN": 0}, ["WholeOK"]),
            ("MCPattern", {"MaxN": 8, "EmitN": 8, "Kind": '"serial"'}, ["PairsOK"]),
            ("MCPattern", {"MaxN": 8, "EmitN": 8, "Kind": '"entropy"'}, ["PairsOK"]),
            ("MCWalk", {"MaxN": 9, "EmitN": 9, "Kind": '"cusum"'}, ["FarOK"]),
            ("MCWalk", {"MaxN": 8, "EmitN": 8, "Kind": '"excursions"'}, ["BinsSum"])):
        if chk.thorough:
            const = {k: (v + 2 if isinstance(v, int) and k != "MaxL" else v)
                     for k, v in const.items()}
        jobs.append((module, const, inv))
    ts = [t for lines in explore_all(chk, jobs) for t in emitted_calls(lines)]
    for test in TESTS:
        lo = 128 if test == "longest_runs" else MIN.get(test, 2)
        for n in sorted({lo, lo + 1, lo + 2, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100,
                         101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024,
                         1025, 2000, 2048, 4096}):
            if n < lo:
                continue
            for b in degenerate(rng, n):
                if 0 < sum(b) < n:
                    ts.append((test, raw(b), small_params(rng, test, n)))
                    if rng.random() < .3:
                        ts.append((test, raw(b), {}))
        for n in chk.pick([30000], [30000, 100001]):
            for enc in (rle([(1, 1), (0, n - 1)]), rle([(0, n // 2), (1, n // 2)]),
                        rle([(1, n - 1), (0, 1)])):
                ts.append((test, enc, {}))
    ts += [t for test in TESTS for t in gen.mixed(rng, test, chk.pick(40, 400),
                                                  128 if test == "longest_runs" else MIN.get(test, 2), 1500)]
    calls = [gen.call(i, t[0], t[1], t[2], mode="range") for i, t in enumerate(ts)]
    cp, tp, rp = (chk.path(x) for x in ("calls.ndjson", "trace.ndjson", "reals.ndjson"))
    write_lines(cp, calls)
    chk.impl("reccalls.py", cp, tp, rp, 8)
    chk.log(f"recorded {len(calls)} calls")
    vs = chk.validate("TraceRange", tp, [1 + c["n"] * .002 for c in calls])
    reals = read_lines(rp)
    bad = 0
    for c, v, r in zip(calls, vs, reals):
        if v["bad"]:
            bad += 1
            if bad < 20:
                chk.violation(f"{c['test']}(n={c['n']}, {c['par']}): {v['bad'][:6]}: "
                              f"{str(r.get('single') or r.get('sub') or r.get('error'))[:200]}",
                              call=c, got=r)
    for c, r in rng.sample(list(zip(calls, reals)), 6):
        chk.sample(dict(test=c["test"], n=c["n"], par=c["par"],
                        got=r.get("single") or (r.get("sub") or [None])[0]))
    chk.log(f"{len(calls)} calls, {bad} out of range")


def degenerate(rng, n):
    half = [0] * (n // 2) + [1] * (n - n // 2)
    k = rng.randint(1, 6)
    yield [i % 2 for i in range(n)]
    yield [1 - i % 2 for i in range(n)]
    yield half
    yield half[::-1]
    yield [0] * (n - 1) + [1]
    yield [1] + [0] * (n - 1)
    yield [0] + [1] * (n - 1)
    yield [1] * (n // 2) + [0] + [1] * (n - n // 2 - 1)
    yield [(i // k) % 2 for i in range(n)]
    yield [(i // 2) % 2 for i in range(n)]
    yield ([0, 0, 0, 1, 0, 1, 1, 1] * (n // 8 + 1))[:n]
    yield ([0, 0, 1, 1] * (n // 4 + 1))[:n]
    yield gen.periodic(rng, n, rng.randint(2, 9))


def params_calls(chk, calls, what, recs, params):
    """records calls with big sequences of few runs, judged by TraceParams"""
    cp, tp, rp = (chk.fresh(f"{x}.ndjson") for x in ("pcalls", "ptrace", "preals"))
    write_lines(cp, calls)
    chk.impl("reccalls.py", cp, tp, rp, 8)
    chk.log(f"recorded {len(calls)} calls {what}")
    vs = chk.validate("TraceParams", tp, [1] * len(calls), jobs=4)
    lines, reals = read_lines(tp), read_lines(rp)
    bad = unsettled = 0
    for c, v, line, real in zip(calls, vs, lines, reals):
        msgs = []
        if "status" in v:
            msgs.append(f"outcome {v['status']} ({real.get('error', '')})")
        else:
            if params:
                msgs += [f"{f} is {line['obs'][f]}, should be {v['want'][f]}" for f in v["params"]]
            if recs:
                fails = set(line["fail"])
                msgs += [f"recommendation {r!r} is {'' if r in fails else 'not '}reported as failed"
                         for r in v["recwhy"]]
                for label, _, t in v["recterms"]:
                    sign = Evaluator().ev(t)
                    unsettled += sign == 0
                    if sign > 0 and label in fails or sign < 0 and label not in fails:
                        msgs.append(f"recommendation {label!r} is "
                                    f"{'' if label in fails else 'not '}reported as failed")
                if v["warnings"]:
                    msgs.append(f"{line['nwarn']} warnings naming {line['named']} "
                                f"for the failures {line['fail']} ({line['nfail']})")
        if msgs:
            bad += 1
            if bad <= 20:
                chk.violation(f"{c['test']}(n={c['n']}, {c['par']}): {msgs[0]}", mismatches=msgs,
                              call=c)
    for c, line in list(zip(calls, lines))[::max(1, len(calls) // 3)]:
        chk.sample(dict(test=c["test"], n=c["n"], par=c["par"], in_effect=line["obs"],
                        failed=line["fail"]))
    chk.log(f"compared {len(calls)} calls: {bad} mismatches")
    chk.extra["lengths"] = len({(c["test"], c["n"]) for c in calls})


SLOW = {"non_overlapping_template_matching": 20001, "serial": 70000, "approximate_entropy": 70000,
        "linear_complexity": 300000, "overlapping_template_matching": 120000,
        "maurers_universal": 1000000, "spectral": 100000,
        "binary_matrix_rank": 200000, "random_excursions": 60000,
        "random_excursions_variant": 1100000}


def jumps(chk, quick_to, thorough_to):
    """lengths at which the specification's defaults or recommendations change"""
    top = chk.pick(quick_to, thorough_to)
    cuts = [1, top // 3, top * 2 // 3, top]
    spans = list(zip(cuts, cuts[1:])) + [(99995, 100005), (199995, 200005), (387830, 387850),
                                         (749995, 750005), (904955, 904965), (999995, 1000005)]
    return [x for lines in explore_all(chk, [("MCParams", {"From": lo, "To": hi},
                                              ["UsableOK", "RecsOK"]) for lo, hi in spans])
            for x in lines]


def A05(chk):
    rng = random.Random(f"A05-{chk.seed}")
    em = jumps(chk, 3000, 20000)
    calls = []

    def add(test, n, par):
        if n < (128 if test == "longest_runs" else MIN.get(test, 2)):
            return
        if n > SLOW.get(test, 10 ** 7) and not chk.thorough:
            return
        runs = max(2, min(n // 3, rng.choice([2, 3, 5, 9])))
        enc = gen.long_rle(rng, n, runs) if n > 8 else raw(gen.bits(rng, n))
        calls.append(gen.call(len(calls), test, enc, par, mode="params"))

    pts = {(x["test"], n) for x in em for n in (x["n"] - 1, x["n"])}
    for test in TESTS:
        mine = sorted(n for t, n in pts if t == test)
        keep = set(mine) if len(mine) < chk.pick(60, 400) else set(rng.sample(mine, chk.pick(60, 400)))
        keep |= {n for n in around(100, 128, 152, 288, 1000) if n >= 2}
        for n in sorted(keep):
            add(test, n, {})
    # each inequality, from both sides, by parameters
    for M in around(20) + [1, 50]:
        for k in around(100) + [3]:
            add("frequency_within_block", M * k + rng.randrange(M), {"blocksize": M})
    for n in (2000, 1999, 2001, 5000, 9999, 10000):
        for M in sorted({n // 100 - 1, n // 100, n // 100 + 1, n // 99, n // 101}):
            add("frequency_within_block", n, {"blocksize": M})
            add("non_overlapping_template_matching", n, {"blocksize": M, "template_size": 3})
    for q in range(1, 12):
        m = rng.randint(1, 11)
        for d in (-1, 0, 1):
            add("binary_matrix_rank", max(q * m, 38 * q * m + d, 4), {"nrows": q, "ncols": m})
    for d in (-1, 0, 1):
        add("binary_matrix_rank", 152 + d, {"nrows": 2, "ncols": 2})
    for m in range(1, 12):
        for n in (99, 100, 1000):
            add("non_overlapping_template_matching", n, {"template_size": m, "blocksize": n // 3})
    for n in (1200, 1212, 1300):
        for M in (11, 12, 13):
            add("non_overlapping_template_matching", n, {"template_size": 2, "blocksize": M})
    for m in range(1, 9):
        for K in (1, 2, 3, 4, 5, 8):
            M = 2 ** (m + 1) + m - 1          # lambda = 2
            for M2 in (M - 1, M, M + 1, (K * 2 ** m) // 2 + m - 1):
                if M2 < m or M2 < 2:
                    continue
                for N in sorted({2 ** m - 1, 2 ** m, 2 ** m + 1, 30, 100, 400}):
                    if M2 * N <= 20000 and rng.random() < chk.pick(.3, 1):
                        add("overlapping_template_matching", M2 * N + rng.randrange(M2),
                            {"template_size": m, "blocksize": M2, "matches_ceil": K})
    for n in around(288):
        add("overlapping_template_matching", n, {"template_size": 2, "blocksize": 9})
    for L in range(1, 17):
        for Q in sorted({1, 10 * 2 ** L - 6, 10 * 2 ** L - 5, 10 * 2 ** L, 10 * 2 ** L + 5,
                         10 * 2 ** L + 6}):
            n = (Q + 3) * L
            if 4 <= n <= 60000 and Q >= 1:
                add("maurers_universal", n, {"blocksize": L, "init_nblocks": Q})
    for n in around(387840):
        add("maurers_universal", n, {"blocksize": rng.choice([6, 8, 16]), "init_nblocks": 640})
    for M in around(500, 5000):
        add("linear_complexity", M * 3 + 1, {"blocksize": M})
    for k in around(200):
        for M in (2, 7):
            add("linear_complexity", M * k + rng.randrange(M), {"blocksize": M})
    for n in chk.pick([999999, 1000000], around(1000000)):
        calls.append(gen.call(len(calls), "linear_complexity", rle([(0, n - 3), (1, 3)]),
                              {"blocksize": 4000}, mode="params"))
        calls.append(gen.call(len(calls), "random_excursions_variant", gen.long_rle(rng, n, 3),
                              {}, mode="params"))
        calls.append(gen.call(len(calls), "random_excursions", gen.long_rle(rng, n, 3),
                              {}, mode="params"))
    for k in range(4, chk.pick(13, 17)):
        for n in around(2 ** k):
            for m in sorted({1, max(1, k - 7), max(1, k - 6), max(1, k - 5), max(1, k - 4),
                             max(1, k - 3), max(1, k - 2), max(1, k - 1)}):
                if m < n:
                    add("serial", n, {"blocksize": m})
                    add("approximate_entropy", n, {"blocksize": m})
    rng.shuffle(calls)
    for i, c in enumerate(calls):
        c["id"] = i
    params_calls(chk, calls, "at the boundaries of recommendations", True, False)
    # and on small arbitrary sequences, together with the results
    ts = []
    for test in TESTS:
        ts += gen.mixed(rng, test, chk.pick(25, 250), 128 if test == "longest_runs" else
                        MIN.get(test, 2), 600)
    run_calls(chk, ts, recs=True, values=False)


def A06(chk):
    rng = random.Random(f"A06-{chk.seed}")
    em = jumps(chk, 6000, 40000)
    calls = []

    def add(test, n, par):
        if n > SLOW.get(test, 10 ** 7):
            return
        if n < (128 if test == "longest_runs" else MIN.get(test, 2)):
            return
        enc = gen.long_rle(rng, n, max(2, min(9, n // 2))) if n > 8 else raw(gen.bits(rng, n))
        calls.append(gen.call(len(calls), test, enc, par, mode="params"))

    pts = {(x["test"], n) for x in em for n in (x["n"] - 1, x["n"])}
    for test in TESTS:
        mine = sorted(n for t, n in pts if t == test)
        k = chk.pick(120, 600)
        small = [n for n in mine if n < 300]
        keep = set(small if len(small) <= k else rng.sample(small, k))
        rest = [n for n in mine if n >= 300]
        keep |= set(rest if len(rest) <= k // 2 else rng.sample(rest, k // 2))
        keep |= {n for n in mine if n > 80000}
        keep |= {gen.size(rng, 128, 4000) for _ in range(20)}
        for n in sorted(keep):
            add(test, n, {})
    for n in around(5000, 5001, 10000, 20000):
        add("frequency_within_block", n, {})
    for n in around(38 * 1024, 39 * 1024, 39936, 50000):
        add("binary_matrix_rank", n, {})
    for n in (387840, 904960, 2068480, 4654080, 10342400, 22753280, 49643520):
        for d in (-1, 0):
            if n + d <= chk.pick(10342400, 49643520):
                calls.append(gen.call(0, "maurers_universal", gen.long_rle(rng, n + d, 9), {},
                                      mode="params"))
    for i, c in enumerate(calls):
        c["id"] = i
    params_calls(chk, calls, "with default parameters", False, True)
    # every combination of given and omitted parameters, by the results themselves
    ts = []
    combos = {
        "frequency_within_block": ["blocksize"], "binary_matrix_rank": ["matrix"],
        "non_overlapping_template_matching": ["template_size", "blocksize"],
        "overlapping_template_matching": ["template_size", "blocksize", "matches_ceil"],
        "maurers_universal": ["blocksize", "init_nblocks"], "linear_complexity": ["blocksize"],
        "serial": ["blocksize"], "approximate_entropy": ["blocksize"], "cusum": ["reverse"],
    }
    for test, names in combos.items():
        for mask in range(2 ** len(names)):
            given = [x for i, x in enumerate(names) if mask >> i & 1]
            for _ in range(chk.pick(30, 200)):
                n = gen.size(rng, 24, 1500)
                par = {}
                for x in given:
                    par.update(some_param(rng, test, x, n, given))
                ts.append((test, raw(gen.bits(rng, n)), par))
    run_calls(chk, ts, what="with every combination of parameters")


def some_param(rng, test, name, n, given):
    if name == "matrix":
        return {"nrows": rng.randint(1, 4), "ncols": rng.randint(1, 6)}
    if name == "reverse":
        return {"reverse": rng.randrange(2)}
    if name == "matches_ceil":
        return {"matches_ceil": rng.randint(1, 8)}
    if name == "init_nblocks":
        top = n // (3 if "blocksize" in given else 16) - 1
        return {"init_nblocks": rng.randint(1, max(1, min(top, n // 16)))}
    if name == "template_size":
        # at most the default blocksize of any length in use
        return {"template_size": rng.randint(1, 4 if "blocksize" in given or
                                             test.startswith("over") else 4)}
    if test == "maurers_universal":
        return {"blocksize": rng.randint(1, max(1, min(n // 3, 7) if "init_nblocks" in given
                                                else min(n // 3, 16)))}
    if test in ("serial", "approximate_entropy"):
        return {"blocksize": rng.randint(1, 9)}
    return {"blocksize": rng.randint(4, min(n, 120))}


def S13(chk):
    rng = random.Random(f"S13-{chk.seed}")
    jobs = (
            ("MCFreq", {"MaxN": 8, "EmitN": 8}, ["MonobitOK", "BlockOK"]),
            ("MCRuns", {"MaxN": 9, "EmitN": 9}, ["RunsOK", "LongOK"]),
            ("MCRank", {"MaxRows": 9, "MaxCols": 1, "MaxN": 9, "EmitN": 9}, ["RankOK"]),
            ("MCDft", {"MaxN": 9, "EmitN": 9}, ["ConjugateOK"]),
            ("MCTemplate", {"MaxN": 6, "EmitN": 6, "Kind": '"non"'}, ["NonOK"]),
            ("MCTemplate", {"MaxN": 7, "EmitN": 7, "Kind": '"over"'}, ["OverOK"]),
            ("MCUniversal", {"MaxW": 6, "MaxL": 2, "EmitN": 8}, ["DistOK"]),
            ("MCLfsr", {"MaxN": 8, "EmitN": 8, "DeclN": 6}, ["LeastOK"]),
            ("MCPattern", {"MaxN": 8, "EmitN": 8, "Kind": '"serial"'}, ["CountOK"]),
            ("MCPattern", {"MaxN": 8, "EmitN": 8, "Kind": '"entropy"'}, ["CountOK"]),
            ("MCWalk", {"MaxN": 8, "EmitN": 8, "Kind": '"cusum"'}, ["FarOK"]),
            ("MCWalk", {"MaxN": 8, "EmitN": 8, "Kind": '"excursions"'}, ["CyclesOK"]))
    em = [t for lines in explore_all(chk, jobs) for t in emitted_calls(lines)]
    ts = [t for t in em if ref_ok(*t)]
    if not chk.thorough:
        ts = [t for t in ts if len(t[1]["b"]) <= 6] + rng.sample(
            [t for t in ts if len(t[1]["b"]) > 6], 6000)
    for M in (1023, 1024, 2000):
        ts.append(("linear_complexity", raw(gen.lfsr(rng, 2 * M + 5, 7)), {"blocksize": M}))
    for test in TESTS:
        got, tries = 0, 0
        while got < chk.pick(60, 500) and tries < 5000:
            tries += 1
            n = gen.size(rng, 128 if test == "longest_runs" else MIN.get(test, 2), 1500)
            par = gen.params(rng, test, n)
            par.pop("matches_ceil", None)
            t = (test, raw(gen.bits(rng, n)), par)
            if ref_ok(*t):
                ts.append(t)
                got += 1
    for n in (6272, 6273, 7000):
        ts.append(("longest_runs", raw(gen.markov(rng, n, .8)), {}))
    for n in (750000, 750001):
        ts.append(("longest_runs", gen.long_rle(rng, n, 3000), {}))
    ts.append(("spectral", raw(gen.coin(rng, 8192)), {}))
    ts.append(("overlapping_template_matching", raw(gen.coin(rng, 41280)),
               {"blocksize": 1032, "template_size": 9}))
    ts.append(("random_excursions", raw(gen.walkish(rng, 10000)), {}))
    ts.append(("cusum", raw(gen.walkish(rng, 10000)), {"reverse": 1}))
    own = len(ts)
    # some of the generated calls of the checks of each test, which seek the boundaries of that test
    for k in range(1, 13):
        mine = []
        for test, enc, par in taken(f"S13-{chk.seed}", getattr(statchecks, f"S{k:02}")):
            if any(x not in par for x in NEED.get(test, [])):
                par = gen.params(rng, test, length(enc))
            par = {x: v for x, v in par.items() if x != "matches_ceil"}
            if ref_ok(test, enc, par):
                mine.append((test, enc, par))
        for test in sorted({t[0] for t in mine}):
            c = [t for t in mine if t[0] == test]
            small = [t for t in c if length(t[1]) <= 2000]
            large = [t for t in c if 2000 < length(t[1]) <= chk.pick(150000, 500000)]
            ts += rng.sample(small, min(len(small), chk.pick(120, 600)))
            ts += rng.sample(large, min(len(large), chk.pick(40, 100)))
    run_calls(chk, ts, impl="ref", what="of the reference implementation")
    # the same through the tests themselves
    run_calls(chk, rng.sample(ts[:own - 8], chk.pick(300, 1500)), what="of the tests")


NEED = {"frequency_within_block": ["blocksize"], "binary_matrix_rank": ["nrows"],
        "non_overlapping_template_matching": ["template_size", "blocksize"],
        "overlapping_template_matching": ["template_size", "blocksize"],
        "maurers_universal": ["blocksize", "init_nblocks"], "linear_complexity": ["blocksize"],
        "serial": ["blocksize"], "approximate_entropy": ["blocksize"]}


def ref_ok(test, enc, par):
    """the reference takes all its parameters, and sequences which the tests accept"""
    if any(k not in par for k in NEED.get(test, [])) or "matches_ceil" in par:
        return False
    b = decode(enc)
    if len(set(b)) != 2 or len(b) < (128 if test == "longest_runs" else MIN.get(test, 2)):
        return False
    return not (test == "spectral" and len(b) % 2 and len(set(b[:-1])) != 2)


ANY = dict(A01=A01, A02=A02, A04=A04, A05=A05, A06=A06, S13=S13)
