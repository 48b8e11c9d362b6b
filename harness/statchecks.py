"""Checks of the statistical tests against their modules in /verif/spec."""
import math
import random
from concurrent.futures import ThreadPoolExecutor

import gen
from calls import length, raw, rle
from compare import mismatches
from represent_names import LABELS, containers_of
from vlib import read_lines, read_out, write_lines


class Taker:
    """Stands in for a check, to take the calls which it would make (of the quick tier)."""
    thorough = False

    def __init__(self, seed):
        self.seed, self.taken = seed, []

    def pick(self, quick, thorough):
        return quick


def taken(seed, check):
    t = Taker(seed)
    check(t)
    return t.taken


def explore(chk, module, constants, invariants, props=(), mem="3g", more=""):
    """Exhaustive exploration of an MC module; returns the lines it emits."""
    if isinstance(chk, Taker):
        return []
    out = chk.fresh(f"emit-{module}")
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    cfg += "".join(f"CONSTANT {k} = {v}\n" for k, v in constants.items())
    cfg += "".join(f"INVARIANT {i}\n" for i in invariants)
    cfg += "".join(f"PROPERTY {i}\n" for i in props)
    cfg += more
    _, _, d = chk.tlc(module, cfg, env={"OUT": out}, mem=mem)
    chk.log(f"{module} {constants}: {d} states, checked {', '.join([*invariants, *props])}")
    chk.extra.setdefault("explored", []).append(
        dict(module=module, constants=constants, checked=list(invariants) + list(props), states=d))
    return read_out(out)


def explore_all(chk, jobs):
    """several explorations at once; returns the lines of each"""
    with ThreadPoolExecutor(6) as ex:
        return list(ex.map(lambda j: explore(chk, *j), jobs))


def emitted_calls(lines, impl="main", tests=None, allow=None):
    out = []
    for line in lines:
        for c in line["c"]:
            par = c["par"] or {}
            if tests and c["test"] not in tests:
                continue
            if allow and not allow(c["test"], par, len(line["b"])):
                continue
            out.append((c["test"], raw(line["b"]), par))
    return out


PLAIN = ["01/ndarray", "01/series", "HT/list", "f01/series", "bool/ndarray", "-11/series",
         "ab/category", "01/uint8", "10_9/tuple", "s10_9/list"]


def some_rep(rng, n):
    """a representation of most kinds, or None: a list of 0s and 1s"""
    if rng.random() < .6:
        return None
    if n > 10000 or rng.random() < .4:
        return rng.choice(PLAIN)
    la = rng.choice(LABELS)
    return f"{la}/{rng.choice(containers_of(la))}"


def run_calls(chk, tuples, impl="main", recs=False, values=True, nproc=8, reps=True, what=""):
    """Records the calls on the code, validates them by TLC, and compares."""
    if isinstance(chk, Taker):
        chk.taken += [t[:3] for t in tuples]
        return
    calls = []
    rng = random.Random(f"reps-{chk.pid}-{chk.seed}")
    for i, t in enumerate(tuples):
        test, enc, par = t[:3]
        kw = dict(t[3]) if len(t) > 3 else {}
        im = kw.pop("impl", impl)
        if reps and im == "main" and "rep" not in kw:
            rep = some_rep(rng, length(enc))
            if rep:
                kw["rep"] = rep
        calls.append(gen.call(i, test, enc, par, im, **kw))
    for c in calls:
        c["w"] = gen.weight(c)
    cp, tp, rp = (chk.fresh(f"{x}.ndjson") for x in ("calls", "trace", "reals"))
    write_lines(cp, calls)
    chk.impl("reccalls.py", cp, tp, rp, nproc)
    chk.log(f"recorded {len(calls)} calls {what}")
    verdicts = chk.validate("TraceCalls", tp, [c["w"] for c in calls])
    lines, reals = read_lines(tp), read_lines(rp)
    bad = 0
    outcomes = {}
    for c, v, line, real in zip(calls, verdicts, lines, reals):
        outcomes[v["out"]] = outcomes.get(v["out"], 0) + 1
        m = mismatches(v, c, line, real, recs=recs, values=values)
        if m:
            bad += 1
            if bad <= 20:
                chk.violation(f"{c['impl']}.{c['test']}(n={c['n']}, {c['par']}"
                              f"{', as ' + c['rep'] if c.get('rep') else ''}): {m[0]}",
                              mismatches=m[:10], call=c)
    step = max(1, len(calls) // 3)
    for c, real in list(zip(calls, reals))[step // 2::step]:
        enc = c["enc"]
        chk.sample(dict(test=c["test"], impl=c["impl"], n=c["n"], par=c["par"],
                        bits="".join(map(str, enc["b"][:64])) if enc["k"] == "raw" else enc["k"],
                        got=real.get("single") or (real.get("sub") or [real["status"]])[0]),
                   limit=9)
    ex = chk.extra.setdefault("outcomes", {})
    for o, n in outcomes.items():
        ex[o] = ex.get(o, 0) + n
    chk.extra["distinct_calls"] = chk.extra.get("distinct_calls", 0) + len(
        {(c["test"], c["impl"], str(c["enc"]), str(c["par"]), str(c.get("rep"))) for c in calls})
    chk.extra["longest"] = max([chk.extra.get("longest", 0)] + [c["n"] for c in calls])
    chk.log(f"compared {len(calls)} calls: {bad} mismatches, outcomes {outcomes}")
    return calls, verdicts, lines, reals


def around(*ns):
    return [n + d for n in ns for d in (-1, 0, 1)]


def long_calls(chk, rng, *tests):
    """sequences far longer than 2^16, of few and of many of each face"""
    out = []
    for test in tests:
        for n in chk.pick([65537 + rng.randrange(60000), 100003],
                          [65536, 65537, 131071 + rng.randrange(3), 200003, 400009]):
            kinds = [lambda: gen.coin(rng, n), lambda: gen.coin(rng, n, rng.choice([.03, .97])),
                     lambda: gen.walkish(rng, n), lambda: gen.markov(rng, n, rng.choice([.1, .9])),
                     lambda: gen.lfsr(rng, n, 13)]
            for k in rng.sample(kinds, chk.pick(2, 3)):
                b = k()
                if 0 < sum(b) < n:
                    out.append((test, raw(b), {}))
    return out


def boundary_runs(rng, sizes):
    return [gen.long_rle(rng, n) if n > 3000 else raw(gen.bits(rng, n)) for n in sizes]


ASSUME = [
    "real-valued functions (erfc, incomplete gamma, normal cdf, logarithms, 1F1) are evaluated "
    "by mpmath to 40 digits from the terms which TLC writes; the code's results must agree "
    "to 1e-9 after the error of the statistic is propagated",
    "parameters are within the domain in which SP800-22 defines the test: at least one whole "
    "block, templates no longer than a block",
]


# ---------------------------------------------------------------- properties


def S01(chk):
    rng = random.Random(f"S01-{chk.seed}")
    em = explore(chk, "MCFreq", {"MaxN": chk.pick(11, 15), "EmitN": chk.pick(8, 10)},
                 ["MonobitOK", "Symmetric", "BlockOK", "BlockOrder"])
    ts = emitted_calls(em)
    for test, k in (("monobit", 1), ("frequency_within_block", 3)):
        ts += gen.mixed(rng, test, k * chk.pick(100, 600), 2 if test == "monobit" else 8, 3000)
    for n in around(100, 1000, 1999, 2000, 5000, 5001, 5050, 10000) + [7919, 20000, 40001]:
        ts.append(("monobit", gen.long_rle(rng, n) if n > 999 else raw(gen.bits(rng, n)), {}))
        ts.append(("frequency_within_block", raw(gen.bits(rng, n)), {}))
    for n in chk.pick([123456, 1000003], [123456, 1000003, 1000000, 3000000, 10000001]):
        ts.append(("monobit", gen.long_rle(rng, n), {}))
        ts.append(("frequency_within_block", gen.long_rle(rng, n), {}))
        ts.append(("frequency_within_block", gen.long_rle(rng, n), {"blocksize": n // 77}))
    # counts beyond 2^8, 2^15 and 2^16 in a block
    for M in (256, 257, 32768, 40001, 65536, 65537, 70001):
        for p in (.5, .97, 1):
            n = M * rng.randint(1, 3) + rng.randrange(1, M)
            b = gen.coin(rng, n, p) if M < 70001 or p < 1 else [1] * n
            b[-1], b[rng.randrange(n - 1)] = 0, 1
            ts.append(("frequency_within_block", raw(b), {"blocksize": M}))
    ts += long_calls(chk, rng, "monobit", "frequency_within_block")
    run_calls(chk, ts)


def S02(chk):
    rng = random.Random(f"S02-{chk.seed}")
    em = explore(chk, "MCRuns", {"MaxN": chk.pick(11, 15), "EmitN": chk.pick(9, 11)},
                 ["RunsOK", "RunsSymmetric", "LongOK", "LongSymmetric", "Covered"])
    ts = emitted_calls(em)
    ts += gen.mixed(rng, "runs", chk.pick(200, 1500), 2, 3000)
    ts += gen.mixed(rng, "longest_runs", chk.pick(250, 1500), 128, 2000)
    for n in around(128, 256) + [136, 200, 1024]:
        # runs which straddle the blocks, touch the ends, or fill them
        for _ in range(chk.pick(6, 30)):
            ts.append(("longest_runs", raw(gen.markov(rng, n, rng.choice([.7, .85, .95]))), {}))
    for n in around(6272) + [6300, 9000]:
        for p in (.3, .5, .8):
            ts.append(("longest_runs", raw(gen.coin(rng, n, p)), {}))
        ts.append(("longest_runs", raw(gen.markov(rng, n, .8)), {}))
        ts.append(("longest_runs", gen.long_rle(rng, n, 150), {}))
    for n in chk.pick([749999, 750000, 750001], around(750000, 1000000) + [2000001]):
        for runs in chk.pick([30, 2000], [30, 300, 3000, 30000]):
            ts.append(("longest_runs", gen.long_rle(rng, n, runs), {}))
        ts.append(("longest_runs", gen.long_blk(rng, n, 10000, 8), {}))
        ts.append(("runs", gen.long_rle(rng, n, 999), {}))
    ts += long_calls(chk, rng, "runs", "longest_runs")
    run_calls(chk, ts)


def S03(chk):
    rng = random.Random(f"S03-{chk.seed}")
    em = explore(chk, "MCRank", {"MaxRows": 4, "MaxCols": chk.pick(4, 5), "MaxN": chk.pick(12, 15),
                                 "EmitN": chk.pick(12, 12)},
                 ["RankOK", "TransposeOK", "BasisOK", "Bounded", "BitsOK"])
    # the rank of each matrix, by the public algorithm
    mats = [dict(id=i, kind="rank", b=x["b"], nrows=x["nrows"], ncols=x["ncols"])
            for i, x in enumerate(em)]
    for _ in range(chk.pick(300, 3000)):
        q, m = rng.randint(1, 32), rng.randint(1, 32)
        mats.append(dict(id=len(mats), kind="rank", b=low_rank(rng, q, m), nrows=q, ncols=m))
    # larger than machine words, with what matters anywhere
    big = []
    for k in range(chk.pick(40, 250)):
        q, m = [rng.choice([1, 2, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 140, rng.randint(1, 300)])
                for _ in range(2)]
        if q * m > 20000:
            q, m = (max(1, 20000 // m), m) if k % 2 else (q, max(1, 20000 // q))
        big.append((q, m, sparse(rng, q, m) if k % 3 else low_rank(rng, q, m)))
    mats += [dict(id=len(mats) + i, kind="rank", b=b, nrows=q, ncols=m) for i, (q, m, b) in enumerate(big)]
    algos(chk, mats)
    ts = [t for t in emitted_calls(em) if len(t[1]["b"]) <= chk.pick(8, 10)]
    for q, m, b in big[:chk.pick(14, 80)]:
        if q * m >= 4 and 0 < sum(b) < q * m:
            ts.append(("binary_matrix_rank", raw(b + sparse(rng, q, m)), {"nrows": q, "ncols": m}))
    ts += gen.mixed(rng, "binary_matrix_rank", chk.pick(300, 2000), 4, 3000)
    for n in around(152, 153, 342, 38 * 16, 38 * 1023, 38 * 1024, 38 * 1025, 38 * 1024 + 1023,
                    39 * 1024 - 1, 39 * 1024, 40000):
        # around the multiples where the size of the default matrix changes
        ts.append(("binary_matrix_rank", raw(ranks(rng, n)), {}))
    for _ in range(chk.pick(10, 60)):
        d = rng.randint(2, 32)
        n = rng.randint(3, 12) * d * d
        ts.append(("binary_matrix_rank",
                   raw([x for _ in range(n // (d * d)) for x in low_rank(rng, d, d)] + [1, 0]),
                   {"nrows": d, "ncols": d}))
    ts += long_calls(chk, rng, "binary_matrix_rank")
    run_calls(chk, ts)


def low_rank(rng, q, m):
    """q x m bits of some rank"""
    r = rng.randint(0, min(q, m)) if rng.random() < .5 else min(q, m)
    basis = [gen.coin(rng, m) for _ in range(r)]
    rows = []
    for _ in range(q):
        row = [0] * m
        for b in basis:
            if rng.random() < .5:
                row = [x ^ y for x, y in zip(row, b)]
        rows += row
    return rows


def sparse(rng, q, m):
    """q x m bits: a permuted diagonal, with some elements more, in a window of rows and columns"""
    r0, c0 = (rng.randrange(x) if rng.random() < .5 else 0 for x in (q, m))
    r1 = rng.randint(r0 + 1, q) if rng.random() < .5 else q
    c1 = rng.randint(c0 + 1, m) if rng.random() < .5 else m
    rows = [[0] * m for _ in range(q)]
    cols = rng.sample(range(c0, c1), min(c1 - c0, r1 - r0))
    for r, c in zip(rng.sample(range(r0, r1), len(cols)), cols):
        rows[r][c] = 1
    for _ in range(rng.randint(0, max(1, len(cols)))):
        a, b = rng.randrange(r0, r1), rng.randrange(r0, r1)
        if a != b:
            rows[a] = [x ^ y for x, y in zip(rows[a], rows[b])]
    return [x for r in rows for x in r]


def ranks(rng, n):
    d = 32
    out = []
    while len(out) < n:
        out += low_rank(rng, d, d) if rng.random() < .5 else gen.coin(rng, d * d)
    return out[:n]


def algos(chk, items):
    """public algorithms: rank of a matrix, linear complexity of bits"""
    if isinstance(chk, Taker):
        return
    cp, tp = chk.path("algo-in.ndjson"), chk.path("algo-out.ndjson")
    write_lines(cp, items)
    chk.impl("recalgo.py", cp, tp)
    w = [0.2 + 0.002 * len(x["b"]) + (len(x["b"]) ** 2 * 4e-4 if x["kind"] == "bm" else 0)
         for x in items]
    vs = chk.validate("TraceAlgo", tp, w)
    got = read_lines(tp)
    for x, v, g in zip(items, vs, got):
        if not v["ok"]:
            chk.violation(f"algorithms.{x['kind']} of {x['b'][:64]} "
                          f"({x.get('nrows')} x {x.get('ncols')}) is {g['got']}, "
                          f"should be {v['want']}", item=x)
    chk.log(f"algorithms: {len(items)} results")
    chk.extra["algorithm_results"] = chk.extra.get("algorithm_results", 0) + len(items)


def S04(chk):
    rng = random.Random(f"S04-{chk.seed}")
    em = explore(chk, "MCDft", {"MaxN": chk.pick(10, 13), "EmitN": chk.pick(10, 12)},
                 ["MassOK", "ZeroOK", "ConjugateOK", "ComplementOK", "LengthOK"])
    ts = emitted_calls(em)
    ts += gen.mixed(rng, "spectral", chk.pick(120, 800), 2, 42)
    for _ in range(chk.pick(250, 1500)):
        n = (rng.randint(1, 200) * 2 ** rng.randint(0, 5)) + rng.randrange(2)
        n = max(2, n)
        ts.append(("spectral", raw(gen.bits(rng, n)), {}))
    for n in chk.pick([8192, 9001, 20000], [8192, 16384, 32768, 9001, 20000, 65536, 100001]):
        ts.append(("spectral", raw(gen.bits(rng, n)), {}))
        ts.append(("spectral", raw(gen.coin(rng, n)), {}))
    # the peak of the mean close to the threshold
    near = []
    for d in range(2, chk.pick(600, 900)):
        for n in (math.floor(d * d / math.log(20)), math.ceil(d * d / math.log(20))):
            if (d - n + n % 2) % 2 == 0 and n > 3:
                near.append((abs(d - math.sqrt(math.log(20) * n)) / d, d, n))
    near.sort()
    for _, d, n in near[:chk.pick(5, 20)] + [x for x in near if x[2] < 3000][:chk.pick(12, 60)]:
        m = n - n % 2
        b = [1] * ((m + d) // 2) + [0] * ((m - d) // 2)
        rng.shuffle(b)
        if rng.random() < .5:
            b = [1 - x for x in b]
        ts.append(("spectral", raw(b + [rng.randrange(2)] * (n % 2)), {}))
    ts += long_calls(chk, rng, "spectral")
    run_calls(chk, ts)


def S05(chk):
    rng = random.Random(f"S05-{chk.seed}")
    test = "non_overlapping_template_matching"
    em = explore(chk, "MCTemplate", {"MaxN": chk.pick(8, 10), "EmitN": chk.pick(6, 7),
                                     "Kind": '"non"'}, ["NonOK", "AperiodicOK", "Compare"])
    ts = emitted_calls(em)
    ts += gen.mixed(rng, test, chk.pick(250, 1500), 2, 1200)
    for n in around(100, 600, 700, 900, 1000, 2000, 2700, 5000):
        ts.append((test, raw(gen.bits(rng, n)), {}))
    for m in (2, 3, 4, 5, 7, 8, 9, 10):
        n = rng.randint(300, 1500)
        ts.append((test, raw(gen.bits(rng, n)), {"template_size": m, "blocksize": n // 4}))
        ts.append((test, raw(gen.markov(rng, n, .9)), {"template_size": m,
                                                       "blocksize": max(m, n // 20)}))
    # many blocks, and many matches in a block
    for M, m, N in [(2, 1, 700), (2, 2, 1500), (3, 2, 2100), (4, 2, 300), (6, 3, 1100)] + \
            chk.pick([], [(2, 2, 40000), (3, 3, 9000)]):
        for f in (gen.coin, gen.bits):
            ts.append((test, raw(f(rng, M * N + rng.randrange(M))), {"template_size": m, "blocksize": M}))
    for M, m in [(300, 1), (700, 2), (2400, 2), (2400, 1), (9000, 2), (14000, 1)]:
        b = [rng.randrange(2)] * M + gen.markov(rng, M, .95) + gen.coin(rng, M // 3)
        if len(set(b)) == 2:
            ts.append((test, raw(b), {"template_size": m, "blocksize": M}))
    ts += long_calls(chk, rng, test)
    run_calls(chk, ts)


def S06(chk):
    rng = random.Random(f"S06-{chk.seed}")
    test = "overlapping_template_matching"
    em = explore(chk, "MCTemplate", {"MaxN": chk.pick(10, 14), "EmitN": chk.pick(6, 7),
                                     "Kind": '"over"'}, ["OverOK", "Compare"])
    ts = emitted_calls(em)
    ts += gen.mixed(rng, test, chk.pick(400, 2500), 2, 3000)
    for n in around(100, 289, 1024, 4096, 10000) + chk.pick([], [100000]):
        for p in (.5, .7, .9):
            ts.append((test, raw(gen.coin(rng, n, p)), {}))
    n = 1032 * 40
    ts.append((test, raw(gen.coin(rng, n)), {"blocksize": 1032, "template_size": 9}))
    ts.append((test, raw(gen.coin(rng, n, .6)), {"blocksize": 1032, "template_size": 9}))
    ts.append((test, raw(gen.coin(rng, n, .55)), {"blocksize": 1032, "template_size": 10,
                                                  "matches_ceil": 3}))
    # many blocks, and many matches in a block
    for M, m, N in [(2, 1, 700), (2, 2, 1500), (3, 2, 2100), (6, 3, 1100)] + chk.pick([], [(2, 2, 40000)]):
        ts.append((test, raw(gen.coin(rng, M * N + rng.randrange(M), .6)), {"template_size": m, "blocksize": M}))
    for k in range(7, 17):
        m = max(rng.randint(2, 6), k - 5)
        M = 2 ** k + m - 1 + rng.randrange(2)
        ts.append((test, raw([1] * M + gen.markov(rng, M, .9) + [0]), {"template_size": m, "blocksize": M}))
    for M, m in [(300, 2), (5000, 3), (5000, 9), (33000, 10), (66000, 12)] + chk.pick([], [(140000, 13)]):
        b = [1] * M + [0] * (M // 2) + gen.markov(rng, M, .97) + [0, 1] * (M // 4) + gen.coin(rng, M)
        ts.append((test, raw(b), {"template_size": m, "blocksize": M}))
        ts.append((test, raw(b), {"template_size": m, "blocksize": M, "matches_ceil": rng.randint(2, 12)}))
    ts += long_calls(chk, rng, test)
    run_calls(chk, ts)


def S07(chk):
    rng = random.Random(f"S07-{chk.seed}")
    test = "maurers_universal"
    em = explore(chk, "MCUniversal", {"MaxW": chk.pick(6, 7), "MaxL": chk.pick(2, 2),
                                      "EmitN": chk.pick(8, 10)},
                 ["TableOK", "DistOK", "TotalOK", "ValuesOK"])
    ts = emitted_calls(em)
    ts += gen.mixed(rng, test, chk.pick(400, 2500), 4, 3000)
    for n in around(8, 21, 54, 55, 149, 404, 1097, 2981, 8103, 8104, 22027):
        ts.append((test, raw(gen.bits(rng, n)), {}))
    for L in range(1, 17):
        n = L * rng.randint(40, 400) + rng.randrange(L)
        ts.append((test, raw(gen.bits(rng, n)), {"blocksize": L,
                                                 "init_nblocks": rng.randint(1, 39)}))
    for n in chk.pick([387839, 387840, 387845],
                      around(387840, 904960, 2068480) + [1500000]):
        L = 6 if n >= 387840 else 13
        if n >= 904960:
            L = 7
        if n >= 2068480:
            L = 8
        ts.append((test, gen.long_blk(rng, n, L, 9), {}))
    ts += long_calls(chk, rng, test)
    run_calls(chk, ts)


def S08(chk):
    rng = random.Random(f"S08-{chk.seed}")
    test = "linear_complexity"
    em = explore(chk, "MCLfsr", {"MaxN": chk.pick(11, 14), "EmitN": chk.pick(9, 11),
                                 "DeclN": chk.pick(7, 9)},
                 ["LeastOK", "ProducesOK", "WholeOK"], props=["Grows"])
    items = [dict(id=i, kind="bm", b=x["b"]) for i, x in enumerate(em)]
    for _ in range(chk.pick(250, 1500)):
        items.append(dict(id=len(items), kind="bm", b=gen.bits(rng, gen.size(rng, 2, 200))))
    for n in [gen.size(rng, 20, 1500) for _ in range(chk.pick(20, 200))] + chk.pick([5200], [5200, 9000]):
        # the register grows at long intervals
        b, L, p = [0] * n, 0, rng.randint(0, n // 20 if n < 5000 else 2300)
        if n > 5000:
            p = max(p, 2050)
        while p < n:
            b[p] = 1
            L = p + 1 - L
            p = rng.randint(2 * L, 2 * L + 1 + n // 10)
        items.append(dict(id=len(items), kind="bm", b=b))
    for n in [gen.size(rng, 100, 1500) for _ in range(chk.pick(40, 300))] + chk.pick([4200, 5300], [4200, 6000, 9000]):
        items.append(dict(id=len(items), kind="bm", b=gen.late(rng, n, rng.randint(2, 12))))
    algos(chk, items)
    ts = [t for t in emitted_calls(em) if len(t[1]["b"]) <= chk.pick(7, 9)]
    for M in (200, 257, 300, 513, 700, 1023, 2500, 4500, 5000):
        body = sum((gen.late(rng, M, rng.randint(2, 9)) for _ in range(chk.pick(3, 10))), [])
        ts.append((test, raw(body + [1, 0]), {"blocksize": M}))
    ts += gen.mixed(rng, test, chk.pick(250, 1500), 2, 1000)
    for M in list(range(1, 12)) + [31, 32, 100, 101]:
        for _ in range(chk.pick(3, 10)):
            n = M * rng.randint(3, 40) + rng.randrange(M)
            if n < 2:
                continue
            body = []
            while len(body) < n:
                body += gen.lfsr(rng, M, rng.randint(2, 8)) if rng.random() < .5 \
                    else gen.bits(rng, M) if M > 1 else gen.coin(rng, 1)
            if 0 < sum(body[:n]) < n:
                ts.append((test, raw(body[:n]), {"blocksize": M}))
    for M in (1023, 1024, 1500, 5000):
        n = 2 * M + rng.randrange(M)
        ts.append((test, raw(gen.lfsr(rng, n, rng.randint(3, 9))), {"blocksize": M}))
    for n, size in chk.pick([(100000, 500), (99999, 316), (200000, 1000)],
                            [(100000, 500), (99999, 316), (199999, 500), (200000, 1000),
                             (500000, 1000), (1000000, 1000), (1000000, 5000)]):
        ts.append((test, gen.long_blk(rng, n, size, 5), {} if size < 5000 else {"blocksize": size}))
    ts += long_calls(chk, rng, test)
    run_calls(chk, ts)


def S09(chk):
    pattern(chk, "S09", "serial")


def S10(chk):
    pattern(chk, "S10", "approximate_entropy")


def pattern(chk, pid, test):
    rng = random.Random(f"{pid}-{chk.seed}")
    em = explore(chk, "MCPattern", {"MaxN": chk.pick(9, 12), "EmitN": chk.pick(8, 10),
                                    "Kind": '"serial"' if test == "serial" else '"entropy"'},
                 ["CountOK", "MarginalOK", "RotateOK", "PairsOK", "SparseOK"])
    ts = emitted_calls(em)
    ts += gen.mixed(rng, test, chk.pick(300, 2000), 3, 2000)
    for n in around(32, 64, 256, 512, 1024, 4096) + chk.pick([8192], [8192, 65536, 100000]):
        ts.append((test, raw(gen.bits(rng, n)), {}))
    for m in range(1, chk.pick(13, 15)):
        ts.append((test, raw(gen.coin(rng, rng.randint(500, 2000))), {"blocksize": m}))
        ts.append((test, raw(gen.bits(rng, rng.randint(m + 1, 40 + m))), {"blocksize": m}))
    # patterns longer than a machine word
    for m in list(range(13, 34)) + [40, 53, 62, 63, 64, 65, 66, 67, 99, 128, 129, 150, 257, 900] + \
            chk.pick([], [200, 300, 400, 511, 512, 513, 700, 1000]):
        for f in (gen.coin, gen.bits, lambda r, n: gen.lfsr(r, n, rng.randint(2, 5))):
            b = f(rng, m + rng.randint(1, 120))
            if 0 < sum(b) < len(b):
                ts.append((test, raw(b), {"blocksize": m}))
    ts += long_calls(chk, rng, test)
    run_calls(chk, ts)


def S11(chk):
    rng = random.Random(f"S11-{chk.seed}")
    em = explore(chk, "MCWalk", {"MaxN": chk.pick(9, 12), "EmitN": chk.pick(9, 11),
                                 "Kind": '"cusum"'}, ["FarOK", "PosOK", "ReverseOK"])
    ts = emitted_calls(em)
    ts += gen.mixed(rng, "cusum", chk.pick(500, 3000), 2, 3000)
    for n in around(100, 1000, 10000) + [31623]:
        for f in (gen.coin, gen.walkish):
            b = f(rng, n)
            ts += [("cusum", raw(b), {}), ("cusum", raw(b), {"reverse": 1})]
    for z in range(1, 12):
        # every small excursion, for a spread of n
        for _ in range(chk.pick(4, 20)):
            n = gen.size(rng, 2 * z + 2, 4000)
            b = [1] * z + [0] * z
            while len(b) < n:
                b += rng.choice([[1, 0], [0, 1] if z > 1 else [1, 0]])
            ts.append(("cusum", raw(b[:n]), {"reverse": rng.randrange(2)}))
    for n in chk.pick([300000], [300000, 1000000]):
        ts.append(("cusum", gen.long_rle(rng, n), {}))
        ts.append(("cusum", gen.long_rle(rng, n), {"reverse": 1}))
    # walks which stay close to 0 for long
    for n in chk.pick([20001, 65537 + rng.randrange(9), 131072], [20001, 65537, 131072, 500000]):
        for z in (1, 2, rng.randint(3, 12), rng.randint(13, 60)):
            b, y = [], 0
            while len(b) < n:
                up = y < z and (y <= -z or rng.random() < .5)
                b.append(int(up))
                y += 1 if up else -1
            ts.append(("cusum", raw(b), {"reverse": rng.randrange(2)}))
    ts += long_calls(chk, rng, "cusum")
    run_calls(chk, ts)


def S12(chk):
    rng = random.Random(f"S12-{chk.seed}")
    em = explore(chk, "MCWalk", {"MaxN": chk.pick(9, 12), "EmitN": chk.pick(8, 10),
                                 "Kind": '"excursions"'},
                 ["PosOK", "VisitsOK", "CyclesOK", "BinsSum", "OneSided"])
    ts = emitted_calls(em)
    for test in ("random_excursions", "random_excursions_variant"):
        ts += gen.mixed(rng, test, chk.pick(220, 1500), 2, 1200)
        for _ in range(chk.pick(60, 400)):
            b = gen.walkish(rng, rng.randint(10, 1500))
            if 0 < sum(b) < len(b):
                if rng.random() < .4:      # ends at 0
                    d = 2 * sum(b) - len(b)
                    b += [0 if d > 0 else 1] * abs(d)
                ts.append((test, raw(b), {}))
        for n in chk.pick([20000], [20000, 100000]):
            ts.append((test, raw(gen.walkish(rng, n)), {}))
            ts.append((test, raw(gen.coin(rng, n)), {}))
        # cycles which visit a state about 2^k times
        for k in range(3, 17):
            x = rng.choice([1, 2, 3, 4, rng.randint(5, 9)])
            v = 2 ** k + rng.randrange(5)
            b = [1] * x + [1, 0] * (v - 1) + [0] * x + gen.walkish(rng, rng.randint(1, 50))
            if rng.random() < .5:
                b = [1 - y for y in b]
            ts.append((test, raw(b + [rng.randrange(2)]), {}))
    ts += long_calls(chk, rng, "random_excursions", "random_excursions_variant")
    run_calls(chk, ts)


STAT = dict(S01=S01, S02=S02, S03=S03, S04=S04, S05=S05, S06=S06, S07=S07, S08=S08, S09=S09,
            S10=S10, S11=S11, S12=S12)
