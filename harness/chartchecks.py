"""R02: the charts of results against spec/Charts.tla."""
import math
import random

import gen
from calls import decode, raw
from mpmath import mp, mpf
from represent_names import containers_of
from statchecks import emitted_calls, explore
from terms import Evaluator, to_mp
from vlib import read_lines, write_lines

FACES = ["01", "12", "-11", "-5-3", "10_9", "f01", "f", "fneg", "bool", "ab", "HT", "s01", "prefix",
         "case", "uni", "nanstr", "markup", "html"]
DRAWN = ["monobit", "frequency_within_block", "runs", "longest_runs", "binary_matrix_rank", "spectral",
         "overlapping_template_matching", "maurers_universal", "linear_complexity", "approximate_entropy",
         "cusum", "random_excursions", "random_excursions_variant"]


def density(kind, k, x):
    x = mpf(x)
    if kind == "halfnorm":
        return mp.sqrt(2 / mp.pi) * mp.exp(-x * x / 2) if x >= 0 else mpf(0)
    if x < 0:
        return mpf(0)
    if x == 0:
        return mpf("inf") if k < 2 else mpf("0.5") if k == 2 else mpf(0)
    a = mpf(k) / 2
    return mp.exp((a - 1) * mp.log(x) - x / 2 - a * mp.log(2) - mp.loggamma(a))


def near(a, b, tol):
    return isinstance(a, (int, float)) and math.isfinite(a) and abs(a - b) <= tol


def dist_bad(dist, units, ev, n):
    """why the reference distribution is not drawn, or None"""
    kind, df, at = dist
    at = float(to_mp(ev.ev(at)))
    if len(units) != 2:
        return f"it is drawn by {len(units)} areas"
    starts = sorted(range(2), key=lambda i: (units[i][0][0] if units[i][0] else 0,
                                            -(units[i][0][-1] if units[i][0] else 0)))
    (x, y), (xs, ys) = units[starts[0]], units[starts[1]]
    if at == 0 and x != xs:
        return "both areas should be the whole distribution"
    tol = 1e-7 * (1 + abs(at)) + 1e-11 * n
    for a in (x, xs):
        if len(a) < 10 or any(v is None for v in a) or any(b < c for b, c in zip(a[1:], a)):
            return "its values are not an ascending range"
    if x[0] != 0:
        return f"it starts at {x[0]}"
    if not near(xs[0], at, tol):
        return f"the area of the p-value starts at {xs[0]}, should be at {at}"
    if not near(xs[-1], x[-1], 1e-9 * (1 + x[-1])) or x[-1] < at - tol:
        return f"the areas end at {x[-1]} and {xs[-1]}"
    for vs, ds in ((x, y), (xs, ys)):
        for v, d in zip(vs, ds):
            w = density(kind, df, v)
            if math.isinf(w):
                continue
            w = float(w)
            if not near(d, w, 1e-6 * w + 1e-12):
                return f"the density at {v} is {d}, should be {w}"
    return None


def fourier_bad(units, mags, threshold, ev, n):
    want = [float(m) for m in ev.ev(mags)]
    thr = float(to_mp(ev.ev(threshold)))
    lines = [u for u in units if len(u[2]) == 1 and (len(want) != 1 or u[1] == [None])]
    areas = [u for u in units if u not in lines]
    if len(lines) != 1 or len(areas) != 1:
        return "it does not draw one threshold and one area"
    if not near(lines[0][2][0], thr, 1e-9 * (1 + thr)):
        return f"the threshold is drawn at {lines[0][2][0]}, should be at {thr}"
    _, xs, ys = areas[0]
    pts = sorted(zip(xs, ys), key=lambda p: (p[0] is None, p[0]))
    if [p[0] for p in pts] != list(range(len(want))):
        return f"its frequencies are {xs[:5]}... ({len(xs)} of them), should be {len(want)}"
    for (k, y), w in zip(pts, want):
        if not near(y, w, 1e-8 * n + 1e-8):
            return f"the magnitude of frequency {k} is {y}, should be {w}"
    return None


def chart_bad(c, v, line, real):
    ev = Evaluator(bits=lambda: decode(c["enc"]))
    unsure = False
    for (name, why), terms in zip(v["charts"], v["reals"]):
        if why:
            return f"{name}: {why}"
        want = {(a, b): float(to_mp(ev.ev(t))) for a, b, t in terms}
        # the last probability of the overlapping test is 1 - sum of the others
        unsure |= bool(want) and min(want.values()) < 1e-5 * sum(want.values())
        for u in real["charts"][name]:
            for a, b, y in u:
                if (a, b) in want and not near(y, want[a, b], 1e-9 * (1 + abs(want[a, b]))):
                    return f"{name}: {b} of {a} is {y}, should be {want[a, b]}"
    if v["mean"]:
        m = float(to_mp(ev.ev(v["mean"])))
        if not any(near(x, m, .0501) for x in real["mean"]):
            return f"plot_variance: its title has {real['mean']}, should be {m}"
    if v["mags"]:
        if "fourier" not in real:
            return "plot_fourier: missing"
        m = fourier_bad(real["fourier"], *v["mags"], ev, c["n"])
        if m:
            return "plot_fourier: " + m
    if line["refdist"]:
        if v["distbad"]:
            return f"plot_refdist: {v['distbad']} ({line['refdist']})"
        if v["stat"] and not unsure:
            ev.stat = to_mp(ev.ev(v["stat"]))
            m = dist_bad(v["dist"], real["refdist"], ev, c["n"])
            if m:
                return "plot_refdist: " + m
    return None


def chart_calls(rng, per, hi):
    out = []
    for t in DRAWN:
        for i in range(per):
            n = gen.size(rng, 128 if t == "longest_runs" else 8, hi)
            if t == "longest_runs" and rng.random() < .15:
                n = rng.choice([6271, 6272, 7000])
            par = gen.params(rng, t, n)
            if t == "binary_matrix_rank" and par.get("nrows", 2) == 1 or par.get("ncols", 2) == 1:
                par = dict(nrows=2, ncols=2)
            la = "01" if rng.random() < .5 else rng.choice(FACES)
            out.append((t, raw(gen.bits(rng, n)), par, la + "/" + rng.choice(containers_of(la)[:2])))
    return out


def R02(chk):
    rng = random.Random(f"R02-{chk.seed}")
    em = explore(chk, "MCCharts", {"MaxN": chk.pick(9, 12), "EmitN": chk.pick(6, 8)},
                 ["SumsOK", "WalkOK", "SelfOK", "DistOK"])
    tuples = [t + ("01/list",) for t in emitted_calls(em)]
    if not chk.thorough:
        tuples = rng.sample(tuples, min(len(tuples), 500))
    tuples += chart_calls(rng, chk.pick(45, 400), chk.pick(1200, 2000))
    calls = [gen.call(i, t, e, p, rep=rep) for i, (t, e, p, rep) in enumerate(tuples)]
    cp, tp, rp, vp = (chk.fresh(x) for x in ("calls", "charts", "reals", "trace.ndjson"))
    write_lines(cp, calls)
    chk.impl("reccharts.py", cp, tp, rp, 8)
    got, seen, bad = [], {}, 0
    for c, x, r in zip(calls, read_lines(tp), read_lines(rp)):
        seen[x["status"]] = seen.get(x["status"], 0) + 1
        if x["status"].startswith("err:"):
            bad += 1
            chk.violation(f"{c['test']}(n={c['n']}, {c['par']}, as {c['rep']}) has no chart: "
                          f"{x['status']} {x.get('error')}", call=c)
        if x["status"] == "ok":
            got.append((c, x, r))
    chk.log(f"recorded {len(calls)} calls {seen}")
    write_lines(vp, [x for _, x, _ in got])
    vs = chk.validate("TraceCharts", vp, [.02 + gen.weight(c) / 1000 for c, _, _ in got])
    n = 0
    for (c, x, r), v in zip(got, vs):
        n += len(x["charts"]) + bool(x["refdist"]) + ("fourier" in r)
        m = chart_bad(c, v, x, r)
        if m:
            bad += 1
            chk.violation(f"{c['test']}(n={c['n']}, {c['par']}, as {c['rep']}): {m}", call=c,
                          charts=str(x["charts"])[:1000], refdist=x["refdist"])
    for c, x, _ in got[:: max(1, len(got) // 5)]:
        chk.sample(dict(test=c["test"], n=c["n"], par=c["par"], refdist=x["refdist"],
                        charts={k: [u[:6] for u in y["units"]] for k, y in x["charts"].items()}))
    chk.extra["outcomes"] = seen
    chk.extra["charts"] = n
    chk.log(f"{n} charts: {bad} deviate")


CHARTS = dict(R02=R02)
