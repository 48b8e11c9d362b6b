"""Records the charts of results: usage reccharts.py CALLS.ndjson TRACE.ndjson REALS.ndjson NPROC

TRACE gets what is drawn as strings, which TLC reads; REALS the floats."""
import json
import math
import multiprocessing
import re
import signal
import sys
import warnings

import fresh  # noqa: F401

from calls import decode, make_sequence
from reccalls import kwargs_of, observe, on_alarm, status_of
from rectext import asc

import numpy as np


def norm(v, face=False):
    """a number or face as a string"""
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v.is_integer() and abs(v) < 2 ** 31:
            return str(int(v))
        return repr(v) if face else "~"
    if v is None:
        return "None" if face else "~"
    return asc(v)


def units_of(spec, datasets, data, enc, out, titles):
    """the units of a Vega-Lite specification, with their own data and encoding"""
    if "data" in spec:
        d = spec["data"]
        data = d["values"] if "values" in d else datasets.get(d.get("name"), [])
    enc = {**enc, **spec.get("encoding", {})}
    t = spec.get("title")
    if isinstance(t, dict):
        t = t.get("text")
    if isinstance(t, str):
        titles.append(asc(t))
    subs = [s for k in ("layer", "hconcat", "vconcat", "concat") for s in spec.get(k, [])]
    if "spec" in spec:
        subs.append(spec["spec"])
    for s in subs:
        units_of(s, datasets, data, enc, out, titles)
    if "mark" in spec:
        m = spec["mark"]
        out.append((m if isinstance(m, str) else m["type"], data, enc))


def field_of(enc, *channels):
    for c in channels:
        f = enc.get(c, {}).get("field")
        if f is not None:
            return f.replace("\\", "")
    return None


def rows_of(data, enc):
    fx, fy = field_of(enc, "x"), field_of(enc, "y")
    fg = field_of(enc, "column", "color", "row", "facet", "fill")
    return [(r.get(fx) if fx else None, r.get(fg) if fg else None, r.get(fy) if fy else None)
            for r in data]


def chart_of(method):
    d = method().to_dict()
    units, titles = [], []
    units_of(d, d.get("datasets", {}), [], {}, units, titles)
    return units, titles


def floats(xs):
    return [float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else None for x in xs]


PLOTS = {"monobit": "plot_counts", "frequency_within_block": "plot_count_nblocks",
         "longest_runs": "plot_maxlen_bins", "binary_matrix_rank": "plot_rank_counts",
         "overlapping_template_matching": "plot_template_matches", "linear_complexity": "plot_variance",
         "approximate_entropy": "plot_permutation_counts", "cusum": "plot_random_walk",
         "random_excursions": "plot_random_walk", "random_excursions_variant": "plot_random_walk"}


def run_(c):
    import coinflip.randtests as randtests

    line = dict(id=c["id"], status="ok", test=c["test"], enc=c["enc"], par=c["par"], obs={},
                o={}, charts={}, refdist=[])
    real = dict(id=c["id"], charts={}, titles={})
    seq, h = make_sequence(decode(c["enc"]), c.get("rep"))
    warnings.simplefilter("ignore")
    try:
        r = getattr(randtests, c["test"])(seq, **kwargs_of(c["test"], c["par"]))
    except Exception as e:
        line["status"] = status_of(e)
        return line, real
    obs, _, _, _ = observe(c["test"], r, h)
    line["obs"] = {k: v for k, v in obs.items() if isinstance(v, int)}
    hs, ts = str(r.heads), str(r.tails)
    line["o"] = dict(heads=asc(hs), tails=asc(ts), hx=norm(r.heads, True), tx=norm(r.tails, True),
                     h1=hs[:1], t1=ts[:1])
    name = PLOTS.get(c["test"])
    if name and hasattr(r, name):
        units, titles = chart_of(getattr(r, name))
        if c["test"] == "linear_complexity":
            nums = [re.findall(r"-?\d+(?:\.\d+)?", t) for t in titles]
            real["mean"] = [float(x) for n in nums for x in n]
            titles = [re.sub(r"-?\d+(?:\.\d+)?", "#", t) for t in titles]
        rows = [rows_of(d, e) for _, d, e in units]
        line["charts"][name] = dict(titles=titles, units=[
            [[norm(x, True) if x is not None else "", norm(g, True) if g is not None else "", norm(y)]
             for x, g, y in u] for u in rows])
        real["charts"][name] = [[[a[0], a[1], y] for a, (_, _, y) in
                                 zip(line["charts"][name]["units"][i], u)] for i, u in enumerate(rows)]
    elif name:
        line["missing"] = name
    if c["test"] == "spectral" and hasattr(r, "plot_fourier"):
        units, titles = chart_of(r.plot_fourier)
        real["fourier"] = []
        for mark, d, e in units:
            rows = rows_of(d, e)
            real["fourier"].append([mark, floats([x for x, _, _ in rows]), floats([y for _, _, y in rows])])
    if hasattr(r, "plot_refdist"):
        units, titles = chart_of(r.plot_refdist)
        line["refdist"] = titles
        real["refdist"] = [[floats([x for x, _, _ in rows_of(d, e)]),
                            floats([y for _, _, y in rows_of(d, e)])] for _, d, e in units]
    return line, real


def run(c):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    try:
        line, real = run_(c)
    except Exception as e:
        line = dict(id=c["id"], status="err:" + type(e).__name__, error=str(e)[:300])
        real = dict(id=c["id"])
    finally:
        signal.alarm(0)

    def clean(x):
        if isinstance(x, float) and not math.isfinite(x):
            return None
        return x
    return json.dumps(line), json.dumps(real, default=clean)


def main():
    calls, trace, reals, nproc = sys.argv[1:5]
    with open(calls) as f:
        calls = [json.loads(x) for x in f]
    import coinflip.randtests  # noqa: F401

    with multiprocessing.get_context("fork").Pool(int(nproc)) as pool, \
            open(trace, "w") as t, open(reals, "w") as w:
        for a, b in pool.imap(run, calls, chunksize=8):
            t.write(a + "\n")
            w.write(b + "\n")


if __name__ == "__main__":
    main()
