"""Records calls of the statistical tests: runs under the interpreter of /repo.

usage: python reccalls.py CALLS.ndjson TRACE.ndjson REALS.ndjson [NPROC]

TRACE gets the discrete observations, which TLC reads; REALS the floats.
"""
import json
import math
import multiprocessing
import signal
import sys
import warnings

import fresh  # noqa: F401 (no stale bytecode of coinflip)

from calls import decode, make_sequence

BAD = -999999999

NORM = str.maketrans({"≥": ">=", "≤": "<=", "≈": "~", "λ": "lambda", "⌊": "floor(", "⌋": ")"})


def norm_label(s):
    return str(s).translate(NORM)


def toint(x):
    try:
        i = int(x)
        if i == x and abs(i) < 2 ** 31:
            return i
    except Exception:
        pass
    return BAD


def tofloat(x):
    try:
        if isinstance(x, complex):
            return float("nan")
        return float(x)
    except Exception:
        return float("nan")


def ints(xs):
    return [toint(x) for x in xs]


def status_of(e):
    names = [c.__name__ for c in type(e).__mro__]
    if "NonBinarySequenceError" in names:
        return "nonbinary"
    if "MinimumInputError" in names:
        return "minimum"
    if "TestNotImplementedError" in names:
        return "notimpl"
    return "err:" + type(e).__name__


def kwargs_of(test, par):
    kw = {}
    for k, v in par.items():
        if k in ("nrows", "ncols"):
            kw["matrix_dimen"] = (par["nrows"], par["ncols"])
        elif k == "reverse":
            kw["reverse"] = bool(v)
        else:
            kw[k] = v
    return kw


# the documented order of parameters
ORDER = {
    "frequency_within_block": ["blocksize"], "binary_matrix_rank": ["matrix_dimen"],
    "non_overlapping_template_matching": ["template_size", "blocksize"],
    "overlapping_template_matching": ["template_size", "blocksize", "matches_ceil"],
    "maurers_universal": ["blocksize", "init_nblocks"], "linear_complexity": ["blocksize"],
    "serial": ["blocksize"], "approximate_entropy": ["blocksize"], "cusum": ["reverse"],
}


def arguments(c):
    """the parameters as they are passed: by name, in order, or all by name"""
    kw = kwargs_of(c["test"], c["par"])
    order = ORDER.get(c["test"], [])
    style = (c["id"] * 2654435761 >> 7) % 4
    if style == 2 and set(kw) <= set(order):
        last = max((order.index(k) for k in kw), default=-1)
        return [kw.get(k, None if k != "reverse" else False) for k in order[:last + 1]], {}
    if style == 3:
        return [], dict({k: None for k in order if k != "reverse"}, **kw)
    return [], kw


SIMPLE = {
    "monobit": ["n", "diff"],
    "frequency_within_block": ["blocksize", "nblocks"],
    "runs": ["n", "nheads", "ntails", "statistic"],
    "longest_runs": ["blocksize", "nblocks"],
    "binary_matrix_rank": ["nrows", "ncols", "fullrank"],
    "spectral": ["n"],
    "non_overlapping_template_matching": ["template_size", "blocksize", "nblocks"],
    "overlapping_template_matching": ["template_size", "blocksize", "matches_ceil", "nblocks"],
    "maurers_universal": ["blocksize", "init_nblocks", "segment_nblocks"],
    "linear_complexity": ["blocksize"],
    "serial": ["blocksize"],
    "approximate_entropy": ["blocksize"],
    "cusum": ["n"],
    "random_excursions": ["n"],
    "random_excursions_variant": ["n"],
}
REALS = {
    "runs": ["prop_heads", "prop_tails"],
    "spectral": ["nbelow", "nbelow_expect", "diff", "threshold"],
    "non_overlapping_template_matching": ["matches_expect", "variance"],
    "overlapping_template_matching": ["lambda_"],
    "maurers_universal": ["mean_expect", "variance"],
    "linear_complexity": ["mean_expect"],
    "approximate_entropy": ["approx_entropy"],
}


def tmpl_value(template, heads):
    v = 0
    for x in template:
        v = 2 * v + (1 if x == heads else 0)
    return v


def observe(test, r, heads):
    """discrete observations, reals, single (stat, p), sub-results"""
    obs = {f: toint(getattr(r, f)) for f in SIMPLE[test] if hasattr(r, f)}
    reals = {f: tofloat(getattr(r, f)) for f in REALS.get(test, []) if hasattr(r, f)}
    single, sub = None, None
    if hasattr(r, "results"):
        sub = []
        for pos, (key, s) in enumerate(r.results.items(), 1):
            if test == "non_overlapping_template_matching":
                k = tmpl_value(key, heads)
            elif test == "serial":
                k = pos
            else:
                k = toint(key)
            sub.append([k, tofloat(s.statistic), tofloat(s.p)])
        sub.sort(key=lambda x: x[0])
    else:
        single = [tofloat(r.statistic), tofloat(r.p)]
    if test == "monobit" and hasattr(r, "counts"):
        obs["heads"] = toint(r.counts.heads.count)
        obs["tails"] = toint(r.counts.tails.count)
    elif test == "frequency_within_block" and hasattr(r, "counts"):
        obs["counts"] = ints(r.counts)
    elif test == "longest_runs" and hasattr(r, "maxlen_bins"):
        obs["maxlen_bins"] = ints(r.maxlen_bins.values())
    elif test == "binary_matrix_rank" and hasattr(r, "rankcounts"):
        c = r.rankcounts
        obs["rankcounts"] = ints([c.remaining, c.runnerup, c.full])
    elif test == "non_overlapping_template_matching":
        ordered = sorted(r.results.items(), key=lambda kv: tmpl_value(kv[0], heads))
        if all(hasattr(s, "block_matches") for _, s in ordered):
            obs["block_matches"] = [ints(list(s.block_matches)) for _, s in ordered]
    elif test == "overlapping_template_matching" and hasattr(r, "tallies"):
        obs["tallies"] = ints(r.tallies)
    elif test == "linear_complexity" and hasattr(r, "variance_bins"):
        obs["variance_bins"] = ints(r.variance_bins.values())
    elif test == "cusum":
        obs["max_cusum"] = toint(r.statistic)
        if hasattr(r, "reverse"):
            obs["reverse"] = 1 if r.reverse else 0
    elif test == "serial" and hasattr(r, "normalised_sums") and hasattr(r, "blocksize"):
        for k in (0, 1, 2):
            if r.blocksize - k in r.normalised_sums:
                reals[f"psi2_{k}"] = tofloat(r.normalised_sums[r.blocksize - k])
    elif test == "approximate_entropy" and hasattr(r, "phis"):
        for k in (0, 1):
            if r.blocksize + k in r.phis:
                reals[f"phi_{k}"] = tofloat(r.phis[r.blocksize + k])
    return obs, reals, single, sub


def real_class(x):
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf"
    if x < 0:
        return "neg"
    if x == 0:
        return "zero"
    if x < 1:
        return "unit"
    return "one" if x == 1 else "pos"


def face(x, heads, tails):
    """1: the heads label, 0: the tails label, by value and kind"""
    def kind(v):
        if isinstance(v, (bool, str, bytes, tuple)):
            return type(v).__name__
        return "other"
    try:
        for label, code in ((heads, 1), (tails, 0)):
            if x == label and (kind(x) == kind(label) or kind(x) == "other"
                               and type(x).__module__ == "numpy"):
                return code
    except Exception:
        pass
    return -1


class CallTimeout(Exception):
    pass


def on_alarm(*_):
    raise CallTimeout("the call took too long")


TIMEOUT = 120


def run_call(c):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(TIMEOUT)
    try:
        return run_call_(c)
    finally:
        signal.alarm(0)


def run_call_(c):
    import coinflip.randtests as randtests
    import coinflip.randtests_refimpl as refimpl

    bits = decode(c["enc"])
    kw = kwargs_of(c["test"], c["par"])
    args, named = arguments(c)
    mode = c.get("mode")
    keep = ("id", "test", "impl", "par") + (("n",) if mode == "params" else ("enc",))
    line = {k: c[k] for k in keep}
    line.update(status="ok", obs={}, fail=[])
    real = {"id": c["id"], "status": "ok"}
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if c["impl"] == "ref":
                stat, p = getattr(refimpl, c["test"])(list(bits), **kw)
                if isinstance(stat, (list, tuple)):
                    keys = range(len(stat))
                    if c["test"] == "serial":
                        keys = [1, 2]
                    elif c["test"] == "random_excursions":
                        keys = [-4, -3, -2, -1, 1, 2, 3, 4]
                    elif c["test"] == "random_excursions_variant":
                        keys = [*range(-9, 0), *range(1, 10)]
                    real["sub"] = [[k, tofloat(s), tofloat(q)]
                                   for k, s, q in zip(keys, stat, p)]
                    if len(stat) != len(p):
                        real["sub"] = []
                else:
                    real["single"] = [tofloat(stat), tofloat(p)]
                    if c["test"] in ("runs", "cusum"):
                        f = {"runs": "statistic", "cusum": "max_cusum"}[c["test"]]
                        line["obs"][f] = toint(stat)
            else:
                seq, heads = make_sequence(bits, c.get("rep"))
                if c.get("rep"):
                    import represent
                    tails = represent.LABELS[c["rep"].split("/")[0]][0]
                r = getattr(randtests, c["test"])(seq, *args, **named)
                obs, reals, single, sub = observe(c["test"], r, heads)
                line["obs"] = obs
                line["fail"] = sorted({norm_label(x) for x in r.failures})
                if c.get("rep"):
                    line["faces"] = [face(x, heads, tails) for x in (r.heads, r.tails)]
                texts = [norm_label(w.message) for w in ws if issubclass(w.category, UserWarning)
                         and "NIST recommendation" in str(w.message)]
                if mode == "params":
                    line["obs"] = {k: v for k, v in obs.items() if isinstance(v, int)}
                    line.update(nfail=len(r.failures), nwarn=len(texts),
                                named=[x for x in line["fail"] if any(x in t for t in texts)])
                elif mode == "range":
                    line["obs"] = {k: v for k, v in obs.items() if isinstance(v, int)}
                    vals = [single] if single is not None else [x[1:] for x in sub]
                    line["cls"] = [real_class(x) for v in vals for x in v]
                real.update(reals=reals)
                if single is not None:
                    real["single"] = single
                if sub is not None:
                    real["sub"] = sub
                real["nfail"] = len(r.failures)
                real["nwarn"] = sum(issubclass(w.category, UserWarning)
                                    and "NIST recommendation" in str(w.message) for w in ws)
    except Exception as e:
        line["status"] = real["status"] = status_of(e)
        real["error"] = f"{type(e).__name__}: {e}"[:300]
    return json.dumps(line), json.dumps(real)


def weight(c):
    return c.get("w", 1)


def main():
    calls_path, trace_path, reals_path = sys.argv[1:4]
    nproc = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    with open(calls_path) as f:
        calls = [json.loads(line) for line in f]
    import coinflip.randtests  # noqa: F401 (imported before forking)
    import coinflip.randtests_refimpl  # noqa: F401

    if nproc > 1:
        with multiprocessing.get_context("fork").Pool(nproc) as pool:
            out = pool.map(run_call, calls, chunksize=max(1, min(32, len(calls) // (8 * nproc))))
    else:
        out = [run_call(c) for c in calls]
    with open(trace_path, "w") as t, open(reals_path, "w") as r:
        for line, real in out:
            t.write(line + "\n")
            r.write(real + "\n")


if __name__ == "__main__":
    main()
