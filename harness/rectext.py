"""Records what the text of results says, and what the results are.

usage: rectext.py CALLS.ndjson TRACE.ndjson NPROC"""
import json
import math
import multiprocessing
import re
import signal
import sys
import warnings
from fractions import Fraction

import fresh  # noqa: F401

from calls import decode, make_sequence
from reccalls import kwargs_of, on_alarm, status_of

NONUM = -2147483647
MULTI = {"non_overlapping_template_matching": "template", "random_excursions": "state",
         "random_excursions_variant": "state"}
NORM = str.maketrans({"≥": ">=", "≤": "<=", "≈": "~", "λ": "lambda", "⌊": "floor(", "⌋": ")",
                      "χ": "chi", "ξ": "xi", "²": "2", "ψ": "psi"})


class TooLarge(Exception):
    pass


def asc(s):
    return " ".join(str(s).translate(NORM).split())


def split_at(x, d):
    """floor of x * 10^d, and how the rest compares with 1/2 (which rounding may miss by an ulp)"""
    y = Fraction(x) * 10 ** d
    f = math.floor(y)
    r = y - f
    if abs(f) > 2 ** 30:
        raise TooLarge
    tol = Fraction(1, 10 ** 9) * max(1, abs(y)) / 1000
    c = "zero" if r == 0 else "half" if abs(r - Fraction(1, 2)) <= tol else \
        "lt" if r < Fraction(1, 2) else "gt"
    return f, c


def num(x):
    x = float(x) if not isinstance(x, int) else x
    f1, c1 = split_at(x, 1)
    f3, c3 = split_at(x, 3)
    return dict(f1=f1, c1=c1, f3=f3, c3=c3)


def printed(s):
    """the number which a text is"""
    out = dict(k1=NONUM, k3=NONUM)
    if re.fullmatch(r"-?\d+(\.\d+)?(e[+-]\d+)?", s):
        x = Fraction(s)
        for k, d in (("k1", 10), ("k3", 1000)):
            y = x * d
            if y.denominator == 1 and abs(y) < 2 ** 31 - 1:
                out[k] = int(y)
    return out


def cell(s):
    s = s.strip()
    return dict(s=asc(s), ch=list(s), n=printed(s))


EMPTY = cell("")


# ------------------------------------------------------------------- the text


def paragraphs(lines):
    out = [[]]
    for x in lines:
        x = x.rstrip()
        if x:
            out[-1].append(x)
        elif out[-1]:
            out.append([])
    return [p for p in out if p]


def title_cell(s, feature=True):
    """of "matches of 0101 per block", that which is in between"""
    m = re.fullmatch(r"matches of (.*) per block", s)
    return cell(m[1] if m and feature else s)


def caption(s):
    m = re.fullmatch(r"(expected) (\S+) (matches)", s)
    if m:
        return dict(s="expected matches", n=printed(m[2]))
    m = re.fullmatch(r"(from expected mean) (\S+)", s)
    if m:
        return dict(s=m[1], n=printed(m[2]))
    return dict(s=s, n=printed(""))


def paragraph(lines):
    top = next((i for i, x in enumerate(lines) if x.lstrip().startswith("┌")), None)
    if top is not None:
        end = max(i for i, x in enumerate(lines) if "└" in x) if any("└" in x for x in lines) else top
        rows = [[cell(c) for c in x.strip().strip("│").split("│")]
                for x in lines[top:end] if x.lstrip().startswith("│")]
        title = " ".join(" ".join(x.split()) for x in lines[:top])
        cap = " ".join(" ".join(x.split()) for x in lines[end + 1:])
        return dict(k="table", title=title_cell(title), rows=rows, cap=caption(cap))
    m = re.fullmatch(r"\*? *(sub-test result for \w+) (\S+)", lines[0].strip())
    if m:
        return dict(k="star", title=cell(m[2]), rows=[], cap=dict(s=m[1], n=printed("")),
                    more=len(lines) - 1)
    rows = []
    for x in lines[1:]:
        m = re.fullmatch(r"\s+(\S.*?)  +(\S+)", x)
        rows.append([cell(m[1]), cell(m[2])] if m else [cell(x)])
    return dict(k="list", title=cell(lines[0]), rows=rows, cap=dict(s="", n=printed("")))


def parse(text, multi):
    lines = text.split("\n")
    failed = []
    if lines[0].startswith("WARN"):
        n = lines.index("") if "" in lines else len(lines)
        while n < len(lines) and lines[n - 1].strip() and lines[n].strip():
            n += 1
        msg = lines[:n]
        if "Multiple" in msg[0]:
            failed = [asc(x.strip().lstrip("•")) for x in msg[1:]]
        else:
            failed = [asc(" ".join(msg).split(":", 1)[1])]
        lines = lines[n:]
    if not multi:
        return failed, [paragraph(p) for p in paragraphs(lines)]
    top = next(i for i, x in enumerate(lines) if x.startswith("┌"))
    w = lines[top].index("┐") + 1
    before, both = lines[:top - 1], lines[top - 1:]
    left = [x[:w] for x in both]
    right = [x[w:] for x in both]
    # the title may be wider than the table
    if right[0].strip():
        left[0] += right[0]
        right[0] = ""
    paras = [p for part in (before, left, right) for p in paragraphs(part)]
    return failed, [paragraph(p) for p in paras]


# ----------------------------------------------------------------- the result


def ints(xs):
    out = [int(x) for x in xs]
    if any(a != b for a, b in zip(out, xs)):
        raise ValueError("not integers")
    return out


def facts(t, r):
    """what the object itself says"""
    h, ta = str(r.heads), str(r.tails)
    o = dict(t=t, heads=asc(h), tails=asc(ta), h1=h[:1], t1=ta[:1], fail=[asc(x) for x in r.failures],
             f={}, exps=[], subs=[], ranks=[], minat=0, more={}, headsfirst=1, stat=num(0), p=num(0))
    f = o["f"]

    def take(*names):
        for n in names:
            f[n], = ints([getattr(r, n)])

    if hasattr(r, "results"):
        items = list(r.results.items())
        ps = [float(s.p) for _, s in items]
        order = sorted(set(ps))
        o["ranks"] = [order.index(p) for p in ps]
        if not MULTI.get(t):
            o["ranks"] = []
        else:
            feature, least = r.min
            o["minat"] = next((i for i, (k, s) in enumerate(items, 1) if k == feature), 0)
            if o["minat"] and items[o["minat"] - 1][1] is not least:
                o["minat"] = -1
        for k, s in items:
            d = dict(stat=num(s.statistic), p=num(s.p), label="", bits=[], matches=[])
            if t.startswith("non"):
                d["bits"] = [1 if x == r.heads else 0 for x in s.template]
                d["matches"] = ints(s.block_matches)
            else:
                d["label"] = asc(getattr(s, "state", k))
            o["subs"].append(d)
    else:
        o["stat"], o["p"] = num(r.statistic), num(r.p)
    if t == "monobit":
        f["heads"], f["tails"] = ints([r.counts.heads.count, r.counts.tails.count])
        o["heads"], o["tails"] = asc(r.counts.heads.value), asc(r.counts.tails.value)
        o["headsfirst"] = int(r.counts.max is r.counts.heads or r.counts.max.value == r.counts.heads.value)
    elif t == "frequency_within_block":
        take("blocksize", "nblocks")
    elif t == "longest_runs":
        take("blocksize", "nblocks")
        f["keys"], f["acts"] = ints(r.maxlen_bins.keys()), ints(r.maxlen_bins.values())
        o["exps"] = [num(x) for x in r.expected_bincounts]
    elif t == "binary_matrix_rank":
        take("nrows", "ncols")
        c, e = r.rankcounts, r.expected_rankcounts
        f["acts"] = ints([c.remaining, c.runnerup, c.full])
        o["exps"] = [num(x) for x in (e.remaining, e.runnerup, e.full)]
    elif t == "spectral":
        o["more"] = {k: num(getattr(r, k)) for k in ("nbelow", "nbelow_expect", "diff")}
    elif t == "non_overlapping_template_matching":
        take("blocksize", "nblocks")
        o["more"] = dict(matches_expect=num(r.matches_expect))
    elif t == "overlapping_template_matching":
        take("template_size", "blocksize", "nblocks")
        f["ceil"], = ints([r.matches_ceil])
        f["template"] = [1 if x == r.heads else 0 for x in r.template]
        f["acts"] = ints(r.tallies)
        o["exps"] = [num(x) for x in r.expected_tallies]
    elif t == "maurers_universal":
        take("init_nblocks", "segment_nblocks")
    elif t == "linear_complexity":
        f["acts"] = ints(r.variance_bins.values())
        o["exps"] = [num(x) for x in r.expected_bincounts]
        o["more"] = dict(mean_expect=num(r.mean_expect))
    elif t == "serial":
        take("blocksize")
    return o


def run(c):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    try:
        return run_(c)
    except Exception as e:
        return dict(id=c["id"], status="err:" + type(e).__name__, error=str(e)[:300])
    finally:
        signal.alarm(0)


def run_(c):
    import coinflip.randtests as randtests

    seq, _ = make_sequence(decode(c["enc"]), c.get("rep"))
    warnings.simplefilter("ignore")
    try:
        r = getattr(randtests, c["test"])(seq, **kwargs_of(c["test"], c["par"]))
    except Exception as e:
        return dict(id=c["id"], status=status_of(e))
    try:
        o = facts(c["test"], r)
    except TooLarge:
        return dict(id=c["id"], status="large")
    text = str(r)
    try:
        failed, paras = parse(text, c["test"] in MULTI)
    except Exception as e:
        failed, paras = ["?" + type(e).__name__], []
    return dict(id=c["id"], status="ok", o=o, failed=failed, paras=paras, text=text)


def main():
    calls, trace, nproc = sys.argv[1:4]
    with open(calls) as f:
        calls = [json.loads(x) for x in f]
    import coinflip.randtests  # noqa: F401

    with multiprocessing.get_context("fork").Pool(int(nproc)) as pool, open(trace, "w") as t:
        for x in pool.imap(run, calls, chunksize=8):
            t.write(json.dumps(x) + "\n")


if __name__ == "__main__":
    main()
