"""Compares a recorded call with the verdict of the specification on it."""
import math
from fractions import Fraction

from calls import decode
from mpmath import mpf
from terms import Evaluator, to_mp


def close(got, want, tol):
    return isinstance(got, (int, float)) and math.isfinite(got) and abs(got - want) <= tol


def pair(terms, stat, p, got_stat, got_p, n, extra=0.0, fine=1e-12):
    """mismatches of one (statistic, p-value); fine: the absolute error of p alone"""
    out = []
    want = to_mp(terms.ev(stat))
    if not math.isfinite(float(want)):
        return []
    tol = 1e-9 * (1 + abs(float(want))) + 1e-12 * n + extra * (1 + abs(float(want)))
    if not close(got_stat, float(want), tol):
        out.append(f"statistic {got_stat!r}, should be {float(want)!r}")
    ps = []
    for s in (want - tol, want, want + tol):
        terms.stat = s
        ps.append(float(to_mp(terms.ev(p))))
    lo, hi = min(ps), max(ps)
    if not (isinstance(got_p, (int, float)) and math.isfinite(got_p)
            and lo * (1 - 1e-8) - fine <= got_p <= hi * (1 + 1e-8) + fine):
        out.append(f"p-value {got_p!r}, should be {ps[1]!r}")
    return out


def over_extra(verdict):
    """the last probability of the overlapping test is 1 - sum of the others"""
    try:
        for r in verdict["recterms"]:
            last = r[2][1][-1]
            n = Evaluator().mpv(last[1])
            p = float(Evaluator().mpv(last) / n)
            return 1e-13 / p if p > 1e-12 else math.inf
    except Exception:
        pass
    return 0.0


def once(verdict, call, real, line, recs, tie):
    out = []
    n = call["n"]
    ev = Evaluator(bits=lambda: decode(call["enc"]), tie=tie)
    extra = over_extra(verdict) if call["test"].startswith("overlapping") else 0.0
    if extra == math.inf or extra > 1e-6:
        return out, ev
    # scipy's gammaincc of 2^20 and more degrees of freedom
    coarse = 1e-6 if call["test"] in ("serial", "approximate_entropy") and \
        (call["par"].get("blocksize") or 0) > 20 else 1e-12
    if verdict["single"]:
        if "single" not in real:
            return ["no single result"], ev
        stat, p = verdict["single"]
        # the series of cusum has some n terms which all but cancel out
        fine = 1e-9 if call["test"] == "cusum" else coarse
        out += pair(ev, stat, p, *real["single"], n, extra, fine)
    if verdict["sub"]:
        want = verdict["sub"]
        got = {s[0]: s[1:] for s in real.get("sub", [])}
        if len(real.get("sub", [])) != len(want) or set(got) != {w[0] for w in want}:
            out.append(f"sub-results of {sorted(got)[:20]}, "
                       f"should be of {[w[0] for w in want][:20]}")
        else:
            for key, stat, p in want:
                out += [f"[{key}] {x}" for x in pair(ev, stat, p, *got[key], n, 0.0, coarse)]
                if len(out) > 4:
                    break
    reals = verdict["reals"] or {}
    for f, t in reals.items():
        if f in real.get("reals", {}):
            w = float(to_mp(ev.ev(t)))
            if not close(real["reals"][f], w, 1e-9 * (1 + abs(w)) + 1e-12 * n):
                out.append(f"{f} is {real['reals'][f]!r}, should be {w!r}")
    if recs:
        fails = set(line["fail"])
        out += [f"recommendation {r!r} is {'' if r in fails else 'not '}reported as failed"
                for r in verdict["recwhy"]]
        for label, _, t in verdict["recterms"]:
            sign = ev.ev(t)
            if sign > 0 and label in fails or sign < 0 and label not in fails:
                out.append(f"recommendation {label!r} is "
                           f"{'' if label in fails else 'not '}reported as failed")
        if real.get("nwarn", 0) != (1 if real.get("nfail") else 0):
            out.append(f"{real.get('nwarn')} warnings for {real.get('nfail')} failures")
    return out, ev


def mismatches(verdict, call, line, real, recs=False, values=True):
    """what of the recorded call differs from the specification"""
    out = []
    if "status" in verdict["why"]:
        return [f"outcome {line['status']} ({real.get('error', '')}), "
                f"should be {verdict['out']}"]
    if line["status"] != "ok":
        return []
    if values:
        if "faces" in verdict["why"]:
            out.append(f"faces {line['faces']} (1: the larger label), should be [1, 0]")
        for f in verdict["why"]:
            if f == "faces":
                continue
            out.append(f"{f} is {line['obs'][f]}, should be {verdict['obs'][f]}"[:300])
    if not values:
        verdict = dict(verdict, single=[], sub=[], reals={})
    m, ev = once(verdict, call, real, line, recs, 0)
    if m and ev.ties:
        m, _ = once(verdict, call, real, line, recs, 1)
    return out + m
