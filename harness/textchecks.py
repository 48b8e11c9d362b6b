"""R01: the text of results against spec/Text.tla."""
import random

import gen
from calls import raw
from statchecks import explore
from represent_names import LABELS, containers_of
from anychecks import TESTS
from vlib import read_lines, write_lines

# faces whose text is short
SHORT = [x for x in LABELS if x not in ("ts", "tz", "td", "dec", "frac", "tuple", "date", "space")]


def text_calls(rng, per, lo=2, hi=3000):
    out = []
    for t in TESTS:
        for _ in range(per):
            n = gen.size(rng, max(lo, 128 if t == "longest_runs" else lo), hi)
            if t == "longest_runs" and rng.random() < .1:
                n = rng.choice([6271, 6272, 7000])
            par = gen.params(rng, t, n)
            if t.startswith("non_overlapping") and par.get("template_size", 9) > 5:
                par["template_size"] = 5
                n = max(n, 5 * 4)
                par["blocksize"] = rng.randint(5, n)
            la = rng.choice(SHORT) if rng.random() < .5 else "01"
            out.append((t, raw(gen.bits(rng, n)), par, la + "/" + rng.choice(containers_of(la)[:2])))
    return out


WHERE = {-1: "its failed recommendations are not those of the result",
         -2: "it does not have the paragraphs it should",
         -3: "the object's minimum is not the first sub-result of the least p-value"}


def R01(chk):
    rng = random.Random(f"R01-{chk.seed}")
    explore(chk, "MCText", {"Den": 40, "Bound": chk.pick(400, 4000), "MaxSubs": chk.pick(4, 7)},
            ["RoundingOK", "DiffOK", "IntOK", "FirstOK", "TableOK"])
    tuples = text_calls(rng, chk.pick(100, 1200))
    calls = [gen.call(i, t, e, p, rep=rep) for i, (t, e, p, rep) in enumerate(tuples)]
    cp, tp, vp = (chk.fresh(x) for x in ("calls", "texts", "trace.ndjson"))
    write_lines(cp, calls)
    chk.impl("rectext.py", cp, tp, 8, env={"COLUMNS": "80", "LINES": "50"})
    texts = read_lines(tp)
    got, bad = [], 0
    seen = {}
    for c, x in zip(calls, texts):
        seen[x["status"]] = seen.get(x["status"], 0) + 1
        if x["status"].startswith("err:"):
            bad += 1
            chk.violation(f"{c['test']}(n={c['n']}, {c['par']}, as {c['rep']}) has no text: "
                          f"{x['status']} {x.get('error')}", call=c)
        if x["status"] == "ok":
            got.append((c, x))
    write_lines(vp, [{k: x[k] for k in ("id", "o", "failed", "paras")} for _, x in got])
    vs = chk.validate("TraceText", vp, [.05 + len(x["paras"]) * .01 for _, x in got])
    for (c, x), v in zip(got, vs):
        if v["bad"]:
            bad += 1
            where = WHERE.get(v["bad"]) or f"its paragraph {v['bad']} does not state the result"
            chk.violation(f"text of {c['test']}(n={c['n']}, {c['par']}, as {c['rep']}): {where}",
                          call=c, text=x["text"], result=x["o"], parsed=x["paras"], failed=x["failed"])
    for c, x in got[:: max(1, len(got) // 5)]:
        chk.sample(dict(test=c["test"], n=c["n"], par=c["par"], text=x["text"][:300]))
    chk.extra["outcomes"] = seen
    chk.log(f"{len(calls)} calls {seen}: {bad} deviate")


TEXT = dict(R01=R01)
