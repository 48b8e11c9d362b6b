"""R03: report documents against spec/Report.tla."""
import random

import gen
from calls import decode, raw
from chartchecks import dist_bad
from statchecks import explore
from terms import Evaluator, to_mp
from vlib import read_lines, write_lines

TOKENS = [("0", "1"), ("0", "1"), ("-1", "1"), ("7", "70"), ("9", "10"), ("a", "b"), ("A", "a"), ("H", "T"),
          ("0.5", "1.5"), ("False", "True"),
          ("<b>", "<i>"), ("<script>", "x"), ("</script>", "<!--"), ("&", "&amp;"), ("&lt;", "<"),
          ("a<b", "a>b"), ("'", "x'y"), ("</p>", "{{n}}"), ("&#39;", "&#x27;"), ("{% raw %}", "{#c#}"),
          ("</h2>", "<h2>"), ("$", "%"), ("\\n", "\\u0041"), ("head<", "heads"), ("--", "-->"),
          ("é", "ü"), ("α", "β"), ("一", "二"), ("\U0001f600", "\U0001f601"), ("naïve", "x"), ("a b", "a c"),
          ("Ünï<", "Ünï&")]


def dataset(rng, i):
    n = gen.size(rng, 8, 400)
    if rng.random() < .1:
        n = gen.size(rng, 400, 3000)
    if rng.random() < .15:
        n -= n % 8
        bs = gen.bits(rng, n)
        data = bytes(int("".join(map(str, bs[k:k + 8])), 2) for k in range(0, n, 8))
        return dict(id=i, binary=True, tokens=["0", "1"], bits=bs, enc=raw(bs), hex=data.hex())
    if rng.random() < .15:
        n -= n % 2
        bs = gen.bits(rng, n // 2)
        bs += [1 - b for b in bs]   # balanced
        rng.shuffle(bs)
    else:
        bs = gen.bits(rng, n)
    tok = rng.choice(TOKENS)
    return dict(id=i, binary=False, tokens=list(tok), bits=bs, enc=raw(bs),
                hex="".join(tok[b] + "\n" for b in bs).encode().hex())


NAMES = [("r1.pickle", "r2.pickle", "a.html", "b.html"), ("results one", "results two", "doc #1.html", "doc %20.html"),
         ("r", "s", "é?.html", "report&x.htm"), ("x.pkl", "y.pkl", "x.html", "y.html")]


def R03(chk):
    rng = random.Random(f"R03-{chk.seed}")
    em = explore(chk, "MCReport", dict(NF=2, NR=3, NO=2, MaxH=chk.pick(4, 5), MaxT=chk.pick(2, 3)),
                 ["DocsOK", "FilesOK"])
    hs = [e["h"] for e in em]
    hs = rng.sample(hs, min(len(hs), chk.pick(110, 1500)))
    data, hists = [], []
    for i, h in enumerate(hs):
        ids = []
        for _ in range(max([c["r"] for c in h if c["op"] == "store"])):
            data.append(dataset(rng, len(data)))
            ids.append(data[-1]["id"])
        a, b, x, y = rng.choice(NAMES)
        hists.append(dict(id=i, data=ids, h=h, files=[a, b], docs=[x, y], auto=int(rng.random() < .3)))
    dp, hp, tp, rp, vp = (chk.fresh(x) for x in ("data", "hists", "trace", "reals", "trace.ndjson"))
    write_lines(dp, data)
    write_lines(hp, hists)
    chk.impl("recreport.py", dp, hp, tp, rp, 8)
    got, bad = [], 0
    for h, x, r in zip(hists, read_lines(tp), read_lines(rp)):
        if "error" in x:
            bad += 1
            chk.violation(f"history {h['id']} {h['h']} has no documents: {x['error']}", history=h,
                          data=[data[i] for i in h["data"]])
        else:
            got.append((h, x, r))
    nsteps = sum(len(x["steps"]) for _, x, _ in got)
    chk.log(f"recorded {len(got)} histories of {nsteps} steps")
    write_lines(vp, [x for _, x, _ in got])
    docs = 0
    for (h, x, r), v in zip(got, chk.validate("TraceReport", vp, [.05 for _ in got])):
        why = [f"step {i}: {m}" for i, m in v["bads"]]
        for k, (of, s, units) in enumerate(zip(v["of"], x["steps"], r["reals"])):
            docs += of > 0
            if of > 0 and not why:
                d = data[h["data"][of - 1]]
                ev = Evaluator(bits=lambda: decode(d["enc"]))
                ev.stat = to_mp(ev.ev(v["dist"][of - 1]["stat"]))
                ms = [dist_bad(v["dist"][of - 1]["dist"], u, ev, len(d["bits"])) for u in units]
                if not ms or all(ms):
                    why.append(f"step {k + 1}: the reference distribution: {ms[0] if ms else 'missing'}")
        if why:
            bad += 1
            chk.violation(f"report of {[data[i]['tokens'] for i in h['data']]}: {why[0]}", history=h,
                          data=[data[i] for i in h["data"]], steps=x["steps"])
    for h, x, _ in got[:: max(1, len(got) // 4)]:
        chk.sample(dict(history=h["h"], last=x["steps"][-1].get("d")))
    chk.extra["documents"] = docs
    chk.log(f"{docs} documents: {bad} deviate")


REPORT = dict(R03=R03)
