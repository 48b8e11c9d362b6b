"""L01-L06: the command line against spec/Cli.tla, Parse.tla and Print.tla."""
import math
import random

import gen
from statchecks import explore
from vlib import read_lines, write_lines

LABELS = [([0, 1], ["0", "1"]), ([0, 1], ["0", "1"]), (["a", "b"], ["a", "b"]),
          (["H", "T"], ["H", "T"]), ([-1, 1], ["-1", "1"]), ([0.5, 1.5], ["0.5", "1.5"]),
          ([False, True], ["False", "True"]), (["heads", "tails"], ["heads", "tails"]),
          ([9, 10], ["9", "10"]), (["head", "heads"], ["head", "heads"]), ([7, 70], ["7", "70"]),
          (["A", "a"], ["A", "a"]), (["no", "yes"], ["no", "yes"]), (["1", "x"], ["1", "x"]),
          ([float("-inf"), 2.0], ["-inf", "2"]), ([1000000, 10000000], ["1000000", "10000000"]),
          (["é", "ü"], ["é", "ü"]), ([-3, -2], ["-3", "-2"]), (["a b", "a c"], ["a b", "a c"])]
JSONABLE = {float("-inf"): "-inf"}


def text_file(tokens, eol="\n", last=True):
    return (eol.join(tokens) + (eol if last else "")).encode()


def text_data(rng, bits, labels=None, blanks=False):
    """a text file of bits"""
    vals, toks = labels or rng.choice(LABELS)
    lines = [b + 1 for b in bits]
    if blanks:
        for _ in range(rng.randint(1, 5)):
            lines.insert(rng.randrange(len(lines) + 1), 0)
    raw = text_file(["" if x == 0 else toks[x - 1] for x in lines],
                    rng.choice(["\n", "\n", "\r\n"]), rng.random() < .7)
    return dict(form="text", valid=1, vals=vals, bits=list(bits), lines=lines, hex=raw.hex())


def byte_data(raw):
    bits = [b >> (7 - i) & 1 for b in raw for i in range(8)]
    return dict(form="bytes", valid=int(len(set(bits)) == 2), vals=[0, 1], bits=bits,
                lines=list(raw), hex=raw.hex())


def bad(raw, lines=None, malformed=0):
    return dict(form="text", valid=0, malformed=malformed, lines=lines or [], hex=raw.hex())


def bad_data(rng):
    """invalid text files"""
    k = rng.randrange(14)
    n = rng.randint(1, 60)
    if k == 0:
        return bad(b"")
    if k == 1:
        return bad(b"\n" * n, [0] * n)
    if k == 2:
        return bad(b"1\n" * n, [1] * n)
    if k == 3:
        toks = rng.choice([["0", "1", "2"], ["a", "b", "c"], ["0", "1", "x"], ["0.5", "1", "2"]])
        ls = [1, 2, 3] + [rng.randint(1, 3) for _ in range(n)]
        rng.shuffle(ls)
        return bad(text_file([toks[x - 1] for x in ls]), ls)
    if k == 4:
        ls = [rng.randint(1, 2) for _ in range(n)] + [1, 2]
        at = rng.randrange(len(ls) + 1)
        na = rng.choice(["NaN", "NA", "nan", "N/A", "null"])
        toks = [["0", "1"][x - 1] for x in ls]
        toks.insert(at, na)
        ls.insert(at, 3)
        return bad(text_file(toks), ls)
    if k == 5:
        na = rng.choice(["NaN", "NA", "nan"])
        ls = [rng.choice([1, 2]) for _ in range(n)] + [1, 2]
        return bad(text_file([["x", na][x - 1] for x in ls]), ls, malformed=1)
    if k == 6:
        return bad(text_file([f"{rng.randint(0, 1)},{rng.randint(0, 1)}" for _ in range(n)]),
                   malformed=1)
    if k == 7:
        return bad(b"0\n1\n" * n + b"0,1\n", malformed=1)
    if k == 8:
        a, b = rng.choice([(b"1", b"\xff"), (b"\xe9", b"e"), (b"0", b"1\x80"), (b"\xc3(", b"x"),
                           (b"\xed\xa0\x80", b"y"), (b"\xf0\x28", b"1"), (b"\xc0\xb0", b"0")])
        return bad(rng.choice([b"0\n1\n\xff\xfe\xfa\n" * n, (a + b"\n" + b + b"\n") * n,
                               (a + b"\n") * n + (b + b"\n") * 2,
                               "\ufeff0\n1\n1\n".encode("utf-16-le") * n]), malformed=1)
    if k == 9:
        return bad(b"0", [1])
    if k == 10:
        return bad(text_file([str(x) for x in range(n + 2)]), list(range(1, n + 3)))
    if k == 13:
        ls = [1, 2, 3] + [rng.randint(1, 3) for _ in range(n)]
        toks = near_floats(rng, 3)[1]
        return bad(text_file([toks[x - 1] for x in ls]), ls)
    if k == 11:
        return bad(b"0\n1\n\"" + b"1\n0\n" * n, malformed=1)
    return bad(text_file(["abc", "abd", "abe"] * n), [1, 2, 3] * n)


def bad_bytes(rng):
    k = rng.randrange(3)
    n = rng.randint(1, 300)
    d = byte_data(b"" if k == 0 else b"\x00" * n if k == 1 else b"\xff" * n)
    return d


def valid_bits(rng, small=False):
    n = rng.choice([2, 3, 4, 5, 7, 8, 9, 12, 16, 31]) if small else \
        rng.choice([100, 127, 128, 129, 200, 300, 400, 513])
    return gen.bits(rng, n)


def valid_data(rng):
    r = rng.random()
    if r < .3:
        while True:
            d = byte_data(bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 15, 16, 40]))))
            if d["valid"]:
                return d
    return text_data(rng, valid_bits(rng, r < .65), blanks=rng.random() < .2)


def prep(ds):
    for i, d in enumerate(ds, 1):
        d["id"] = i
    return ds


def dump(x):
    return x


def check(chk, data, hs, what):
    prep(data)
    form = {d["id"]: d["form"] for d in data}
    for i, h in enumerate(hs):
        h["id"] = i
        h["npaths"] = len(h["paths"])
        h["data"] = sorted({c["d"] for c in h["cmds"] if c["op"] == "run" and c["d"]})
        for c in h["cmds"]:
            c.setdefault("cols", 80)
            c.setdefault("t", 0)
            if c["op"] == "run" and c["d"]:
                c["binary"] = int(form[c["d"]] == "bytes")
    dp, hp, ip, tp = (chk.fresh(x) for x in ("data", "hist", "info.ndjson", "trace.ndjson"))
    write_lines(dp, data)
    write_lines(hp, hs)
    chk.impl("reccli.py", dp, hp, ip, tp, timeout=850)
    vs = chk.validate("TraceCli", tp, [.3 * len(h["cmds"]) for h in hs], env=dict(INFO=ip))
    got = read_lines(tp)
    nbad = 0
    for h, v in zip(got, vs):
        if v["bad"]:
            nbad += 1
            c = h["cmds"][v["bad"] - 1]
            o = c["obs"]
            short = {k: x for k, x in c.items() if k != "obs"}
            detail = dict(crash=o["exc"], exit=o["exit"], message="no error is printed",
                          files=o["files"],
                          sections=[(s["t"], s["ok"], s.get("text", "")) for s in o["secs"]
                                    if s.get("text")][:2] or [(s["t"], s["ok"]) for s in o["secs"]],
                          sequence=dict(rows=len(o["rows"]), omit=o["omit"]),
                          summary=[o["table"], o["rest"]], opened=o["opened"])[v["why"]]
            d = next((x for x in data if x["id"] == short.get("d")), None)
            about = "" if d is None else f" on {d['form']} {d['hex'][:60]}"
            before = [(x["op"], x.get("d"), x.get("out")) for x in h["cmds"][:v["bad"] - 1]]
            chk.violation(f"{short}{about} after {before[-4:]}: wrong {v['why']}: {str(detail)[:300]}",
                          history=[{k: x for k, x in c.items() if k != "obs"} for c in h["cmds"]],
                          data=d, step=v["bad"], obs=o)
    if got:
        chk.sample(dict(cmds=[{k: x for k, x in c.items() if k != "obs"}
                              for c in got[len(got) // 2]["cmds"]]))
    n = sum(len(h["cmds"]) for h in hs)
    chk.extra["commands"] = chk.extra.get("commands", 0) + n
    chk.log(f"{what}: {len(hs)} histories of {n} commands, {nbad} deviate")
    return got


def concretise(rng, em, nvalid, ninvalid, valid, invalid, mers, npaths, subs=0):
    """abstract commands become ones on the data of these ids"""
    hs = []
    for x in em:
        cmds = []
        pickv = {i: rng.choice(valid) for i in range(1, nvalid + 1)}
        picki = {i: rng.choice(invalid) for i in range(nvalid + 1, nvalid + ninvalid + 1)}
        for c in x["cmds"]:
            c = dict(c)
            if c["op"] == "run" and c["d"]:
                c["d"] = pickv.get(c["d"]) or picki[c["d"]]
                c["long"] = rng.random() < .5
                c["optfirst"] = rng.random() < .5
            elif c["op"] == "example":
                i = rng.choice(mers["valid" if c["d"] <= nvalid else "invalid"])
                c.update(d=i[0], n=i[1], gen="Mersenne")
            cmds.append(c)
        paths = [f"out{i}.pickle" for i in range(1, npaths[0] + 1)] + \
            [f"page{i}.html" for i in range(1, npaths[1] + 1)]
        hs.append(dict(paths=paths, cmds=cmds))
    return hs


def mersenne(n, seed=42):
    out = []
    for _ in range(n):
        seed = 16807 * seed % (2 ** 31 - 1)
        out.append(int(seed >= 2 ** 30))
    return out


def gen_data(n):
    bits = mersenne(n)
    return dict(form="gen", valid=int(len(set(bits)) == 2), vals=[0, 1], bits=bits,
                lines=[b + 1 for b in bits], hex="")


def pool(rng, nvalid, ninvalid):
    data = [valid_data(rng) for _ in range(nvalid)]
    data += [bad_data(rng) for _ in range(ninvalid)] + [bad_bytes(rng) for _ in range(ninvalid // 3)]
    ns = [0, 1, 2, 3, 10, 64, 100, 150, 512]
    data += [gen_data(n) for n in ns]
    prep(data)
    k = len(data) - len(ns)
    mers = dict(valid=[], invalid=[])
    for n, d in zip(ns, data[k:]):
        mers["valid" if d["valid"] else "invalid"].append((d["id"], n))
    v = [d["id"] for d in data[:k] if d["valid"]]
    i = [d["id"] for d in data[:k] if not d["valid"]]
    return data, v, i, mers


def cli_explore(chk, nv, ni, no, nh, emit=True):
    return explore(chk, "MCCli", {"NValid": nv, "NInvalid": ni, "NOut": no, "NHtml": nh,
                                  "EmitOn": "TRUE" if emit else "FALSE"}, [],
                   props=["WritesOK", "RefusesOK", "RunOK", "ReadOK"], more="VIEW View\n")


def L02(chk):
    rng = random.Random(f"L02-{chk.seed}")
    cli_explore(chk, 4, 1, 1, 0, emit=False)
    data = []
    for n in list(range(2, 17)) + [31, 127, 128, 129, 160]:
        for _ in range(chk.pick(2 if n > 9 else 3, 12)):
            data.append(text_data(rng, gen.bits(rng, n), blanks=rng.random() < .1))
    for _ in range(chk.pick(16, 120)):
        data.append(valid_data(rng))
    # a stand-in for each test makes every subset of them fail
    hs = [dict(paths=["res"], cmds=[dict(op="run", d=i, out=1, auto=int(i % 5 == 0)),
                                    dict(op="read", **{"from": 1})])
          for i in range(1, len(data) + 1)]
    for h in hs:
        if h["cmds"][0]["auto"]:
            h["paths"] = ["auto"]
        elif rng.random() < .6:
            h["paths"] = [rng.choice(NAMES)]
    # runs of different seconds keep different files
    for _ in range(chk.pick(2, 8)):
        a, b = rng.sample(range(1, min(20, len(data)) + 1), 2)
        hs.append(dict(paths=["auto1", "auto2"], cmds=[
            dict(op="run", d=a, out=1, auto=1), dict(op="run", d=b, out=2, auto=1, wait=1.05),
            dict(op="read", **{"from": 1}), dict(op="read", **{"from": 2})]))
    check(chk, data, hs, "sequences of all kinds")
    # a single test of longer generated sequences
    data, hs = [], []
    for n in (5001, 10007, 20011) + chk.pick((), (50001, 100003)):
        data.append(gen_data(n))
        for t in (1, 2, 3, 13):
            hs.append(dict(paths=["o"], cmds=[dict(op="example", d=len(data), n=n, gen="Mersenne", t=t)]))
    for d in data:
        d["only"] = [1, 2, 3, 13]
    check(chk, data, hs, "single tests of longer sequences")
    subsets(chk, rng, chk.pick(60, 800))


NAMES = ["res", "res ", " res", "~res", "r es.pickle", "rés.ultat", "a.b.c", ".hidden", "Res.PICKLE", "res.gz",
         "res.html", "100%", "r#1?x=2", "res.pickle.tmp", "$HOME", "日本", "x" * 200]


def subsets(chk, rng, count):
    from concurrent.futures import ThreadPoolExecutor  # noqa: F401
    data, hs = [], []
    for k in range(count):
        d = text_data(rng, gen.bits(rng, rng.choice([4, 9, 40, 130])), blanks=False)
        if k < 15:
            d["stub"] = ["fail" if t != k else .5 for t in range(15)]
        elif k < 30:
            d["stub"] = ["fail" if t == k - 15 else .5 for t in range(15)]
        elif k < 32:
            d["stub"] = [["fail", .5][k - 30]] * 15
        else:
            d["stub"] = ["fail" if rng.random() < .5 else .5 for _ in range(15)]
        data.append(d)
        hs.append(dict(paths=["res"], stub=d["stub"],
                       cmds=[dict(op="run", d=k + 1, out=1), dict(op="read", **{"from": 1})]))
    check(chk, data, hs, "all kinds of subsets of tests which cannot run")


def L03(chk):
    rng = random.Random(f"L03-{chk.seed}")
    nv, no = chk.pick((2, 1), (3, 2))
    em = cli_explore(chk, nv, 1, no, 1)
    data, v, i, mers = pool(rng, chk.pick(14, 40), 4)
    if len(em) > chk.pick(200, 2500):
        em = rng.sample(em, chk.pick(200, 2500))
    hs = concretise(rng, em, nv, 1, v, i, mers, (no, 1))
    check(chk, data, hs, "every command in every state")
    hs = []
    for _ in range(chk.pick(25, 250)):
        cmds = []
        for _ in range(rng.randint(4, 9)):
            r = rng.random()
            if r < .4:
                cmds.append(dict(op="run", d=rng.choice(v + i[:2]), out=rng.randint(1, 3)))
            elif r < .8:
                cmds.append(dict(op="read", **{"from": rng.randint(1, 3)}))
            else:
                cmds.append(dict(op="report", out=rng.randint(4, 5), **{"from": rng.randint(1, 3)}))
        hs.append(dict(paths=rng.sample(NAMES, 5), cmds=cmds))
    for _ in range(chk.pick(4, 16)):
        d = rng.choice(v)
        hs.append(dict(paths=["a", "r.html"], cmds=[
            dict(op="run", d=d, out=1, sub=1), dict(op="read", sub=1, **{"from": 1}),
            dict(op="report", out=2, sub=1, **{"from": 1}), dict(op="read", **{"from": 1})]))
    check(chk, data, hs, "generated histories")
    # long sequences, and all kinds of values
    data, hs = [], []
    for k in range(chk.pick(40, 400)):
        n = [5001, 7200, 12345, 20007][k] if k < 4 else gen.size(rng, 2, 400)
        d = text_data(rng, gen.coin(rng, n) if n > 4 else [0, 1], TOKENS6[(k * 7 + chk.seed) % len(TOKENS6)])
        if len(set(d["bits"])) < 2:
            continue
        d["stub"] = [rng.choice(["fail", rng.random()]) for _ in range(15)]
        data.append(d)
        hs.append(dict(paths=["o", "r.html"], stub=d["stub"], cmds=[
            dict(op="run", d=len(data), out=1), dict(op="read", **{"from": 1}),
            dict(op="report", out=2, **{"from": 1}), dict(op="read", **{"from": 1})]))
    check(chk, data, hs, "sequences of all lengths and values")


def L04(chk):
    rng = random.Random(f"L04-{chk.seed}")
    cli_explore(chk, 1, 3, 2, 1, emit=False)
    data = [bad_data(rng) for _ in range(chk.pick(150, 1500))]
    data += [bad_bytes(rng) for _ in range(chk.pick(12, 60))]
    nbad = len(data)
    data += [valid_data(rng) for _ in range(chk.pick(30, 300))]
    ns = [-3, 0, 1, 2, 3, 4, 5, 6, 7, 8, 127, 128]
    data += [gen_data(n) for n in ns]
    hs = []
    good = list(range(nbad + 1, len(data) - len(ns) + 1))
    for i in range(1, nbad + 1):
        cmds = [dict(op="run", d=i, out=1, sub=int(i % chk.pick(12, 6) == 0))]
        if i % 5 == 0:
            g = rng.choice(good)
            cmds = [dict(op="run", d=g, out=1), *cmds, dict(op="read", **{"from": 1})]
        elif i % 7 == 0:
            cmds += [dict(op="run", d=0, out=1), dict(op="read", **{"from": 1}),
                     dict(op="report", out=2, **{"from": 1})]
        hs.append(dict(paths=["o", "r.html"], cmds=cmds))
    for g in good:
        hs.append(dict(paths=["o"], cmds=[dict(op="run", d=g, out=1)]))
    for k, n in enumerate(ns):
        d = len(data) - len(ns) + 1 + k
        for t in range(0, 16) if n in (2, 3, 5, 7, 127, 128) else (0, 1, 4, 6):
            hs.append(dict(paths=["o"], cmds=[dict(op="example", d=d, n=n, gen="Mersenne", t=t)]))
    check(chk, data, hs, "invalid and valid data")


# ------------------------------------------------------------------ L01, L06

NFAIL = ["fail"] * 15


def record(chk, data, hs):
    """runs with stand-ins for the tests"""
    prep(data)
    for i, (d, h) in enumerate(zip(data, hs)):
        h.update(id=i, data=[d["id"]], stub=h.get("stub", NFAIL))
        for c in h["cmds"]:
            c.setdefault("cols", 80)
            c.setdefault("t", 0)
            if c["op"] == "run":
                c["d"] = d["id"]
                c["binary"] = int(d["form"] == "bytes")
    dp, hp, tp = (chk.fresh(x) for x in ("data", "hist", "trace.ndjson"))
    write_lines(dp, data)
    write_lines(hp, hs)
    chk.impl("reccli.py", dp, hp, "-", tp, timeout=850)
    return read_lines(tp)


def parse_check(chk, data, what):
    hs = [dict(paths=["o"], classes=1, cmds=[dict(op="run", out=1, long=i % 2, optfirst=i % 3 == 0)])
          for i in range(len(data))]
    got = record(chk, data, hs)
    lines, ws = [], []
    for d, h in zip(data, got):
        form = "byteruns" if d["form"] == "bytes" and d.get("runs") else d["form"]
        lines.append(dict(id=d["id"], form=form, lines=d["lines"] if d["form"] == "bytes" else [],
                          runs=d.get("runs") or [[x, 1] for x in d["lines"]],
                          stored=h["stored"], seen=h["seen"], ntests=15))
        ws.append(.1 + (len(d["lines"]) + len(h["stored"])) / 2000)
    tp = chk.fresh("parse.ndjson")
    write_lines(tp, lines)
    vs = chk.validate("TraceParse", tp, ws)
    nbad = 0
    for d, h, v in zip(data, got, vs):
        if v["ok"] != "ok":
            nbad += 1
            c = h["cmds"][0]
            if v["ok"] == "stored":
                what_ = f"stores {h['stored'][:12]}"
            elif v["ok"] == "tested":
                what_ = f"tests {[s for s in h['seen'] if s != h['stored']][:1]}"
            else:
                what_ = f"runs {len(h['seen'])} tests"
            chk.violation(f"run on the {d['form']} file {d['hex'][:80] or d.get('about')} "
                          f"({d['vals']}): {str(what_)[:250]} (exit {c['obs']['exit']}, {c['obs']['exc']})",
                          data={k: x for k, x in d.items() if len(str(x)) < 5000})
    chk.sample(dict(file=data[len(data) // 2]["hex"][:80]))
    chk.extra["files"] = chk.extra.get("files", 0) + len(data)
    chk.log(f"{what}: {len(data)} files, {nbad} deviate")


TOKENS = LABELS[1:] + [
    ([0, 255], ["0", "255"]), ([1e300, 2e300], ["1e300", "2e300"]), ([0.1, 0.2], ["0.1", "0.2"]),
    ([12345678901, 12345678902], ["12345678901", "12345678902"]),
    (["0x1", "0x2"], ["0x1", "0x2"]), (["T", "F"], ["T", "F"]), ([0, 1], ["00", "01"]),
    (["H;T", "T;H"], ["H;T", "T;H"]), (["#1", "#2"], ["#1", "#2"]), (["yes", "NO"], ["yes", "NO"]),
    (["1 2", "3"], ["1 2", "3"]), (["_", "-"], ["_", "-"]), (["true!", "false!"], ["true!", "false!"]),
    (["日", "本"], ["日", "本"]), ([True, False], ["TRUE", "FALSE"]), (["2020-01-01", "x"], ["2020-01-01", "x"]),
    ([1.0, 0.5], ["1", "0.5"]), (["1", "one"], ["1", "one"]), (["0.50", "half"], ["0.50", "half"]),
    ([" a", "b"], [" a", "b"]), (["a ", "a"], ["a ", "a"]), (["\\a", "\\b"], ["\\a", "\\b"]),
    (["a\\", "b"], ["a\\", "b"]), (['a"b', "b"], ['a"b', "b"]), (["+", "-x"], ["+", "-x"]),
    (["1%", "2%"], ["1%", "2%"]), (["1_0", "2_0"], ["1_0", "2_0"]), (["a\tb", "a\tc"], ["a\tb", "a\tc"]),
    (["nano", "nana"], ["nano", "nana"]), (["(1)", "(2)"], ["(1)", "(2)"]), ([1, 2], ["1", " 2"]),
    (["1e", "e1"], ["1e", "e1"]), (["$1", "$2"], ["$1", "$2"]), (["a:b", "a|b"], ["a:b", "a|b"]),
    (["True", "1"], ["True", "1"]), (["head", "tail"], ["head", "tail"]), (["''", "'"], ["''", "'"]),
]


def near_floats(rng, k):
    """the texts of neighbouring floats"""
    x = rng.random() * 10.0 ** rng.randint(-6, 6)
    out = [x]
    while len(out) < k:
        out.append(math.nextafter(out[-1], math.inf))
    return out, [repr(x) for x in out]


def run_text(labels, runs, eol="\n", last=True):
    """a file of runs of equal lines"""
    vals, toks = labels
    parts = [(("" if v == 0 else toks[v - 1]) + eol) * n for v, n in runs]
    raw = "".join(parts)
    if not last and raw.endswith(eol):
        raw = raw[:-len(eol)]
    return dict(form="text", valid=1, vals=vals, lines=[], runs=[list(r) for r in runs],
                hex=raw.encode().hex(), about=f"{toks} in runs {runs}"[:200])


def L01(chk):
    rng = random.Random(f"L01-{chk.seed}")
    em = explore(chk, "MCParse", {"MaxBytes": chk.pick(2, 3), "MaxLines": chk.pick(5, 7)},
                 ["BytesOK", "LinesOK"], props=["GrowOK"])
    data = []
    for i, x in enumerate(em):
        if x["kind"] == "bytes":
            d = byte_data(bytes(x["f"]))
            if d["valid"]:
                data.append(d)
        elif {1, 2} <= set(x["f"]):
            vals, toks = TOKENS[i % len(TOKENS)]
            raw = text_file(["" if v == 0 else toks[v - 1] for v in x["f"]],
                            ["\n", "\r\n"][i % 2], i % 3 > 0)
            data.append(dict(form="text", valid=1, vals=vals, lines=x["f"], hex=raw.hex()))
    parse_check(chk, data, "all short files")
    data = []
    for _ in range(chk.pick(60, 600)):
        data.append(byte_data(b"\x00\xff" + bytes(rng.randrange(256) for _ in range(gen.size(rng, 1, 3000)))))
        data.append(byte_data(bytes([rng.choice([0, 1, 10, 13, 26, 32, 127, 128, 255])
                                     for _ in range(gen.size(rng, 1, 200))]) + b"\x01"))
        ls = [rng.choice([0, 1, 2, 1, 2, 1, 2]) for _ in range(gen.size(rng, 1, 3000))] + [1, 2]
        vals, toks = rng.choice(TOKENS)
        raw = text_file(["" if v == 0 else toks[v - 1] for v in ls], rng.choice(["\n", "\r\n"]),
                        rng.random() < .6)
        data.append(dict(form="text", valid=1, vals=vals, lines=ls, hex=raw.hex()))
    for _ in range(chk.pick(25, 250)):
        vals, toks = near_floats(rng, 2)
        ls = [rng.choice([1, 2]) for _ in range(gen.size(rng, 1, 60))] + [1, 2]
        data.append(dict(form="text", valid=1, vals=vals, lines=ls,
                         hex=text_file([toks[v - 1] for v in ls]).hex()))
    # longer than the pieces in which files are read
    for vals, toks in [t for t in TOKENS if len({x.isdigit() for x in t[1]}) == 2] + TOKENS[:4]:
        a = rng.randint(100000, 200000)
        data.append(run_text((vals, toks), [(1, a), (2, 3), (1, 2), (2, a), (1, 1)]))
        data.append(run_text((vals, toks), [(2, 2 * a), (1, 1)], last=False))
    big = bytes(rng.randrange(256) for _ in range(chk.pick(9000, 70000)))
    data.append(byte_data(big))
    for size in [1 << 12, 1 << 13, 1 << 16, 10 ** 5, 1 << 17] + chk.pick([], [1 << 18, 10 ** 6, 1 << 20]):
        runs = [(rng.randrange(256), rng.randint(1, 3)) for _ in range(6)]
        runs.insert(rng.randint(0, 3), (rng.choice([0, 255]), size - rng.randint(0, 12)))
        runs.insert(rng.randint(2, 5), (rng.choice([0, 255]), rng.randint(1, 300)))
        d = byte_data(b"".join(bytes([b]) * n for b, n in runs))
        data.append(dict(d, lines=[], runs=[list(r) for r in runs]))
    parse_check(chk, data, "generated files")


def L06(chk):
    rng = random.Random(f"L06-{chk.seed}")
    explore(chk, "MCPrint", {"MaxN": chk.pick(120, 400), "MaxW": chk.pick(7, 16), "Den": 1},
            ["TilesOK", "WholeOK", "OmitOK", "WidthOK"])
    data, hs = [], []

    def add(n, cols, labels=None):
        bits = gen.bits(rng, n)
        data.append(text_data(rng, bits, labels or rng.choice(TOKENS6)))
        hs.append(dict(paths=["o"], cmds=[dict(op="run", out=1, cols=cols),
                                          dict(op="read", cols=cols, **{"from": 1})]))

    for cols in [40, 41, 47, 60, 79, 80, 81, 100, 200]:
        w = min(cols, 80) - 8
        for n in {2, 3, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 11 * w + 1, 12 * w - 1, 12 * w,
                  12 * w + 1, 13 * w, 13 * w + 1, 20 * w + 7, 108 * w, 108 * w + 1}:
            add(n, cols)
    for labels in WIDE:
        for n in [5, 73] + chk.pick([], [72, 146, 900, 2000]):
            add(n, 80, labels)
    for _ in range(chk.pick(200, 2500)):
        cols = rng.choice([80, 80, rng.randint(40, 100)])
        add(gen.size(rng, 2, rng.choice([100, 1200, 3000])), cols)
    got = record(chk, data, hs)
    lines, meta = [], []
    for d, h in zip(data, got):
        for c in h["cmds"]:
            o = c["obs"]
            lines.append(dict(id=len(lines), rows=o["rows"], omit=o["omit"], after=o["after"],
                              bits=d["bits"], cols=c["cols"]))
            meta.append((d, c))
    tp = chk.fresh("print.ndjson")
    write_lines(tp, lines)
    vs = chk.validate("TracePrint", tp, [.05 + len(x["bits"]) / 3000 for x in lines])
    nbad = 0
    for (d, c), v, x in zip(meta, vs, lines):
        if not v["ok"]:
            nbad += 1
            rows = ["".join(map(chr, r)) for r in x["rows"]]
            chk.violation(f"{c['op']} of {len(d['bits'])} values {d['vals']} at {c['cols']} columns "
                          f"prints {len(rows)} rows, omitting {x['omit']}: {rows[:2]} .. {rows[-1:]} "
                          f"({c['obs']['exc']})", bits=d["bits"], cols=c["cols"], rows=rows)
    chk.sample(dict(n=len(data[5]["bits"]), cols=hs[5]["cmds"][0]["cols"],
                    rows=["".join(map(chr, r)) for r in lines[10]["rows"]][:3]))
    chk.extra["printed"] = len(lines)
    chk.log(f"{len(lines)} printed sequences, {nbad} deviate")


# wide, control, combining and whitespace characters
WIDE = [(x, x) for x in (["日", "本"], ["日本", "x"], ["\tx", "y"], ["\x07a", "b"], ["\x1b[31mA", "B"],
                         ["\u0301a", "e"], ["\u200ba", "b"], ["e\u0301", "f"], ["\xa0a", "b"],
                         ["\u3000a", "b"], ["😀", "😁"], ["👍🏽", "y"], ["é", "e"], ["|", "-"],
                         ["<", ">"], ["\\", "/"], ["[", "]"])]
TOKENS6 = TOKENS + WIDE


def L05(chk):
    rng = random.Random(f"L05-{chk.seed}")
    explore(chk, "MCPrint", {"MaxN": 2, "MaxW": 1, "Den": chk.pick(2000, 50000)},
            ["RoundedOK", "VerdictOK"])
    from fractions import Fraction
    edge = .01
    special = [0.0, 1.0, edge, math.nextafter(edge, 0), math.nextafter(edge, 1), .0095, .00949, .0105,
               .009999, .010001, .0005, .0004999, 1e-7, 5e-324, .9995, .99949, .9999999, .5, .25, .125,
               .0625, .1, .2, .3, .05, .049999, .001, .002, .011, .99, .98, .095, .0004, 1e-12, .1234565,
               math.nextafter(1, 0), math.nextafter(.0095, 0), math.nextafter(.0105, 1), .0015, .0025]
    assert Fraction(edge) > Fraction(1, 100)
    data, hs = [], []
    for k in range(chk.pick(110, 1500)):
        d = text_data(rng, gen.bits(rng, rng.choice([4, 20])))
        ps = []
        for t in range(15):
            r = rng.random()
            p = special[(k * 15 + t) % len(special)] if k < 30 or r < .4 else \
                rng.random() * rng.choice([1, .02, .0105, .001]) if r < .8 else "fail"
            ps.append(p)
        d["stub"] = ps
        data.append(d)
        hs.append(dict(paths=["res"], stub=ps,
                       cmds=[dict(op="run", d=k + 1, out=1), dict(op="read", **{"from": 1})]))
    check(chk, data, hs, "p-values near the level and at the edges of rounding")
    # real results
    data, hs = [], []
    for k in range(chk.pick(60, 600)):
        d = valid_data(rng)
        if k % 2:
            n = rng.choice([40, 100, 128, 200])
            d = text_data(rng, rng.choice([lambda: gen.coin(rng, n, rng.choice([.35, .4, .6])),
                                           lambda: gen.markov(rng, n, .65), lambda: gen.bits(rng, n)])()
                          + [0, 1])
        data.append(d)
        hs.append(dict(paths=["res"], cmds=[dict(op="run", d=k + 1, out=1),
                                            dict(op="read", **{"from": 1})]))
    ns = [20, 100, 300]
    for n in ns:
        data.append(gen_data(n))
        hs.append(dict(paths=["res"], cmds=[dict(op="example", d=len(data), n=n, gen="Mersenne")]))
    check(chk, data, hs, "of real results")


CLI = dict(L01=L01, L05=L05, L06=L06, L02=L02, L03=L03, L04=L04)
