"""Records histories of storing results and reporting them, each in a directory of its own.

usage: recreport.py DATA.ndjson HISTORIES.ndjson TRACE.ndjson REALS.ndjson NPROC

DATA: [id, hex: the data file, binary, enc, tokens: [tails, heads]]; HISTORIES: [id, data: ids,
h: commands]."""
import hashlib
import json
import math
import multiprocessing
import os
import pickle
import re
import shutil
import signal
import sys
import tempfile
import warnings
from fractions import Fraction
from html.parser import HTMLParser
from urllib.parse import unquote, urlsplit

os.environ["COLUMNS"] = "250"
import fresh  # noqa: E402,F401
from reccalls import on_alarm  # noqa: E402
from reccharts import floats, norm, rows_of, units_of  # noqa: E402
from reccli import INDEX, TESTS  # noqa: E402
from rectext import asc, split_at  # noqa: E402

ROOT = os.getcwd()


class Page(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ids, self.heads, self.text, self.scripts, self.open = [], [], [], [], []

    def handle_starttag(self, tag, attrs):
        self.open.append(tag)
        a = dict(attrs)
        if a.get("id"):
            self.ids.append(a["id"])
        if tag == "h2":
            self.heads.append("")
        if tag == "script":
            self.scripts.append("")

    def handle_endtag(self, tag):
        if tag in self.open:
            while self.open.pop() != tag:
                pass

    def handle_data(self, data):
        if "script" in self.open:
            self.scripts[-1] += data
        elif "h2" in self.open:
            self.heads[-1] += data
        else:
            self.text.append(data)


def decode_page(raw):
    m = re.search(rb"<meta[^>]*charset=[\"']?([\w-]+)", raw[:1024], re.I)
    # what browsers assume of a local file which declares nothing
    return raw.decode(m.group(1).decode() if m else "cp1252", "replace")


def scaled(s, d):
    x = Fraction(s) * 10 ** d
    return int(x) if x.denominator == 1 and abs(x) < 2 ** 31 else -2147483647


def document(raw, output):
    text = decode_page(raw)
    p = Page()
    p.feed(text)
    p.close()
    body = " ".join(" ".join(p.text).split())
    m = re.search(r"for the (.*?) values\b", text, re.S)
    out = dict(sections=[TESTS[INDEX[asc(t)] - 1] if asc(t) in INDEX else asc(t) for t in p.heads],
               warned=re.findall(r"randtests/(\w+)\.html not found", output),
               faces=[ord(c) for c in m.group(1)] if m else [],
               diffs=[int(x) for x in re.findall(r"difference of (\d+)\b", body)],
               n=[int(x) for x in re.findall(r"length, (\d+)\b", body)],
               stat=[scaled(x, 2) for x in re.findall(r"statistic of (-?\d+(?:\.\d+)?(?:e[+-]\d+)?)", body)],
               p=[scaled(x, 3) for x in re.findall(r"p-value of (-?\d+(?:\.\d+)?(?:e[+-]\d+)?)", body)],
               ids=p.ids, embeds=[], charts=[])
    reals = []
    for s in p.scripts:
        names = {}
        for m in re.finditer(r"\b(?:var|let|const)\s+(\w+)\s*=\s*", s):
            try:
                names[m.group(1)], _ = json.JSONDecoder().raw_decode(s, m.end())
            except ValueError:
                pass
        for m in re.finditer(r"vegaEmbed\(\s*[\"']#([\w-]+)[\"']\s*,\s*", s):
            out["embeds"].append(m.group(1))
            v = re.match(r"\w+", s[m.end():])
            if v and v.group(0) in names:
                d = names[v.group(0)]
            else:
                try:
                    d, _ = json.JSONDecoder().raw_decode(s, m.end())
                except ValueError:
                    continue
            units, titles = [], []
            units_of(d, d.get("datasets", {}), [], {}, units, titles)
            rows = [rows_of(x, e) for _, x, e in units]
            if sum(map(len, rows)) <= 50:
                out["charts"].append(dict(titles=titles, units=[
                    [[norm(x, True) if x is not None else "", norm(g, True) if g is not None else "", norm(y)]
                     for x, g, y in u] for u in rows]))
            else:
                out["charts"].append(dict(titles=titles, units=[]))
                reals.append([[floats([x for x, _, _ in u]), floats([y for _, _, y in u])] for u in rows])
    return out, reals


def invoke(args):
    from click.testing import CliRunner
    from coinflip.cli.commands import main
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = CliRunner().invoke(main, args)
    crash = r.exception is not None and not isinstance(r.exception, SystemExit)
    return r.output, (99 if crash else r.exit_code), repr(r.exception)[:200] if crash else ""


def about(d, path):
    """what is known of results: of the data, and (statistic, p-value) of what was stored"""
    with open(path, "rb") as f:
        rep = pickle.load(f)
    bits = d["bits"]
    tails, heads = d["tokens"]
    r = rep.results["monobit"]

    def num(x, digits):
        f, c = split_at(float(x), digits)
        return dict(f=f, c=c)
    o = dict(heads=asc(heads), tails=asc(tails), hx=asc(heads), tx=asc(tails), h1=heads[:1], t1=tails[:1])
    return dict(tests=list(rep.results), hx=[ord(c) for c in heads], tx=[ord(c) for c in tails],
                heads=sum(bits), tails=len(bits) - sum(bits), n=len(bits), s2=num(r.statistic, 2),
                p3=num(r.p, 3), enc=d["enc"], o=o)


def digest(path, seen):
    if not os.path.exists(path):
        return 0
    with open(path, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()
    return seen.setdefault(h, len(seen) + 1)


def run_(job):
    h, data = job
    import webbrowser
    opened = []
    webbrowser.open = lambda url, *a, **k: opened.append(str(url)) or True
    info, lib = [], []
    for i in h["data"]:
        d = data[str(i)]
        name = f"data{i}"
        with open(name, "wb") as f:
            f.write(bytes.fromhex(d["hex"]))
        out, code, exc = invoke(["run", name, f"lib{i}"] + (["-b"] if d["binary"] else []))
        if code:
            return dict(id=h["id"], error=f"run fails: {exc} {out[-200:]}"), dict(id=h["id"])
        info.append(about(d, f"lib{i}"))
        lib.append(f"lib{i}")
    files, docs = list(h["files"]), list(h["docs"])
    seen, steps, reals = {}, [], []
    for c in h["h"]:
        e = dict(c=c, exit=0, opened=0)
        rs = []
        if c["op"] == "store":
            shutil.copyfile(lib[c["r"] - 1], files[c["f"] - 1])
        else:
            path = docs[c["o"] - 1]
            auto = h.get("auto") and not os.path.exists(path)
            before = set(os.listdir("."))
            del opened[:]
            out, e["exit"], e["exc"] = invoke(["report", files[c["f"] - 1]] + ([] if auto else [path]))
            made = path
            if auto:
                new = sorted(set(os.listdir(".")) - before)
                if len(new) == 1 and new[0] in out:
                    made = new[0]
            at = os.path.abspath(made)
            e["opened"] = int([unquote(urlsplit(u).path) for u in opened] == [at]
                              and all(u.startswith("file:") for u in opened))
            if e["exit"] == 0 and os.path.exists(made):
                with open(made, "rb") as f:
                    e["d"], rs = document(f.read(), out)
                if auto:
                    os.rename(made, path)
            elif e["exit"] == 0:
                e["exit"] = 98
        e["files"] = [digest(f, seen) for f in files]
        e["docs"] = [digest(f, seen) for f in docs]
        steps.append(e)
        reals.append(rs)
    return (dict(id=h["id"], info=info, nf=len(files), no=len(docs), steps=steps),
            dict(id=h["id"], reals=reals))


def run(job):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(300)
    tmp = tempfile.mkdtemp(prefix="rep-", dir=ROOT)
    try:
        os.chdir(tmp)
        a, b = run_(job)
    except Exception as e:
        a, b = dict(id=job[0]["id"], error=f"{type(e).__name__}: {e}"[:300]), dict(id=job[0]["id"])
    finally:
        signal.alarm(0)
        os.chdir(ROOT)
        shutil.rmtree(tmp, ignore_errors=True)

    def clean(x):
        return [clean(y) for y in x] if isinstance(x, list) else \
            None if isinstance(x, float) and not math.isfinite(x) else x
    return json.dumps(a), json.dumps(b)


def main():
    data, hists, trace, reals, nproc = sys.argv[1:6]
    with open(data) as f:
        data = {str(d["id"]): d for d in map(json.loads, f)}
    with open(hists) as f:
        hists = [json.loads(x) for x in f]
    import coinflip.cli.commands  # noqa: F401
    import coinflip.randtests  # noqa: F401
    jobs = [(h, {str(i): data[str(i)] for i in h["data"]}) for h in hists]
    with multiprocessing.get_context("fork").Pool(int(nproc)) as pool, \
            open(trace, "w") as t, open(reals, "w") as w:
        for a, b in pool.imap(run, jobs, chunksize=2):
            t.write(a + "\n")
            w.write(b + "\n")


if __name__ == "__main__":
    main()
