"""Records histories of commands of the command line, each in a directory of its own.

usage: reccli.py DATA.ndjson HISTORIES.ndjson INFO.ndjson TRACE.ndjson"""
import copy
import dataclasses
import io
import json
import math
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings
from fractions import Fraction
from urllib.parse import unquote

os.environ["COLUMNS"] = "80"
import fresh  # noqa: E402,F401
from reccalls import on_alarm  # noqa: E402

TESTS = ["monobit", "frequency_within_block", "runs", "longest_runs", "binary_matrix_rank",
         "spectral", "non_overlapping_template_matching", "overlapping_template_matching",
         "maurers_universal", "linear_complexity", "serial", "approximate_entropy", "cusum",
         "random_excursions", "random_excursions_variant"]
TITLES = ["Frequency (Monobit) Test", "Frequency within Block Test", "Runs Test",
          "Longest Runs in Block Test", "Matrix Rank Test",
          "Discrete Fourier Transform (Spectral) Test", "Non-Overlapping Template Matching Test",
          "Overlapping Template Matching Test", "Maurer's Universal Test", "Linear Complexity Test",
          "Serial Test", "Approximate Entropy Test", "Cumulative Sums (Cusum) Test",
          "Random Excursions Test", "Random Excursions Variant Test"]
INDEX = {t: i + 1 for i, t in enumerate(TITLES)}
SEQ, SUMMARY = "Sequence To Test", "Test Results Summary"
RULE = re.compile(r"^─+ (.+?) ─+\s*$")
ROOT = os.getcwd()


class Ids:
    """what is large is kept as a string until the parent numbers it"""


def value_key(v):
    if isinstance(v, bool):
        return f"b{v}"
    if isinstance(v, (int, float)):
        return f"n{float(v)!r}" if float(v) == v else f"n{v!r}"
    return f"{type(v).__name__}{v!r}"


def seq_key(values):
    return "|".join(value_key(v) for v in values)


def norm(lines):
    lines = [x.rstrip() for x in lines]
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return "\n".join(lines)


def thousandths(x):
    """floor of x * 1000, and how the rest compares with 1/2"""
    y = Fraction(x) * 1000
    f = math.floor(y)
    r = y - f
    # numpy's rounding may miss a half by an ulp
    c = "zero" if r == 0 else "half" if abs(r - Fraction(1, 2)) < Fraction(1, 10 ** 10) else \
        "lt" if r < Fraction(1, 2) else "gt"
    return f, c


def outcome(t, result, error):
    import recsession
    if error is not None:
        return dict(t=t, ok=0, multi=0, dig="e", txt="ERR! " + str(error), f=0, c="zero", q=0)
    from rich.console import Console
    buf = io.StringIO()
    Console(file=buf, width=80).print(result)
    o = dict(t=t, ok=1, multi=int(hasattr(result, "results")), dig=recsession.digest(result),
             txt=norm(buf.getvalue().splitlines()), f=0, c="zero", q=0)
    if not o["multi"]:
        p = float(result.p)
        if math.isfinite(p) and abs(p) < 2:
            o["f"], o["c"] = thousandths(p)
            o["q"] = math.floor(Fraction(p) * 10 ** 9)
        else:
            o["f"] = -1
    return o


def values_of(d):
    return [d["vals"][b] for b in d["bits"]]


def direct(d):
    """the outcomes of calling the tests on the values"""
    import coinflip.randtests as randtests
    from coinflip.randtests import exceptions

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(300)
    row = dict(malformed=d.get("malformed", 0), form=d["form"], lines=d.get("lines", []),
               bits=d.get("bits", []), seq="", tests=[])
    if d["valid"]:
        row["seq"] = seq_key(values_of(d))
        for t, name in enumerate(TESTS, 1):
            if d.get("only") and t not in d["only"]:
                row["tests"].append(outcome(t, None, "not asked for"))
                continue
            if d.get("stub"):
                s = d["stub"][t - 1]
                row["tests"].append(outcome(t, None, STUB_ERROR) if s == "fail"
                                    else outcome(t, crafted(name, s), None))
                continue
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    r, e = getattr(randtests, name)(values_of(d)), None
                except exceptions.TestError as x:
                    r, e = None, x
            row["tests"].append(outcome(t, r, e))
    signal.alarm(0)
    return row


# ---------------------------------------------------------------- stubs

STUB_ERROR = "Stand-in cannot run"
_real = {}


def crafted(name, p):
    """a result of the test which has this p-value"""
    import coinflip.randtests as randtests
    if name not in _real:
        bits = [int(c) for c in "1100100100001111110110101010001000100001011010001100001000110100" * 4]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _real[name] = getattr(randtests, name)(bits)
    r = copy.copy(_real[name])
    if hasattr(r, "results"):
        return r
    return dataclasses.replace(r, p=p)


def install_stubs(stub, seen):
    from coinflip import _randtests
    from coinflip.randtests import exceptions

    def make(name, s):
        def standin(sequence, ctx=None, **kwargs):
            seen.append(list(sequence))
            if s == "fail":
                raise exceptions.TestInputError(STUB_ERROR)
            return crafted(name, s)
        return standin
    for name, s in zip(TESTS, stub):
        if s != "fail":
            crafted(name, s)
    for name, s in zip(TESTS, stub):
        setattr(_randtests, name, make(name, s))


# ---------------------------------------------------------------- parsing output

def parse_rows(lines):
    rows, omit, after = [], 0, 0
    for line in lines:
        m = re.search(r"omitting (\d+) rows", line)
        if m:
            omit, after = int(m.group(1)), len(rows)
            continue
        m = re.match(r"^(?:  \| | <  )(.*?)(?: \| {0,2}|  > ?)$", line)
        if m:
            rows.append([ord(c) for c in m.group(1)])
    return rows, omit, after


def parse_summary(lines):
    table, rest = [], []
    for line in lines:
        m = re.match(r"^\s*[║|│] (.*?) *[║|│] (.*?) *[║|│] (.*?) *[║|│]\s*$", line)
        if m:
            name, p, v = (x.strip() for x in m.groups())
            if name == "Statistical Test":
                continue
            if re.match(r"^\d\.\d{3}$", p):
                k = int(p.replace(".", ""))
            else:
                k = -1 if p == "-" else -2
            table.append(dict(t=INDEX.get(name, -1), p=k, v=v))
            continue
        m = re.match(r"^\s*• (.*?)\s*$", line)
        if m:
            rest.append(INDEX.get(m.group(1), -1))
    return table, rest


def parse_output(text):
    obs = dict(secs=[], rows=[], omit=0, after=0, table=[], rest=[], err=0)
    cur, parts = None, []
    for line in text.splitlines():
        m = RULE.match(line)
        if m:
            cur = (m.group(1), [])
            parts.append(cur)
        elif cur is not None:
            cur[1].append(line)
    obs["err"] = int("ERR!" in text or "Error:" in text)
    for title, lines in parts:
        if title == SEQ:
            # in example-run, the results follow after rules as well
            obs["rows"], obs["omit"], obs["after"] = parse_rows(lines)
        elif title == SUMMARY:
            obs["table"], obs["rest"] = parse_summary(lines)
        else:
            txt = norm(lines)
            obs["secs"].append(dict(t=INDEX.get(title, -1), ok=int("ERR!" not in txt), txt=txt))
    return obs


# ---------------------------------------------------------------- running

def read_files(paths):
    """[path, kind, seq, results] of each file of the directory but the data"""
    import pickle

    import recsession
    out = []
    known = {p: i + 1 for i, p in enumerate(paths)}
    for f in sorted(os.listdir("."), key=lambda f: (known.get(f, 99), f)):
        if f.startswith("data"):
            continue
        row = dict(path=known.get(f, -1), kind="other", seq=0, results=[])
        try:
            with open(f, "rb") as g:
                head = g.read()
            if head.lstrip()[:9].lower() == b"<!doctype" or head.lstrip()[:5].lower() == b"<html":
                row["kind"] = "html"
            else:
                with open(f, "rb") as g:
                    rep = pickle.load(g)
                row["kind"] = "res"
                row["seq"] = seq_key(rep.series.tolist())
                row["results"] = [[TESTS.index(n) + 1, recsession.digest(r)]
                                  for n, r in rep.results.items()]
        except Exception as e:
            row["kind"] = "broken:" + type(e).__name__
        out.append(row)
    return out


def args_of(c, paths, names):
    if c["op"] == "run":
        a = ["run"]
        f = names.get(c["d"], "data_missing")
        opt = ["--binary" if c.get("long") else "-b"] if c.get("binary") else []
        out = [] if c.get("auto") else [paths[c["out"] - 1]]
        return a + (opt + [f] + out if c.get("optfirst") else [f] + out + opt)
    if c["op"] == "read":
        return ["read", paths[c["from"] - 1]]
    if c["op"] == "report":
        return ["report", paths[c["from"] - 1], paths[c["out"] - 1]]
    a = ["example-run"]
    if c.get("n") is not None:
        a += ["-n", str(c["n"])]
    if c.get("gen"):
        a += ["-e", c["gen"]]
    if c.get("t"):
        a += ["-t", TESTS[c["t"] - 1]]
    return a


def run_history(job):
    h, data = job
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(400)
    tmp = tempfile.mkdtemp(prefix="cli-", dir=ROOT)
    try:
        os.chdir(tmp)
        return json.dumps(run_history_(h, data))
    finally:
        signal.alarm(0)
        os.chdir(ROOT)
        shutil.rmtree(tmp, ignore_errors=True)


def run_history_(h, data):
    import webbrowser

    from click.testing import CliRunner

    opened = []
    webbrowser.open = lambda url, *a, **k: opened.append(str(url)) or True
    from coinflip.cli.commands import main

    seen = []
    if h.get("stub"):
        install_stubs(h["stub"], seen)
    names = {}
    for d in h["data"]:
        names[d] = f"data{d}.{'bin' if data[str(d)]['form'] == 'bytes' else 'txt'}"
        with open(names[d], "wb") as f:
            f.write(bytes.fromhex(data[str(d)]["hex"]))
    paths = list(h["paths"])
    for c in h["cmds"]:
        os.environ["COLUMNS"] = str(c["cols"])
        args = args_of(c, paths, names)
        del opened[:]
        if c.get("wait"):
            time.sleep(c["wait"])
        if c.get("sub"):
            e = dict(os.environ, BROWSER="true", PYTHONIOENCODING="utf-8",
                     PYTHONPATH=os.path.join(fresh.REPO, "src"))
            p = subprocess.run([sys.executable, "-m", "coinflip", *args], env=e, text=True,
                               capture_output=True, timeout=200, encoding="utf-8")
            text, code = p.stdout + p.stderr, p.returncode
            crash = int("Traceback (most recent call last)" in p.stderr)
            exc = p.stderr[-300:] if crash else ""
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = CliRunner().invoke(main, args)
            text, code = r.output, r.exit_code
            crash = int(r.exception is not None and not isinstance(r.exception, SystemExit))
            exc = repr(r.exception)[:300] if crash else ""
        obs = parse_output(text)
        obs.update(exit=code, crash=crash, exc=exc, opened=0)
        if c.get("auto"):
            m = re.search(r"saved to (\S+)", text)
            if m and paths[c["out"] - 1].startswith("auto"):
                paths[c["out"] - 1] = m.group(1)
        if opened:
            for i, p in enumerate(paths, 1):
                if unquote(opened[-1]).endswith("/" + p):
                    obs["opened"] = i
        elif c.get("sub") and c["op"] == "report" and code == 0:
            obs["opened"] = c["out"]
        obs["files"] = read_files(paths) if not h.get("classes") else []
        c["obs"] = obs
    if h.get("classes"):
        d = data[str(h["data"][0])]
        cls = {value_key(v): i + 1 for i, v in enumerate(d["vals"])}
        h["seen"] = [class_runs(x, cls) for x in seen]
        h["stored"] = []
        import pickle
        for p in paths:
            if os.path.exists(p):
                with open(p, "rb") as f:
                    h["stored"] = class_runs(pickle.load(f).series.tolist(), cls)
        for c in h["cmds"]:
            c["obs"]["files"] = []
    else:
        h["seen"] = []
    return h


def class_runs(values, cls):
    out = []
    for v in values:
        k = cls.get(value_key(v), 99)
        if out and out[-1][0] == k:
            out[-1][1] += 1
        else:
            out.append([k, 1])
    return out


def main():
    data_path, his_path, info_path, trace_path = sys.argv[1:5]
    with open(data_path) as f:
        data = [json.loads(x) for x in f]
    with open(his_path) as f:
        hs = [json.loads(x) for x in f]
    import coinflip.cli.commands  # noqa: F401
    import coinflip.randtests  # noqa: F401
    import recsession  # noqa: F401

    ctx = multiprocessing.get_context("fork")
    by = {str(d["id"]): d for d in data}
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        infos = pool.map_async(direct, data if info_path != "-" else [], chunksize=1)
        jobs = [(h, {str(i): by[str(i)] for i in h["data"]}) for h in hs]
        got = [json.loads(x) for x in pool.map(run_history, jobs, chunksize=1)]
        infos = infos.get()
    names = {"": 0}

    def num(x):
        return names.setdefault(x, len(names))

    for row in infos:
        row["seq"] = num(row["seq"])
        for t in row["tests"]:
            t["dig"], t["txt"] = num(t["dig"]), num(t["txt"])
    if info_path != "-":
        with open(info_path, "w") as f:
            for row in infos:
                f.write(json.dumps(row) + "\n")
    with open(trace_path, "w") as f:
        for h in got:
            for c in h["cmds"]:
                for s in c["obs"]["secs"]:
                    s["text"] = s["txt"][:200] if s["txt"] not in names else ""
                    s["txt"] = num(s["txt"])
                for x in c["obs"]["files"]:
                    x["seq"] = num(x["seq"]) if x["seq"] else 0
                    x["results"] = [[t, num(g)] for t, g in x["results"]]
            f.write(json.dumps(h) + "\n")


if __name__ == "__main__":
    main()
