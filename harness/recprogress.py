"""Records the progress of tests: usage recprogress.py JOBS.ndjson TRACE.ndjson"""
import io
import json
import multiprocessing
import os
import signal
import sys
import warnings

import fresh  # noqa: F401

from calls import decode
from reccalls import kwargs_of, on_alarm, toint
from recsession import result_digest

import pandas as pd
from rich.console import Console
from rich.progress import Progress

MAX = 2 ** 31 - 1


def amount(x):
    i = toint(x)
    return i if abs(i) < MAX else -7


class Log:
    """what changes of the bars of a Progress, whichever method changes it"""

    def __init__(self):
        self.events, self.bars, self.ids = [], [], []

    def put(self, k, t, x=0):
        last = self.events[-1] if self.events else None
        if k == "adv" and last and (last["k"], last["t"], last["x"]) == (k, t, x):
            last["m"] += 1
        else:
            self.events.append(dict(k=k, t=t, x=x, m=1))

    def look(self, progress):
        for task in list(progress.tasks):
            if task.id not in self.ids:
                self.ids.append(task.id)
                self.bars.append([0, task.total, False])
                self.put("add", len(self.ids), amount(task.total))
            t = self.ids.index(task.id)
            bar = self.bars[t]
            if task.started and not bar[2]:
                bar[2] = True
                self.put("start", t + 1)
            if task.total != bar[1]:
                bar[1] = task.total
                self.put("total", t + 1, amount(task.total))
            if task.completed != bar[0]:
                self.put("adv", t + 1, amount(task.completed - bar[0]))
                bar[0] = task.completed


METHODS = ["add_task", "update", "advance", "start_task", "stop_task", "reset"]


def watch(log):
    """every method of every Progress tells the log"""
    for name in METHODS:
        f = getattr(Progress, name, None)
        if f is None:
            continue

        def method(self, *args, _f=f, **kw):
            out = _f(self, *args, **kw)
            if not getattr(self, "_nested", False):
                log.look(self)
            return out

        setattr(Progress, name, method)


def alone(name, seq, kw):
    from coinflip import _randtests

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return getattr(_randtests, name)(seq, **kw)
        except Exception as e:
            return ("exc", type(e).__name__, str(e))


def one(job, log):
    from coinflip import _randtests

    bits = decode(job["enc"])
    kw = kwargs_of(job["test"], job["par"])
    make = (lambda: pd.Series(bits)) if job.get("series") else (lambda: list(bits))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        progress = Progress(auto_refresh=False, console=Console(file=io.StringIO()))
        task = progress.add_task("test")
        try:
            r = getattr(_randtests, job["test"])(make(), ctx=(progress, task), **kw)
            log.look(progress)
            log.put("yield", 1)
        except Exception as e:
            r = ("exc", type(e).__name__, str(e))
            log.look(progress)
            log.put("fail", 1)
    nwarn = sum("NIST recommendation" in str(w.message) for w in ws)
    return [result_digest(r)], [result_digest(alone(job["test"], make(), kw))], nwarn


def whole(job, log):
    from coinflip.cli import runner

    series = pd.Series(decode(job["enc"]))
    got, names = [], []
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        for i, (name, r, e) in enumerate(runner.run_all_tests(series), 1):
            log.put("yield", i)
            names.append(name)
            got.append(result_digest(("exc", type(e).__name__, str(e)) if e is not None else r))
    nwarn = sum("NIST recommendation" in str(w.message) for w in ws)
    return got, [result_digest(alone(x, pd.Series(decode(job["enc"])), {})) for x in names], nwarn


def single(job, log):
    from coinflip.cli import runner

    series = pd.Series(decode(job["enc"]))
    kw = kwargs_of(job["test"], job["par"])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = runner.run_test(series, job["test"], **kw)
            log.put("yield", 1)
        except Exception as e:
            r = ("exc", type(e).__name__, str(e))
            log.put("fail", 1)
    nwarn = sum("NIST recommendation" in str(w.message) for w in ws)
    return [result_digest(r)], [result_digest(alone(job["test"], series, kw))], nwarn


def run(job):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(150)
    log = Log()
    saved = {name: getattr(Progress, name) for name in METHODS if hasattr(Progress, name)}
    watch(log)
    err = ""
    try:
        got, want, nwarn = dict(one=one, all=whole, cli=single)[job["mode"]](job, log)
    except Exception as e:
        err = f"{type(e).__name__}: {e}"[:300]
        log.put("crash", 1)
        got, want, nwarn = [], [], 0
    finally:
        signal.alarm(0)
        for name, f in saved.items():
            setattr(Progress, name, f)
    fp = [int(g == w) for g, w in zip(got, want)]
    return json.dumps(dict(id=job["id"], log=log.events, fp=fp, alone=[1] * len(want),
                           nwarn=nwarn, err=err))


def quiet():
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)


def main():
    with open(sys.argv[1]) as f:
        jobs = [json.loads(x) for x in f]
    import coinflip.cli.runner  # noqa: F401

    with multiprocessing.get_context("fork").Pool(8, initializer=quiet) as pool:
        out = pool.map(run, jobs, chunksize=4)
    with open(sys.argv[2], "w") as f:
        f.writelines(x + "\n" for x in out)


if __name__ == "__main__":
    main()
