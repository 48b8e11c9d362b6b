"""Records overlapping calls of the statistical tests, whose steps (lines of coinflip) take turns as
they are told to.

usage: recthreads.py LIBRARY.ndjson JOBS.ndjson TRACE.ndjson"""
import json
import os
import signal
import sys
import threading
import warnings

import fresh  # noqa: F401

from calls import decode
from reccalls import kwargs_of, on_alarm
from recsession import digest

SRC = None


def src_dir():
    import coinflip
    return os.path.dirname(os.path.abspath(coinflip.__file__)) + os.sep


class Call:
    """a call, as a process whose steps are counted"""

    def __init__(self, c, seq, board, pid):
        self.c, self.seq, self.board, self.pid = c, seq, board, pid
        self.steps = 0
        self.goal = 0
        self.ended = False
        self.go = threading.Semaphore(0)
        self.out = None

    def local(self, frame, event, arg):
        if event == "line":
            self.steps += 1
            if self.steps >= self.goal and not self.board.free:
                self.board.handover(self)
        return self.local

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            return self.local(frame, event, arg)
        return None

    def work(self):
        import coinflip.randtests as randtests
        import coinflip.randtests_refimpl as refimpl

        c = self.c
        mod = refimpl if c["impl"] == "ref" else randtests
        kw = kwargs_of(c["test"], c["par"])
        if self.board.traced:
            self.go.acquire()
            sys.settrace(self.trace)
        try:
            r = getattr(mod, c["test"])(self.seq, **kw)
            text = str(r) if c["impl"] != "ref" else ""
            sys.settrace(None)
            self.out = (r, text)
        except Exception as e:
            sys.settrace(None)
            self.out = (("exc", type(e).__name__, str(e)), "")
        finally:
            sys.settrace(None)
            self.ended = True
            self.board.back.release()


class Board:
    """has calls take turns"""

    def __init__(self, traced):
        self.traced = traced
        self.free = False
        self.back = threading.Semaphore(0)

    def handover(self, call):
        self.back.release()
        call.go.acquire()

    def turn(self, call, goal):
        """runs a call up to a step; returns the step it is at"""
        if call.ended or call.steps >= goal:
            return
        call.goal = goal
        call.go.release()
        if not self.back.acquire(timeout=5):
            self.free = True      # it waits for another: let them all run

    def settle(self, calls):
        """runs the calls to their ends, in turn"""
        for c in calls:
            if self.free:
                break
            self.turn(c, 10 ** 12)
        if self.free:
            for c in calls:
                c.go.release()


def sequence(c):
    import represent
    bits = decode(c["enc"])
    if c.get("rep"):
        return represent.make(bits, c["rep"])[0]
    return list(bits)


def run_job(lib, job, lens):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(100)
    warnings.simplefilter("ignore")
    traced = not job.get("free")
    board = Board(traced)
    seqs, calls = {}, []
    for p, cid in enumerate(job["calls"]):
        c = lib[cid]
        key = json.dumps([c["enc"], c.get("rep")])
        if key not in seqs:
            o = sequence(c)
            seqs[key] = (o, digest(o))
        calls.append(Call(c, seqs[key][0], board, p + 1))
    if not traced:
        sys.setswitchinterval(1e-6)
    threads = [threading.Thread(target=c.work, daemon=True) for c in calls]
    for t in threads:
        t.start()
    turns = []
    if traced:
        q = job["steps"]
        for p, upto in job["turns"]:
            c = calls[p - 1]
            n = lens[job["calls"][p - 1]]
            # the turns of the schedule, in its scale; the jitter moves them within a step
            goal = 10 ** 12 if upto == q else max(1, int((upto - job["jitter"][p - 1]) * n / q))
            board.turn(c, goal)
            if board.free:
                break
            if not turns or turns[-1][0] != p or True:
                turns.append([p, c.steps])
        board.settle(calls)
        for p, c in enumerate(calls):
            pass
    for t in threads:
        t.join(timeout=60)
    signal.alarm(0)
    final = [c.steps for c in calls]
    for p, n in enumerate(final):
        last = next((t for t in reversed(turns) if t[0] == p + 1), None)
        if last is None or last[1] < n:
            turns.append([p + 1, n])
    outs = []
    for c in calls:
        if c.out is None:
            outs.append("died")
            continue
        r, text = c.out
        outs.append((digest(r[1:]) if isinstance(r, tuple) and r and r[0] == "exc" else digest(r)) + "|" + text)
    ins = int(all(digest(o) == d for o, d in seqs.values()))
    return dict(id=job["id"], calls=[c + 1 for c in job["calls"]], turns=turns, lens=final, outs=outs,
                inputs=ins, free=int(not traced or board.free))


def child(f):
    """the outcome of f, in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = json.dumps(f())
        except BaseException as e:
            data = json.dumps(dict(error=f"{type(e).__name__}: {e}"))
        with os.fdopen(w, "w") as p:
            p.write(data + "\n")
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as p:
        data = p.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data.strip() else dict(error="died")


def spread(n, items, f, path):
    """f of the items, by n processes"""
    pids = []
    for j in range(n):
        pid = os.fork()
        if pid == 0:
            try:
                with open(f"{path}.{j}", "w") as out:
                    for x in items[j::n]:
                        out.write(json.dumps(child(lambda: f(x))) + "\n")
            finally:
                os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    res = [None] * len(items)
    for j in range(n):
        with open(f"{path}.{j}") as g:
            for i, line in zip(range(j, len(items), n), g):
                res[i] = json.loads(line)
    return res


def main():
    global SRC
    lib_path, job_path, out_path = sys.argv[1:4]
    with open(lib_path) as f:
        lib = [json.loads(x) for x in f]
    with open(job_path) as f:
        jobs = [json.loads(x) for x in f]
    import coinflip.randtests  # noqa: F401
    import coinflip.randtests_refimpl  # noqa: F401
    import represent  # noqa: F401

    SRC = src_dir()
    alone = spread(8, list(range(len(lib))), lambda i: run_job(
        lib, dict(id=i, calls=[i], turns=[[1, 1]], steps=1, jitter=[0]), {i: 1}), out_path + ".alone")
    for i, a in enumerate(alone):
        if "error" in a:
            raise SystemExit(f"call {lib[i]}: {a['error']}")
    lens = {i: a["lens"][0] for i, a in enumerate(alone)}
    got = spread(8, jobs, lambda j: run_job(lib, j, lens), out_path + ".got")
    names = {}

    def name(x):
        return names.setdefault(x, len(names))

    with open(out_path, "w") as f:
        for j, g in zip(jobs, got):
            if "error" in g:
                g = dict(id=j["id"], calls=[c + 1 for c in j["calls"]], turns=[], lens=[0] * len(j["calls"]),
                         outs=["died: " + g["error"]] * len(j["calls"]), inputs=1, free=1)
            g["outs"] = [name(x) for x in g["outs"]]
            g["alone"] = [name(alone[c]["outs"][0]) for c in j["calls"]]
            f.write(json.dumps(g) + "\n")
    with open(out_path + ".names", "w") as f:
        json.dump(list(names), f)
    with open(out_path + ".lens", "w") as f:
        json.dump(lens, f)


if __name__ == "__main__":
    main()
