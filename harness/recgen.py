"""Records reads from the generators: usage recgen.py JOBS.ndjson TRACE.ndjson"""
import itertools
import json
import multiprocessing
import signal
import sys

import fresh  # noqa: F401

from reccalls import on_alarm, toint


def run(job):
    from coinflip import generators

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    objs = {}

    def get(i):
        if i not in objs:
            g = job["gens"][i - 1]
            if g["kind"] == "python":
                objs[i] = generators.Python()
            elif g.get("default"):
                objs[i] = generators.Mersenne()
            else:
                s = int(g["seed"])
                objs[i] = generators.Mersenne(s) if i % 2 else generators.Mersenne(seed=s)
        return objs[i]

    if not job.get("late"):
        for i in range(1, len(job["gens"]) + 1):
            get(i)
    reads = []
    err = ""
    try:
        for i, k in job["sched"]:
            g = get(i)
            if job.get("islice"):
                vs = list(itertools.islice(g, k))
                if len(vs) != k:
                    raise StopIteration(f"only {len(vs)} values")
            else:
                vs = [next(g) for _ in range(k)]
            reads += [[i, toint(v) if not isinstance(v, float) else -2] for v in vs]
    except Exception as e:
        err = repr(e)[:200]
        reads.append([i, -1])
    signal.alarm(0)
    return json.dumps(dict(id=job["id"], gens=[dict(kind=g["kind"], sign=g["sign"], digits=g["digits"])
                                               for g in job["gens"]], reads=reads, err=err))


def main():
    with open(sys.argv[1]) as f:
        jobs = [json.loads(x) for x in f]
    import coinflip.generators  # noqa: F401
    with multiprocessing.get_context("fork").Pool(8) as pool:
        out = pool.map(run, jobs, chunksize=4)
    with open(sys.argv[2], "w") as f:
        f.writelines(x + "\n" for x in out)


if __name__ == "__main__":
    main()
