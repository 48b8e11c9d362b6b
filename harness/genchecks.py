"""G01: the generators against spec/Generators.tla."""
import random

from clichecks import check, gen_data, mersenne  # noqa: F401
from statchecks import explore
from vlib import read_lines, write_lines

MOD = 2 ** 31 - 1


def seeded(seed, default=False):
    s, n, digits = (seed > 0) - (seed < 0), abs(seed), []
    while n:
        digits.append(n % 10000)
        n //= 10000
    return dict(kind="mersenne", seed=str(seed), sign=s, digits=digits[::-1], default=int(default))


PY = dict(kind="python", sign=0, digits=[])


def some_seed(rng):
    r = rng.random()
    if r < .2:
        return rng.choice([0, 1, 2, 42, -1, -42, MOD, MOD - 1, MOD + 1, 2 * MOD, -MOD, 2 ** 30, 2 ** 30 - 1,
                           2 ** 31, 2 ** 32, 10 ** 30, -10 ** 30, 16807, 127773, 2836])
    if r < .4:
        # the first state is near half the modulus
        x = 2 ** 30 + rng.randint(-2, 2)
        return x * pow(16807, -1, MOD) % MOD + MOD * rng.choice([0, 0, 0, 1, -1, 5])
    if r < .7:
        return rng.randrange(MOD)
    return rng.randint(-10 ** rng.randint(1, 40), 10 ** rng.randint(1, 40))


def G01(chk):
    rng = random.Random(f"G01-{chk.seed}")
    em = explore(chk, "MCGen", {"NGens": 3, "Reads": chk.pick(5, 7)}, ["AloneOK", "RangeOK"],
                 props=["FrameOK"])
    jobs = []
    for i, x in enumerate(em):
        gens = [seeded(42, i % 2 == 0), seeded(some_seed(rng)), seeded(42, i % 3 == 0) if i % 5 else PY]
        jobs.append(dict(gens=gens, sched=[[g + 1, 1 + (i + g) % 3] for g in x["sched"]],
                         late=i % 2, islice=i % 3 == 1))
    for _ in range(chk.pick(300, 3000)):
        k = rng.choice([1, 1, 2, 3, 5])
        gens = [PY if rng.random() < .1 else seeded(42, True) if rng.random() < .2
                else seeded(some_seed(rng)) for _ in range(k)]
        jobs.append(dict(gens=gens, late=rng.randrange(2), islice=rng.randrange(2),
                         sched=[[rng.randint(1, k), rng.randint(1, rng.choice([3, 60]))]
                                for _ in range(rng.randint(1, 12))]))
    for seed in (42, 1, MOD - 1, 0):
        jobs.append(dict(gens=[seeded(seed, seed == 42)], sched=[[1, chk.pick(10000, 100000)]]))
    jobs.append(dict(gens=[PY], sched=[[1, chk.pick(10000, 100000)]]))
    for i, j in enumerate(jobs):
        j["id"] = i
    jp, tp = chk.fresh("jobs"), chk.fresh("trace.ndjson")
    write_lines(jp, jobs)
    chk.impl("recgen.py", jp, tp)
    got = read_lines(tp)
    vs = chk.validate("TraceGen", tp, [.05 + len(g["reads"]) / 3000 for g in got])
    bad = 0
    for j, g, v in zip(jobs, got, vs):
        if v["bad"]:
            bad += 1
            k = v["bad"]
            i = g["reads"][k - 1][0]
            chk.violation(f"generator {j['gens'][i - 1].get('seed', 'Python')} gives {g['reads'][k - 1][1]} "
                          f"as value {sum(r[0] == i for r in g['reads'][:k])} (read {k} of "
                          f"{len(j['gens'])} generators) {g['err']}", job=j, reads=g["reads"][:k][-50:])
    chk.sample(dict(generators=[g.get("seed", "Python") for g in jobs[-20]["gens"]],
                    reads=got[-20]["reads"][:20]))
    chk.log(f"{len(jobs)} schedules of {sum(len(g['reads']) for g in got)} reads, {bad} deviate")
    data, hs = [], []
    for n in [2, 3, 5, 6, 7, 8, 30, 72, 73, 128, 512, 1000] + [rng.randint(8, 700) for _ in range(chk.pick(6, 60))]:
        data.append(gen_data(n))
        if data[-1]["valid"]:
            hs.append(dict(paths=["o"], cmds=[dict(op="example", d=len(data), n=n, gen="Mersenne",
                                                   t=t) for t in (0, rng.randint(1, 15))]))
    # the default length
    hs.append(dict(paths=["o"], cmds=[dict(op="example", d=11, gen="Mersenne", t=0)]))
    check(chk, data, hs, "example-run of the Mersenne generator")
    logged(chk, rng)


def logged(chk, rng):
    """what the Python generator gave is what is printed and tested"""
    jobs = []
    for n in [2, 3, 8, 100, 512, 700] + [rng.randint(2, 800) for _ in range(chk.pick(10, 80))]:
        jobs.append(dict(n=n, e=rng.randrange(2)))
    jobs.append(dict(n=None, e=0))
    for i, j in enumerate(jobs):
        j["id"] = i
    jp, tp = chk.fresh("jobs"), chk.fresh("trace.ndjson")
    write_lines(jp, jobs)
    chk.impl("reclogged.py", jp, tp)
    got = [g for g in read_lines(tp) if g["seen"]]
    write_lines(tp, got)
    vs = chk.validate("TraceExample", tp, [.2 for g in got]) if got else []
    bad = 0
    for g, v in zip(got, vs):
        if v["ok"] != "ok":
            bad += 1
            chk.violation(f"example-run -n {g['n']} of the Python generator: {v['ok']}: printed "
                          f"{len(g['rows'])} rows, ran {len(g['tested'])} tests", job=g)
    chk.log(f"{len(got)} example-runs of the Python generator, {bad} deviate")


GEN = dict(G01=G01)
