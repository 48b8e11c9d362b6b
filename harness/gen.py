"""Generated inputs of the statistical tests: structured sequences and parameters."""
from calls import blk, length, raw, rle


def coin(rng, n, p=0.5):
    return [1 if rng.random() < p else 0 for _ in range(n)]


def markov(rng, n, stay):
    b, out = rng.randrange(2), []
    for _ in range(n):
        out.append(b)
        if rng.random() >= stay:
            b = 1 - b
    return out


def periodic(rng, n, period):
    pat = coin(rng, period)
    return [pat[i % period] for i in range(n)]


def late(rng, n, size):
    """of a short register for long, and then not"""
    out = lfsr(rng, n, size) if rng.random() < .7 else [0] * n
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = n - 1 - min(n - 1, int(n * rng.random() ** 3 / 1.5))
        out[p] ^= 1
    return out


def lfsr(rng, n, size):
    state = coin(rng, size)
    if not any(state):
        state[0] = 1
    taps = [i for i in range(size) if rng.random() < 0.5] + [0]
    out = []
    for _ in range(n):
        out.append(state[0])
        b = 0
        for t in set(taps):
            b ^= state[t]
        state = state[1:] + [b]
    return out


def walkish(rng, n):
    """hugs zero: many cycles"""
    s, out = 0, []
    pull = rng.choice([0.05, 0.1, 0.2, 0.3])
    for _ in range(n):
        p = 0.5 - (pull if s > 0 else -pull if s < 0 else 0)
        b = 1 if rng.random() < p else 0
        s += 2 * b - 1
        out.append(b)
    return out


def bits(rng, n):
    """some sequence of n bits with both faces"""
    if n < 2:
        return coin(rng, n)
    kind = rng.randrange(9)
    if kind <= 1:
        out = coin(rng, n)
    elif kind == 2:
        out = coin(rng, n, rng.choice([0.02, 0.1, 0.3, 0.7, 0.9, 0.98]))
    elif kind == 3:
        out = markov(rng, n, rng.choice([0.05, 0.2, 0.8, 0.95]))
    elif kind == 4:
        out = periodic(rng, n, rng.randint(2, min(12, n)))
    elif kind == 5:
        out = lfsr(rng, n, rng.randint(2, 12))
    elif kind == 6:
        out = walkish(rng, n)
    elif kind == 7:
        k = rng.randrange(1, n)
        out = [1] * k + [0] * (n - k)
        if rng.random() < 0.5:
            out.reverse()
    else:
        out = [rng.randrange(2)] * n
        out[rng.randrange(n)] ^= 1
    if sum(out) in (0, n):
        out[rng.randrange(n)] ^= 1
    return out


def long_rle(rng, n, runs=None):
    """a long sequence of few runs"""
    k = runs or rng.randint(2, 12)
    cuts = sorted(rng.sample(range(1, n), k - 1))
    b = rng.randrange(2)
    out, last = [], 0
    for c in cuts + [n]:
        out.append((b, c - last))
        b, last = 1 - b, c
    return rle(out)


def long_blk(rng, n, size, kinds=4, tail=True):
    """a long sequence of repeated blocks"""
    d = []
    while len(d) < kinds:
        x = bits(rng, size)
        d.append(x)
    if sum(map(sum, d)) in (0, kinds * size):
        d[0][0] ^= 1
    k = n // size
    return blk(d, [rng.randint(1, kinds) for _ in range(k)], bits(rng, n - k * size) if tail else ())


def size(rng, lo, hi):
    """log-uniform, with an inclination for round numbers and their neighbours"""
    import math
    n = int(round(math.exp(rng.uniform(math.log(lo), math.log(hi)))))
    if rng.random() < 0.25:
        base = rng.choice([2 ** k for k in range(1, 24)] + [100 * k for k in range(1, 60)])
        n = base + rng.choice([-1, 0, 1])
    return max(lo, min(hi, n))


# --------------------------------------------------------------------------
# parameters within the domain in which a test is defined


def params(rng, test, n):
    p = {}
    if test == "frequency_within_block":
        if rng.random() < 0.7:
            p["blocksize"] = size(rng, 1, n)
    elif test == "binary_matrix_rank":
        if rng.random() < 0.7:
            q = rng.randint(1, max(1, min(34, int(n ** 0.5) + 1)))
            m = rng.randint(1, max(1, min(34, n // q)))
            if q * m <= n:
                p = {"nrows": q, "ncols": m}
    elif test == "non_overlapping_template_matching":
        r = rng.random()
        if r < 0.75:
            p["blocksize"] = size(rng, 2, n)
        if r > 0.5:
            cap = p.get("blocksize", max(2, min(n // 100, n)))
            p["template_size"] = rng.randint(1, max(1, min(6, cap)))
        elif "blocksize" in p and p["blocksize"] < 2:
            p["template_size"] = 1
    elif test == "overlapping_template_matching":
        r = rng.random()
        if r < 0.8:
            p["blocksize"] = size(rng, 2, n)
        M = p.get("blocksize", max(int(n ** 0.5) - 1, 2))
        lo = max(1, (M // 100).bit_length())
        if r > 0.3 or lo > 1:
            p["template_size"] = rng.randint(min(lo, M), max(min(lo, M), min(M, 14)))
        if rng.random() < 0.4:
            p["matches_ceil"] = rng.randint(1, 9)
    elif test == "maurers_universal":
        if rng.random() < 0.8:
            p["blocksize"] = rng.randint(1, min(16, max(1, n // 2)))
            if rng.random() < 0.75:
                k = n // p["blocksize"]
                if k >= 2:
                    p["init_nblocks"] = size(rng, 1, k - 1)
        if "blocksize" in p and n // p["blocksize"] < 2:
            p = {"blocksize": 1, "init_nblocks": 1}
    elif test == "linear_complexity":
        if rng.random() < 0.8:
            p["blocksize"] = size(rng, 1, min(n, 600))
    elif test in ("serial", "approximate_entropy"):
        if rng.random() < 0.8:
            p["blocksize"] = rng.randint(1, max(1, min(n - 1, 11)))
    elif test == "cusum":
        if rng.random() < 0.7:
            p["reverse"] = rng.randrange(2)
    return p


def weight(call):
    """roughly the ms which TLC takes for the call"""
    n, test, par = call["n"], call["test"], call["par"]
    w = 0.3 + 0.0015 * n
    if call["enc"]["k"] == "rle":
        w = 0.3 + 0.001 * n
    if test == "binary_matrix_rank":
        w += 0.004 * n
    elif test == "linear_complexity":
        M = par.get("blocksize", max(2, int(n ** 0.5)))
        w += 0.0006 * n * min(M, 500) / 4
        if call["enc"]["k"] == "blk" and call["enc"]["s"] == M:
            w = 0.001 * n + len(call["enc"]["d"]) * 0.0006 * M * M / 4
    elif test in ("serial", "approximate_entropy"):
        m = par.get("blocksize", 4)
        w += 0.002 * n + 0.01 * 2 ** m
    elif test == "non_overlapping_template_matching":
        m = par.get("template_size", 9)
        w += 0.001 * n + 0.03 * 2 ** m * (n // par.get("blocksize", max(1, n // 100)))/10
    elif test.startswith("random_exc"):
        w += 0.01 * n
    elif test == "spectral" and n <= 41:
        w += n * n * 0.005
    return w


def call(cid, test, enc, par, impl="main", **kw):
    c = {"id": cid, "test": test, "impl": impl, "enc": enc, "par": par, "n": length(enc)}
    c.update(kw)
    return c


def mixed(rng, test, count, lo, hi, cost=None):
    """count calls on random sequences of lo .. hi bits"""
    out = []
    for _ in range(count):
        n = size(rng, lo, hi)
        out.append((test, raw(bits(rng, n)), params(rng, test, n)))
    return out
