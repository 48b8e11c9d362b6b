"""Evaluates the terms which the specification writes (spec/Num.tla).

Independent of numpy and scipy: rationals are exact, functions are mpmath's.
"""
import cmath
import math
from fractions import Fraction
from functools import lru_cache

import mpmath
from mpmath import mp, mpf

mp.dps = 40


def to_mp(x):
    if isinstance(x, Fraction):
        return mpf(x.numerator) / mpf(x.denominator)
    if isinstance(x, int):
        return mpf(x)
    return x


def temme(a, x):
    """The same for large a: Temme's uniform expansion, relative error about a^-2"""
    with mp.workdps(400):
        d = (x - a) / a
        eta = mp.sqrt(2 * (d - mp.log1p(d))) * (1 if d >= 0 else -1)
        if abs(d) < mpf(10) ** -60:
            c0, c1 = mpf(-1) / 3, mpf(-1) / 540
        else:
            c0 = 1 / d - 1 / eta
            c1 = 1 / eta ** 3 - 1 / d ** 3 - 1 / d ** 2 - 1 / (12 * d)
        r = mp.exp(-a * eta ** 2 / 2) / mp.sqrt(2 * mp.pi * a) * (c0 + c1 / a)
        q = mp.erfc(eta * mp.sqrt(a / 2)) / 2 + r
    return +q


@lru_cache(maxsize=200000)
def gammaincc(a, x):
    """Upper regularised incomplete gamma; a: Fraction, x: mpf"""
    a = to_mp(a)
    if x <= 0:
        return mpf(1)
    if a <= 0:
        return mpf(0)
    if a > 10 ** 6 and a / 2 < x < 2 * a:
        return temme(a, x)
    # continued fraction or series, whichever converges fast
    if x < a + 1:
        term = 1 / a
        total = term
        k = a
        for _ in range(1000000):
            k += 1
            term *= x / k
            total += term
            if abs(term) < abs(total) * mpf(10) ** -32:
                break
        return 1 - total * mp.exp(-x + a * mp.log(x) - mp.loggamma(a))
    tiny = mpf(10) ** -300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 1000000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        if abs(d) < tiny:
            d = tiny
        c = b + an / c
        if abs(c) < tiny:
            c = tiny
        d = 1 / d
        delta = d * c
        h *= delta
        if abs(delta - 1) < mpf(10) ** -32:
            break
    return mp.exp(-x + a * mp.log(x) - mp.loggamma(a)) * h


def ncdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def cusumsum(lo, hi, a, b, z, n):
    r = z / math.sqrt(n)
    cut = int(40 / r / 4) + 3
    lo, hi = max(lo, -cut), min(hi, cut)
    return mpf(math.fsum(ncdf((4 * k + a) * r) - ncdf((4 * k + b) * r)
                         for k in range(lo, hi + 1)))


def dft_power(bits):
    """|X_k|^2 for k < m/2 of the +-1 sequence"""
    m = len(bits)
    x = [2.0 * b - 1.0 for b in bits]
    spec = _fft(x)
    return [abs(c) ** 2 for c in spec[: m // 2]]


def _fft(x):
    m = len(x)
    if m <= 8 or m % 2:
        if m > 512:
            return _bluestein(x)
        w = [cmath.exp(-2j * math.pi * r / m) for r in range(m)]
        return [sum(x[j] * w[j * k % m] for j in range(m)) for k in range(m)]
    even, odd = _fft(x[::2]), _fft(x[1::2])
    out = [0] * m
    for k in range(m // 2):
        t = cmath.exp(-2j * math.pi * k / m) * odd[k]
        out[k] = even[k] + t
        out[k + m // 2] = even[k] - t
    return out


def _bluestein(x):
    """the transform of any length as a convolution: jk = (j^2 + k^2 - (k - j)^2) / 2"""
    m = len(x)
    size = 1
    while size < 2 * m:
        size *= 2
    w = [cmath.exp(-1j * math.pi * (k * k % (2 * m)) / m) for k in range(m)]
    a = [v * c for v, c in zip(x, w)] + [0] * (size - m)
    b = [0] * size
    for k in range(m):
        b[k] = b[-k] = w[k].conjugate()
    prod = [(p * q).conjugate() for p, q in zip(_fft(a), _fft(b))]
    conv = _fft(prod)      # conjugated, times size
    return [w[k] * conv[k].conjugate() / size for k in range(m)]


class Ambiguous(Exception):
    """a discrete quantity hangs on a near tie of reals"""


class Evaluator:
    """bits: thunk of the input; tie: side taken when |X_k| is near the threshold"""

    def __init__(self, bits=None, stat=None, tie=0):
        self.bits = bits
        self.stat = stat
        self.tie = tie
        self.ties = 0
        self.memo = {}

    def __call__(self, t):
        return self.ev(t)

    def ev(self, t):
        op = t[0]
        return getattr(self, "op_" + _names.get(op, op))(*t[1:])

    def mpv(self, t):
        return to_mp(self.ev(t))

    def op_i(self, n):
        return Fraction(n)

    def op_q(self, a, b):
        return Fraction(a, b)

    def op_d(self, s):
        return Fraction(s)

    def op_stat(self):
        return self.stat

    def op_pow2(self, k):
        return Fraction(2) ** k

    def op_add(self, ts):
        total = Fraction(0)
        rest = mpf(0)
        inexact = False
        for t in ts:
            v = self.ev(t)
            if isinstance(v, Fraction):
                total += v
            else:
                rest += v
                inexact = True
        return rest + to_mp(total) if inexact else total

    @staticmethod
    def bin(f, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return f(a, b)
        return f(to_mp(a), to_mp(b))

    def op_sub(self, a, b):
        return self.bin(lambda x, y: x - y, self.ev(a), self.ev(b))

    def op_mul(self, a, b):
        return self.bin(lambda x, y: x * y, self.ev(a), self.ev(b))

    def op_div(self, a, b):
        return self.bin(lambda x, y: x / y, self.ev(a), self.ev(b))

    def op_neg(self, a):
        return -self.ev(a)

    def op_sq(self, a):
        v = self.ev(a)
        return v * v

    def op_abs(self, a):
        return abs(self.ev(a))

    def op_sqrt(self, a):
        return mp.sqrt(self.mpv(a))

    def op_ln(self, a):
        return mp.log(self.mpv(a))

    def op_log2(self, a):
        v = self.mpv(a)
        if v not in self.memo:
            self.memo[v] = mp.log(v) / mp.log(2)
        return self.memo[v]

    def op_exp(self, a):
        return mp.exp(self.mpv(a))

    def op_erfc(self, a):
        return mp.erfc(self.mpv(a))

    def op_gq(self, a, x):
        return gammaincc(self.ev(a), self.mpv(x))

    def op_ncdf(self, a):
        return mp.ncdf(self.mpv(a))

    def op_1f1(self, a, b, x):
        key = ("1f1", repr(a), repr(b), repr(x))
        if key not in self.memo:
            self.memo[key] = mp.hyp1f1(self.mpv(a), self.mpv(b), self.mpv(x))
        return self.memo[key]

    def op_max0(self, a):
        v = self.ev(a)
        return v if v > 0 else Fraction(0)

    def op_clamp01(self, a):
        return min(max(self.mpv(a), mpf(0)), mpf(1))

    def op_cusumsum(self, lo, hi, a, b, z, n):
        return cusumsum(lo, hi, a, b, z, n)

    def below(self, powers, n):
        thr = n * math.log(20.0)
        count = 0
        for p in powers:
            if abs(p - thr) <= 1e-7 * thr:
                self.ties += 1
                count += 1 if self.tie else 0
            elif p < thr:
                count += 1
        return Fraction(count)

    def op_nbelow(self, n, comps):
        powers = []
        for coefs in comps:
            m = len(coefs)
            re = math.fsum(c * math.cos(2 * math.pi * r / m) for r, c in enumerate(coefs))
            im = math.fsum(c * math.sin(2 * math.pi * r / m) for r, c in enumerate(coefs))
            powers.append(re * re + im * im)
        return self.below(powers, n)

    def op_mags(self, comps):
        out = []
        for coefs in comps:
            m = len(coefs)
            re = math.fsum(c * math.cos(2 * math.pi * r / m) for r, c in enumerate(coefs))
            im = math.fsum(c * math.sin(2 * math.pi * r / m) for r, c in enumerate(coefs))
            out.append(math.hypot(re, im))
        return out

    def op_magsdft(self, m):
        if "dft" not in self.memo:
            self.memo["dft"] = dft_power(self.bits()[:m])
        return [math.sqrt(p) for p in self.memo["dft"]]

    def op_nbelowdft(self, n, m):
        if "dft" not in self.memo:
            self.memo["dft"] = dft_power(self.bits()[:m])
        return self.below(self.memo["dft"], n)

    def op_mingt(self, ts, bound):
        """sign of min(ts) - bound, 0 when too close to tell"""
        d = min(self.mpv(t) for t in ts) - self.mpv(bound)
        return 0 if abs(d) < mpf(10) ** -7 else (1 if d > 0 else -1)


_names = {"1f1": "1f1"}
