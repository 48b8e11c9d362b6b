"""Representations of a binary sequence: labels of the two values, and containers."""
import array
import datetime
from collections import UserList, deque
from decimal import Decimal
from fractions import Fraction

import numpy as np
import pandas as pd

# name: (tails, heads), tails < heads
LABELS = {
    "01": (0, 1), "12": (1, 2), "-11": (-1, 1), "-5-3": (-5, -3), "big": (10 ** 12, 10 ** 12 + 1),
    "huge": (2 ** 70, 2 ** 71), "10_9": (9, 10), "0_-1": (-1, 0),
    "f01": (0.0, 1.0), "f": (0.25, 0.5), "fneg": (-1.5, 2.5), "inf": (1.0, float("inf")),
    "-inf": (float("-inf"), 0.0), "tiny": (1.0, 1.0000000000000002),
    "bool": (False, True), "mixed": (0, 1.5), "boolint": (False, 2),
    "ab": ("a", "b"), "HT": ("H", "T"), "s01": ("0", "1"), "s10_9": ("10", "9"), "empty": ("", "x"),
    "prefix": ("head", "heads"), "case": ("A", "a"), "uni": ("é", "ü"), "space": (" ", "a b"),
    "nanstr": ("NaN", "None"), "bytes": (b"a", b"b"),
    "ts": (pd.Timestamp("2020-01-01"), pd.Timestamp("2021-01-01")),
    "tz": (pd.Timestamp("2020-01-01", tz="UTC"), pd.Timestamp("2021-01-01", tz="UTC")),
    "td": (pd.Timedelta("1s"), pd.Timedelta("2s")),
    "date": (datetime.date(2020, 1, 1), datetime.date(2021, 1, 1)),
    "dec": (Decimal("0.1"), Decimal("0.2")), "frac": (Fraction(1, 3), Fraction(1, 2)),
    "tuple": ((0, 1), (1, 0)),
    # what the console would take for markup
    "markup": ("[/b]", "[b]"), "emoji": (":cow:", ":smile:"), "html": ("<b>", "a&b"),
}


def obj_array(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def series(xs, **kw):
    if xs and isinstance(xs[0], tuple):
        return pd.Series(obj_array(xs), **kw)
    return pd.Series(xs, **kw)


CONTAINERS = {
    "list": list, "tuple": tuple, "userlist": lambda xs: UserList(xs) and list(UserList(xs)),
    "deque": lambda xs: list(deque(xs)),
    "ndarray": lambda xs: np.array(xs), "objarray": obj_array,
    "strided": lambda xs: np.array([y for x in xs for y in (x, xs[0])])[::2],
    "reversedview": lambda xs: np.array(xs[::-1])[::-1],
    "readonly": lambda xs: _ro(np.array(xs)),
    "series": series, "objseries": lambda xs: pd.Series(obj_array(xs), dtype=object),
    "named": lambda xs: series(xs, name="bits"),
    "from1": lambda xs: series(xs, index=range(1, len(xs) + 1)),
    "revindex": lambda xs: series(xs, index=range(len(xs))[::-1]),
    "strindex": lambda xs: series(xs, index=[f"i{i * 7 % 13}" for i in range(len(xs))]),
    "dupindex": lambda xs: series(xs, index=[0] * len(xs)),
    "negindex": lambda xs: series(xs, index=range(-len(xs), 0)),
    "floatindex": lambda xs: series(xs, index=[i / 2 for i in range(len(xs))]),
    "dateindex": lambda xs: series(xs, index=pd.date_range("2020", periods=len(xs), freq="s")),
    "multiindex": lambda xs: series(xs, index=pd.MultiIndex.from_arrays(
        [[i // 2 for i in range(len(xs))], [i % 2 for i in range(len(xs))]])),
    "sliced": lambda xs: series([xs[0], *xs, xs[0]]).iloc[1:-1],
    "sorted": lambda xs: series(xs[::-1]).sort_index(ascending=False),
    "category": lambda xs: series(xs, dtype="category"),
    "catrev": lambda xs: pd.Series(pd.Categorical(xs, categories=sorted(set(xs), reverse=True),
                                                  ordered=True)),
    "categorical": lambda xs: pd.Categorical(xs),
    "index": lambda xs: pd.Index(xs),
    # by dtype, of labels which fit
    "Int64": lambda xs: pd.Series(xs, dtype="Int64"), "Int64arr": lambda xs: pd.array(xs, dtype="Int64"),
    "UInt8": lambda xs: pd.Series(xs, dtype="UInt8"),
    "boolean": lambda xs: pd.Series(xs, dtype="boolean"),
    "Float64": lambda xs: pd.Series(xs, dtype="Float64"),
    "string": lambda xs: pd.Series(xs, dtype="string"),
    "sparse": lambda xs: pd.Series(pd.arrays.SparseArray(xs)),
    "int8": lambda xs: np.array(xs, dtype="int8"), "uint8": lambda xs: np.array(xs, dtype="uint8"),
    "uint64": lambda xs: np.array(xs, dtype="uint64"),
    "float32": lambda xs: np.array(xs, dtype="float32"),
    "float16": lambda xs: pd.Series(np.array(xs, dtype="float16")),
    "npbool": lambda xs: np.array(xs, dtype=bool),
    "array": lambda xs: array.array("b", xs),
}
def _ro(a):
    a.flags.writeable = False
    return a


def make(bits, rep):
    """(sequence, heads label)"""
    label, container = rep.split("/")
    t, h = LABELS[label]
    xs = [h if b else t for b in bits]
    return CONTAINERS[container](xs), h
