"""Records the outcome of calls with default parameters on arbitrary sequences (A01)."""
import json
import multiprocessing
import signal
import sys
import warnings

import fresh  # noqa: F401

import datetime
import decimal

import numpy as np
import pandas as pd
from reccalls import CallTimeout, on_alarm, status_of, toint

# families of three distinct values, and a missing one
FAMILIES = {
    "int": (0, 1, 2, None), "int2": (7, -7, 3, None), "float": (0.0, 1.0, 2.0, float("nan")),
    "float2": (0.5, 1.5, -3.0, np.nan), "str": ("a", "b", "c", None), "str2": ("1", "0", "", np.nan),
    "bool": (False, True, 2, None), "ts": (pd.Timestamp("2020"), pd.Timestamp("2021"),
                                           pd.Timestamp("2022"), pd.NaT),
    "na": (1, 0, 5, pd.NA), "dec": (decimal.Decimal(1), decimal.Decimal(2), decimal.Decimal(3), None),
    "bytes": (b"0", b"1", b"2", None), "date": (datetime.date(2020, 1, 1), datetime.date(2020, 1, 2),
                                                datetime.date(2020, 1, 3), None),
    "inf": (float("inf"), 0.0, float("-inf"), float("nan")),
    "big": (2 ** 65, 2 ** 66, 2 ** 67, None),
}


def obj(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def build(xs, container):
    if container == "list":
        return list(xs)
    if container == "tuple":
        return tuple(xs)
    if container == "objarray":
        return obj(xs)
    if container == "ndarray":
        return np.array(xs)
    if container == "series":
        return pd.Series(xs, dtype=object if not xs else None)
    if container == "objseries":
        return pd.Series(obj(xs), dtype=object)
    if container == "Int64":
        return pd.Series(xs, dtype="Int64")
    if container == "boolean":
        return pd.Series(xs, dtype="boolean")
    if container == "string":
        return pd.Series(xs, dtype="string")
    if container == "category":
        return pd.Series(xs, dtype="category")
    if container == "Float64":
        return pd.Series(xs, dtype="Float64")
    if container == "unusedcat":
        return pd.Series(pd.Categorical(xs, categories=[x for x in FAMILIES["int"][:3]]))
    raise KeyError(container)


def run_one(c):
    import coinflip.randtests as randtests

    xs = [FAMILIES[c["family"]][v] for v in c["s"]]
    vals = {v for v in c["s"] if v != 3}
    head = c["s"][:-1]
    line = dict(id=c["id"], test=c["test"], n=len(xs), distinct=len(vals), missing=3 in c["s"],
                consthead=len(set(head)) == 1, carried=[], status="ok")
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    try:
        seq = build(xs, c["container"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(randtests, c["test"])(seq)
    except CallTimeout:
        line["status"] = "timeout"
    except Exception as e:
        line["status"] = status_of(e)
        line["error"] = f"{type(e).__name__}: {e}"[:200]
        if line["status"] == "minimum":
            line["carried"] = [toint(getattr(e, "n", -1)), toint(getattr(e, "min_n", -1))]
    finally:
        signal.alarm(0)
    return json.dumps(line)


def main():
    with open(sys.argv[1]) as f:
        calls = [json.loads(x) for x in f]
    import coinflip.randtests  # noqa: F401

    with multiprocessing.get_context("fork").Pool(8) as pool:
        out = pool.map(run_one, calls, chunksize=32)
    with open(sys.argv[2], "w") as f:
        f.writelines(x + "\n" for x in out)


if __name__ == "__main__":
    main()
