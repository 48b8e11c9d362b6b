"""Records the public algorithms: matrix_rank, berlekamp_massey."""
import json
import sys

import fresh  # noqa: F401

from reccalls import toint


def main():
    from coinflip import algorithms

    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as out:
        for line in f:
            x = json.loads(line)
            try:
                if x["kind"] == "bm":
                    got = toint(algorithms.berlekamp_massey(list(x["b"])))
                else:
                    m = x["ncols"]
                    rows = [tuple(x["b"][i * m:(i + 1) * m]) for i in range(x["nrows"])]
                    got = toint(algorithms.matrix_rank(rows))
            except Exception as e:
                got = -1
                x["error"] = repr(e)[:200]
            x["got"] = got
            out.write(json.dumps(x) + "\n")


if __name__ == "__main__":
    main()
