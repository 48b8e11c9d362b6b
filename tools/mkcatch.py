"""Writes the table of planted bugs into DESIGN.md, between its markers.

usage: python3 tools/mkcatch.py LOG ...   (LOG: what tools/trybugs.py printed; later lines win)"""
import json
import os
import re
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    got = {}
    for p in sys.argv[1:]:
        for line in open(p):
            m = re.match(r"(\S+): (caught|MISSED)", line)
            if m:
                got[m.group(1)] = m.group(2)
    rows = ["| planted bug | what it needs to manifest | quick check |", "|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(TOP, "seeded"))):
        meta = json.load(open(os.path.join(TOP, "seeded", name, "meta.json")))
        r = {"caught": f"caught by {meta['property']}", "MISSED": "missed"}.get(got.get(name), "not run")
        rows.append(f"| `{name}` | {meta['needs']} | {r} |")
    p = os.path.join(TOP, "DESIGN.md")
    t = open(p).read()
    a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
    i, j = t.index(a) + len(a), t.index(b)
    open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
    print(len(rows) - 2, "planted,", sum(v == "caught" for v in got.values()), "caught")


main()
