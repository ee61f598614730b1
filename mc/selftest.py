"""Validation of the reference model against output of the original Maple
program (data/maple.csv.gz: every product of two classes in four spaces)."""
import csv
import gzip
import io
import os
import re

from . import poly
from .lie import Space


def main():
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ops, rows = {}, 0
    with gzip.open(os.path.join(base, "data", "maple.csv.gz"), "rt") as f:
        for r in csv.reader(f, delimiter=";"):
            if len(r) < 5:
                continue
            fam, m, N = re.match(r"(\w+)\((\d+),(\d+)\)", r[0]).groups()
            key = (fam, int(m), int(N))
            if key not in ops:
                sp = Space(*key)
                ops[key] = (sp, sp.operators())
            sp, op = ops[key]
            a, b = (next(iter(poly.classes(x)))[0] for x in (r[2], r[3]))
            want = poly.classes(r[4], ("q",) if sp.npic == 1 else ("q1", "q2")) if r[4] != "0" else {}
            assert op[a][b] == want, (key, a, b, op[a][b], want)
            rows += 1
    print("model agrees with Maple on", rows, "products in", sorted(ops))
    return rows


if __name__ == "__main__":
    main()
