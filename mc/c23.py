"""C23: the CSV comparator on all pairs of small files."""
import itertools
import os
import shutil
import tempfile
from collections import Counter

from . import base, poly

KEYS = [("S[1]", "S[2]"), ("S[2]", "S[1]")]
# values of the third column, each with several spellings
VALUES = [["S[2] + S[1,1]", "S[1,1]+S[2]", "2*S[1,1] + S[2] - S[1,1]"],
          ["q*S[1]", "S[1]*q"],
          ["2*q^2*S[] + q*S[2,1]", "q*(2*q*S[] + S[2,1])", "q*S[2,1] + q**2*S[]*2"],
          ["0", "S[2] - S[2]"],
          ["S[12,1]", "(S[12,1])"],
          ["2*S[2]", "S[2] + S[2]"],
          ["-S[2]", "S[2]"],
          ["1/2*S[2]", "S[2]/2"],
          ["q1*S[1,0] - q2*S[1]", "-q2*S[1] + q1*S[1,0]"]]
ROWS = [(k, t) for k in KEYS for v in VALUES[:4] for t in v[:2]]
SMALL = [(KEYS[0], "S[2] + S[1,1]"), (KEYS[0], "S[1,1]+S[2]"), (KEYS[0], "q*S[1]"), (KEYS[1], "q*S[1]")]
ALLROWS = [(KEYS[0], t) for v in VALUES for t in v] + [(("S[2,1]", ""), "S[2]"), (("", "S[2,1]"), "S[2]"), (("", ""), "S[2]")]
# values that differ in one digit, sign, exponent or part
NEAR = [f"{c}*S[2] {d} S[1,1]" for c in ("12", "21", "-12", "1") for d in ("+", "- 12*", "+ 12*", "- 2*")] + \
    [f"{c}q^{e}*S[{p}]" for c in ("", "10*") for e in (1, 2, 11, 12) for p in ("2,1", "1", "11", "12")][::1]
NEAR += ["S[12]", "S[1,2]", "S[2,1,1]", "S[21]", "S[21,1]", "S[1,1,1,1]", "S[11,11]", "S[2,0]", "S[2]", "S[20]", "S[10,2]", "q1*S[2]", "q2*S[2]", "q*S[2]", "1", "S[]", "10", "-1", "S[2]/3", "S[2]/-3",
         "100*S[1]", "-100*S[1]", "S[1] + 100", "S[1] - 100", "-10*S[1] + 3*S[2] - 11*q*S[3]", "-10*S[1] + 3*S[2] + 11*q*S[3]", "10*S[1] + 3*S[2] - 11*q*S[3]"]
FORMATS = [("\n", True, 0), ("\n", False, 0), ("\r\n", True, 1), ("\n", True, 2), ("\n", True, 3), ("\n", True, 4)]
# rows that were cut short
SHORT = [((KEYS[0][0],), None), (KEYS[0], None), (KEYS[1], None), (("0",), None)]


def meaning(rows):
    return Counter((k, t if t is None else tuple(sorted((repr(m), c) for m, c in poly.parse(t).items()))) for k, t in rows)


def content(rows, fmt):
    nl, last, blank = fmt
    lines = [";".join(k if t is None else k + (t,)) for k, t in rows]
    if blank >= 3:
        # a semicolon, or a remark, after the third column
        lines = [l + (";" if blank == 3 else ";no. %d" % i) if t is not None else l for i, (l, (k, t)) in enumerate(zip(lines, rows))]
    if blank == 1:
        lines = [x for l in lines for x in (l, "")]
    if blank == 2:
        lines = [";;"] + lines + [";;", ""]
    s = nl.join(lines)
    return (s + nl if last and lines else s).encode()


def work(task, ctx):
    base.load()
    import sympy
    # simplification of one text is a pure function; it dominates the time
    from schubertpy import csv_bijection as mod
    tmp = tempfile.mkdtemp(prefix="mc-c23-")
    a, b = os.path.join(tmp, "a.csv"), os.path.join(tmp, "b.csv")
    firsts, seconds, fmts = task
    means = {}

    def mean(r):
        if r not in means:
            means[r] = meaning(r)
        return means[r]
    try:
        for r1 in firsts:
            for r2 in seconds:
                for f1, f2 in fmts:
                    want = mean(r1) == mean(r2)
                    c1, c2 = content(r1, f1), content(r2, f2)
                    for p, c in ((a, c1), (b, c2)):
                        with open(p, "wb") as f:
                            f.write(c)
                    key = f"{c1!r} and {c2!r}"
                    rp = (f"import tempfile, os\nfrom schubertpy.csv_bijection import check_bijection_with_permutation\nd = tempfile.mkdtemp()\n"
                          f"open(d + '/a', 'wb').write({c1!r})\nopen(d + '/b', 'wb').write({c2!r})\n"
                          f"print(check_bijection_with_permutation(d + '/a', d + '/b'), 'expected', {want})\n")
                    ok, r = ctx.call(key, mod.check_bijection_with_permutation, a, b, repro=rp)
                    ctx.add(traces_validated_against_impl=1, transitions=len(r1) + len(r2))
                    if ok and (r is not True if want else r is not False):
                        if bool(r) != want:
                            ctx.bad(key, f"reported as {'matching' if r else 'different'}, expected {want}", rp)
                    if open(a, "rb").read() != c1 or open(b, "rb").read() != c2 or sorted(os.listdir(tmp)) != ["a.csv", "b.csv"]:
                        ctx.bad(key, "the comparison changed the files", rp)
                    if want:
                        ctx.add(matching_pairs=1)
                    if ctx.full:
                        return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(tier):
    base.load()
    rep = base.Report("C23", tier)
    quick = tier == "quick"
    plain = [(FORMATS[0], FORMATS[0])]
    ts = []

    def seqs(rows, n):
        return [t for k in range(n + 1) for t in itertools.product(rows, repeat=k)]
    # all ordered pairs of files of up to 2 rows
    rows = ROWS[::2] + ROWS[1:4:2] if quick else ROWS
    F = seqs(rows, 2)
    n = 0
    for c in [F[i::64] for i in range(64)]:
        ts.append((c, F, plain))
        n += len(c) * len(F)
    # up to 3 (4) rows over a smaller alphabet: repeated rows in every arrangement
    F3 = seqs(SMALL[:3] if quick else SMALL, 3) + ([] if quick else seqs(SMALL[:3], 4))
    F3 = list(dict.fromkeys(F3))
    for c in [F3[i::64] for i in range(64)]:
        ts.append((c, F3, plain))
        n += len(c) * len(F3)
    # repeated rows: all multisets of three different rows, in one order and its reverse
    three = [SMALL[0], SMALL[2], SMALL[3]]
    F4 = [t for k in range(3, 6 if quick else 7) for t in itertools.combinations_with_replacement(three, k)]
    for c in [F4[i::32] for i in range(32)]:
        ts.append((c, F4 + [t[::-1] for t in F4[::5]], plain))
    # every spelling against every other; files written in different formats
    one = [(r,) for r in ALLROWS]
    for c in [one[i::16] for i in range(16)]:
        ts.append((c, one, plain))
    near = [((KEYS[0], t),) for t in (NEAR[::2] + NEAR[-28:] if quick else NEAR)]
    near = list(dict.fromkeys(near))
    for c in [near[i::32] for i in range(32)]:
        ts.append((c, near, plain))
    short = [t for k in range(3) for t in itertools.product(SHORT + [SMALL[0]], repeat=k)]
    for c in [short[i::16] for i in range(16)]:
        ts.append((c, short, plain))
    some = [(), (SMALL[0],), (SMALL[1], SMALL[2]), (SMALL[2], SMALL[0]), (SMALL[2], SMALL[2])]
    ts.append((some, some, [(x, y) for x in FORMATS for y in FORMATS]))
    rep.explore(work, ts)
    rep.extra["states"] = len(set(F) | set(F3) | set(one))
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = (f"all ordered pairs of files with up to 2 rows out of {len(rows)}, with up to {3 if quick else 4} rows out of {3}; "
                          f"all pairs of {len(ALLROWS)} rows and spellings, of {len(near)} similar values; {len(FORMATS)} line formats")
    rep.assumptions = ["third columns are combinations of classes; a fourth column is no part of the result"]
    return rep.finish()
