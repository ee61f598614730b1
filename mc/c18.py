"""C18: Schur polynomials against the enumeration of semistandard tableaux."""
import itertools

from . import base, poly
from .c12 import parts


def ssyt(lam, n):
    """{content: number of semistandard tableaux}, by enumerating them row by
    row (each tableau is generated)."""
    out = {}

    def rows(prev, length):
        # weakly increasing rows, strictly larger than the row above
        def rec(i, lo):
            if i == length:
                yield ()
                return
            start = max(lo, prev[i] + 1 if prev is not None else 1)
            for x in range(start, n + 1):
                for t in rec(i + 1, x):
                    yield (x,) + t
        return rec(0, 1)

    def fill(r, prev, content):
        if r == len(lam):
            k = tuple(content)
            out[k] = out.get(k, 0) + 1
            return
        for row in rows(prev, lam[r]):
            c = list(content)
            for x in row:
                c[x - 1] += 1
            fill(r + 1, row, c)
    fill(0, None, [0] * n)
    return out


def work(task, ctx):
    lib = base.load()
    from schubertpy.utils.mix import SchurPol
    for lam, n in task:
        want = {}
        t = ssyt([x for x in lam if x], n)
        for c, v in t.items():
            want[tuple(sorted(((f"x{i + 1}", e) for i, e in enumerate(c) if e), key=poly._key))] = v
        key = f"Schur({list(lam)}).to_polinomial_str({n})"
        rp = f"from schubertpy import Schur\nprint({key}, 'expected', {poly.show(want)!r})\n"
        arg = list(lam)
        s = lib.Schur(arg)
        ok, r = ctx.call(key, s.to_polinomial_str, n, repro=rp)
        ctx.add(traces_validated_against_impl=2, states=1, transitions=sum(t.values()))
        if ok:
            # variables beyond x9 print as x10, ...
            try:
                got = poly.parse(r)
            except poly.Malformed as e:
                got = e
            if got != want:
                ctx.bad(key, f"got {r}, expected {poly.show(want)}", rp)
            if len(t) > 2:
                ctx.sample(f"{key} = {r}", 1)
        if s.p != list(lam) or arg != list(lam):
            ctx.bad(key, f"the partition is changed to {s.p}", rp)
        arg = list(lam)
        ok, r = ctx.call(f"SchurPol({n}, {arg})", SchurPol, n, arg, repro=rp)
        if ok:
            try:
                d = {tuple(m): int(c) for m, c in r.terms() if c}
                w = {tuple(c): v for c, v in t.items()}
                if d != w:
                    ctx.bad(f"SchurPol({n}, {list(lam)})", f"got {d}, expected {w}", rp)
            except Exception as e:
                ctx.bad(f"SchurPol({n}, {list(lam)})", f"{type(e).__name__} {e}", rp)
        if arg != list(lam):
            ctx.bad(f"SchurPol({n}, {list(lam)})", f"its argument is changed to {arg}", rp)
        if ctx.full:
            return


def many(task, ctx):
    """Many polynomials one after another in one process, in a given order:
    what was computed before must not matter."""
    work(task[1], ctx)


def orders(size, nmax):
    """Partitions and numbers of variables that are easily confused (same
    digits, same size, same conjugate, same hooks), in several orders."""
    cs = [(p, n) for p in parts(3, size) if sum(p) <= size for n in range(1, nmax + 1)]
    cs += [(p, n) for p in ((11,), (1, 1), (1,), (10,), (1, 0), (12,), (1, 2)[:1], (2,), (11, 1), (1, 1, 1), (21,), (2, 1), (12, 1), (21, 1), (2, 1, 1), (11, 2), (11, 11), (1, 1, 1, 1))
           for n in (1, 2)] + [((2,), 11), ((1,), 11), ((1,), 12), ((1, 1), 11), ((0,), 2), ((), 2), ((1, 1, 0), 2), ((2, 0), 2)]
    cs = list(dict.fromkeys(cs))
    by = [lambda c: (sum(c[0]), c), lambda c: (c[1], c[0]), lambda c: (len(c[0]), c), lambda c: ("".join(map(str, c[0])), c), lambda c: (max(c[0], default=0), c)]
    out = []
    for k in by:
        s = sorted(cs, key=k)
        out += [s, s[::-1], s[::2] + s[1::2] + s]
    return out


def refuse(rep):
    from schubertpy.utils.mix import SchurPol
    ctx = base.Ctx()
    for n, lam in ((0, [1]), (-1, [1]), (1.5, [1]), ("2", [1]), (2, [1, 2]), (2, [0, 1]), (3, [-1]), (3, [2, -1]), (2, [1.5]), (2, ["a"])):
        ok, r = base.quiet(SchurPol, n, lam)
        ctx.add(traces_validated_against_impl=1)
        if ok or not isinstance(r, ValueError):
            ctx.bad(f"SchurPol({n!r}, {lam})", f"gives {r!r}, expected a ValueError", f"from schubertpy.utils.mix import SchurPol\nprint(SchurPol({n!r}, {lam}))\n")
    rep.merge(ctx)


def main(tier):
    base.load()
    quick = tier == "quick"
    rep = base.Report("C18", tier)
    refuse(rep)
    size, rows, nmax = (9, 5, 5) if quick else (12, 6, 6)
    cases = []
    for lam in parts(rows, size):
        if sum(lam) <= size:
            for n in range(1, nmax + 1):
                cases.append((lam, n))
            if sum(lam) <= 3:
                cases += [(lam, n) for n in (nmax + 1, nmax + 2)]
            if sum(lam) <= 2:
                cases += [(lam, 10), (lam, 11)]
            if lam and sum(lam) <= 4:
                cases += [(lam + (0,), n) for n in (1, 2, 3)] + [(lam + (0, 0), 2)]
    cases += [((0,), 2), ((0, 0), 1), ((12,), 2), ((11, 10), 2), ((9, 9), 2), ((10, 1), 3), ((4, 4, 4), 3), ((5, 3, 2, 1), 4), ((3, 3, 2, 2), 4)]
    # partitions with a part equal to the largest part, long columns
    cases += [((1,) * r, n) for r in range(1, 8) for n in range(1, 8) if n < 6 or r < 4 or r >= n - 1]
    cases = list(dict.fromkeys(cases))
    cases.sort(key=lambda c: -(sum(c[0]) + c[1] * 2))
    chunks = [cases[i::160] for i in range(160)]
    rep.explore(work, [c for c in chunks if c])
    seqs = orders(4 if quick else 6, 3 if quick else 4)
    rep.explore(many, [("order", s) for s in seqs])
    rep.extra["sequences_in_one_process"] = len(seqs)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = f"all partitions with at most {rows} parts and {size} boxes in 1..{nmax} variables; {len(seqs)} orders of easily confused ones in one process each"
    rep.assumptions = ["semistandard tableaux enumerated one by one"]
    return rep.finish()
