"""C12: the rim hook algorithm."""
import itertools

from . import alg, base, poly
from .base import S, name, make


def abacus(lam, m, n):
    """Reduce modulo n-rim hooks: (partition, hooks, parity of the number of
    rows they span in total) or None if no reduction fits m rows."""
    b = [(lam[i] if i < len(lam) else 0) + m - 1 - i for i in range(m)]
    d = sum(x // n for x in b)
    r = [x % n for x in b]
    if len(set(r)) < m:
        return None
    inv = sum(1 for i in range(m) for j in range(i + 1, m) if r[i] < r[j])
    s = sorted(r, reverse=True)
    mu = [x for x in (s[i] - (m - 1 - i) for i in range(m)) if x]
    return tuple(mu), d, (inv + d) % 2


def brute(lam, m, n):
    """The same by searching all sequences of rim hook removals."""
    seen = {}

    def hooks(l):
        # remove a rim hook of n cells: lower one bead by n
        for i, x in enumerate(l):
            y = x - n
            if y >= 0 and y not in l:
                rows = 1 + sum(1 for z in l if y < z < x)
                yield tuple(sorted((z for z in l if z != x), reverse=True)) , y, rows
    b = tuple((lam[i] if i < len(lam) else 0) + m - 1 - i for i in range(m))
    ends = set()
    todo = [(b, 0, 0)]
    done = set(todo)
    while todo:
        l, d, h = todo.pop()
        nxt = [(tuple(sorted(rest + (y,), reverse=True)), d + 1, (h + rows) % 2) for rest, y, rows in hooks(l)]
        if not nxt:
            mu = tuple(x for x in (l[i] - (m - 1 - i) for i in range(m)) if x)
            ends.add((mu, d, h) if not mu or mu[0] <= n - m else None)
        for t in nxt:
            if t not in done:
                done.add(t)
                todo.append(t)
    assert len(ends) == 1, (lam, m, n, ends)
    return ends.pop()


def parts(rows, cols):
    if rows == 0:
        yield ()
        return
    for x in range(cols, -1, -1):
        if x == 0:
            yield ()
        else:
            for rest in parts(rows - 1, x):
                yield (x,) + rest


def work(task, ctx):
    what, space, chunk = task
    _, m, n = space
    if what == "hooks":
        Partition = base.load().Partition
        for lam in chunk:
            want = abacus(lam, m, n)
            key = f"Partition({list(lam)}).remove_rim_hooks({n}, ({m}, {n - m}))"
            rp = f"from schubertpy import Partition\nprint({key}, 'expected', {want!r})\n"
            P = Partition(list(lam))
            ok, r = ctx.call(key, P.remove_rim_hooks, rim_size=n, acceptable_grid=(m, n - m), repro=rp)
            ctx.add(traces_validated_against_impl=1)
            ctx.distinct(lam)
            if not ok:
                continue
            if P.partition != list(lam):
                ctx.bad(key, f"the partition is changed to {P.partition}", rp)
            try:
                x, q, h = r
                got = None if not isinstance(x, Partition) or (q == 0 and not x.partition) else (tuple(x.partition), q, h % 2)
            except Exception as e:
                got = f"{r!r}: {e}"
            if got != want and not (want is None and got is None):
                ctx.bad(key, f"got {r}, expected {want} (partition, hooks, parity of height)", rp)
            if ctx.full:
                return
        ctx.add(states=len(chunk))
        return
    g = make(space)
    M = alg.model(space)
    op = alg.ops(space, chunk)
    z = alg.zero_q(space)
    for a in chunk:
        for b in M.labels:
            want = op[a][b]
            key = f"{name(space)} qmult_rh {S(a)} {S(b)}"
            rp = alg.repro(space, f"g.qmult_rh('{S(a)}', '{S(b)}')", alg.text(space, want))
            ok, r = ctx.call(key, g.qmult_rh, S(a), S(b), repro=rp)
            if ok:
                alg.compare(ctx, space, key, r, want, rp)
            ctx.add(traces_validated_against_impl=1, transitions=len(want))
            if ctx.full:
                return
    ctx.add(states=len(chunk))
    if (g._k, g._n) != (n - m, n):
        ctx.bad(f"{name(space)} parameters", f"(k,n) became {(g._k, g._n)} after qmult_rh")
    if chunk[0] == M.labels[0]:
        # sums of many terms, with q, in either factor
        low = [l for l in M.labels if sum(l) <= 4]
        lop = alg.ops(space, low)
        for n, t in enumerate(alg.long_sums(low, 9, ("q",))):
            for c in M.labels[1:: max(1, len(M.labels) // 3)][:3]:
                x = alg.sum_text(t, ("q",))
                want = {}
                for k, e, l in t:
                    want = alg.add(want, alg.scale(lop[l][c], k, (e,)))
                y = f"q*{S(c)}" if n % 2 else S(c)
                if n % 2:
                    want = alg.scale(want, 1, (1,))
                for args in ((x, y), (y, x)) if sum(c) <= 4 else ((x, y),):
                    key = f"{name(space)} qmult_rh {args[0]} {args[1]}"
                    rp = alg.repro(space, f"g.qmult_rh{args!r}", alg.text(space, want))
                    ok, r = ctx.call(key, g.qmult_rh, *args, repro=rp)
                    if ok:
                        alg.compare(ctx, space, key, r, want, rp)
                    ctx.add(traces_validated_against_impl=1, transitions=len(want))
                    if ctx.full:
                        return
        top = M.labels[-1]
        for x, y in ((f"q*{S(top)}", S(top)), (S(top), f"3*q^2*{S(top)}"), (f"q*{S(M.labels[1])}", f"q*{S(top)}")) if M.m <= 3 or len(M.labels) < 30 else ():
            a = top if S(top) in x else M.labels[1]
            want = alg.scale(alg.ops(space, [a])[a][top], 3 if "3*" in y else 1, (x.count("q") + (2 if "q^2" in y else y.count("q")),))
            key = f"{name(space)} qmult_rh {x} {y}"
            rp = alg.repro(space, f"g.qmult_rh({x!r}, {y!r})", alg.text(space, want))
            ok, r = ctx.call(key, g.qmult_rh, x, y, repro=rp)
            if ok:
                alg.compare(ctx, space, key, r, want, rp)
            ctx.add(traces_validated_against_impl=1)
    if len(chunk) > 1:
        a, b = chunk[0], chunk[1]
        for c in M.labels:
            t = f"2*{S(a)} - {S(b)}"
            want = alg.add(alg.scale(op[a][c], 2), op[b][c], -1)
            key = f"{name(space)} qmult_rh {t} {S(c)}"
            rp = alg.repro(space, f"g.qmult_rh({t!r}, '{S(c)}')", alg.text(space, want))
            ok, r = ctx.call(key, g.qmult_rh, t, S(c), repro=rp)
            if ok:
                alg.compare(ctx, space, key, r, want, rp)
            ctx.add(traces_validated_against_impl=1)


def tasks(tier):
    quick = tier == "quick"
    out = []
    top = 7 if quick else 9
    sp = [("Gr", m, n) for n in range(1, top + 1) for m in range(1, n)]
    sp += [("Gr", 1, 12), ("Gr", 2, 9), ("Gr", 2, 8), ("Gr", 3, 8), ("Gr", 7, 9), ("Gr", 6, 8), ("Gr", 11, 12)]
    if not quick:
        sp += [("Gr", 2, 12), ("Gr", 10, 12), ("Gr", 3, 10), ("Gr", 4, 10)]
    for s in dict.fromkeys(sp):
        m, n = s[1], s[2]
        labels = alg.model(s).labels
        # the expansion of the first factor grows with its number of rows and
        # columns in the enlarged Grassmannian; bound its degree in tall ones
        cap = 10 ** 6 if m <= 3 else (9 if quick else 11) if m == 4 else (6 if quick else 8)
        if m == 3 and n >= 8:
            cap = 7 if quick else {8: 15, 9: 10}.get(n, 7)
        if m >= 4 and n >= 9:
            cap = min(cap, 6)
        first = [l for l in labels if sum(l) <= cap]
        for c in alg.chunks(first, max(1, (60 if m >= 4 else 200) // len(labels))):
            out.append((len(c) * len(labels) * m ** 2 * sum(c[-1]), ("mult", s, c)))
    for n in range(2, (9 if quick else 11) + 1):
        for m in range(1, n):
            ps = [p for p in parts(m, 2 * (n - m)) if p]
            for c in alg.chunks(ps, 1000):
                out.append((len(c) // 20, ("hooks", ("Gr", m, n), [p for p in c if len(p) > m or p[0] > n - m])))
    # many hooks, and long ones
    far = [(m, n, 8 * n // m) for n in range(2, 6) for m in range(1, n)] + [(1, 14, 120), (2, 13, 60), (12, 13, 3), (13, 15, 5), (3, 11, 24), (1, 30, 200)]
    for m, n, cols in far:
        ps = [p for p in parts(m, cols) if p and (len(p) > m or p[0] > n - m)]
        if len(ps) > (5000 if quick else 50000):
            ps = ps[:: -(-len(ps) // (5000 if quick else 50000))]
        for c in alg.chunks(ps, 1000):
            out.append((len(c) // 20, ("hooks", ("Gr", m, n), c)))
    out = [t for t in out if t[1][2]]
    out.sort(key=lambda t: -t[0])
    return [t for _, t in out]


def main(tier):
    base.load()
    rep = base.Report("C12", tier)
    for n in range(2, 7):
        for m in range(1, n):
            for p in parts(m, 2 * (n - m)):
                assert abacus(p, m, n) == brute(p, m, n), (p, m, n)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all pairs of classes of the listed Gr(m,n) (first factor of bounded degree when m > 3 or n > 7); all partitions with at most m rows and 2(n-m) columns that do not fit"
    rep.assumptions = ["the beta-number (abacus) form of rim hook removal, checked against all sequences of removals for n<=6"]
    return rep.finish()
