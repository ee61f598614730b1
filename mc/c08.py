"""C08: partitions <-> index sets, from the Weyl group elements."""
import itertools

from . import alg, base, poly
from .base import S, name, make


def index(M, w):
    """The positions of the (isotropic) flag met by the fixed point w."""
    L = M.L
    if M.kind == "A":
        return tuple(sorted(L + 1 - x for x in w[:M.m]))

    def pos(x):
        if M.kind == "B":
            return L + 1 + x
        if M.kind == "D" and L % 2 and abs(x) == 1:
            x = -x            # the two maximal isotropic middle spaces
        return L + x if x > 0 else L + 1 + x
    return tuple(sorted(pos(x) for x in w[M.k:]))


def admissible(space):
    """All isotropic coordinate subspaces."""
    fam, m, N = space
    if fam == "Gr":
        return set(itertools.combinations(range(1, N + 1), m))
    # choose one of i, N+1-i from m of the pairs
    out = set()
    for c in itertools.combinations(range(1, N // 2 + 1), m):
        for s in itertools.product((0, 1), repeat=m):
            out.add(tuple(sorted(N + 1 - i if b else i for i, b in zip(c, s))))
    return out


def work(task, ctx):
    space, chunk = task
    M = alg.model(space)
    g = make(space)
    z = alg.zero_q(space)
    idx = dict(zip(M.labels, (index(M, w) for w in M.w)))

    def expect(fn, arg, want):
        key = f"{name(space)} {fn} {arg}"
        rp = alg.repro(space, f"g.{fn}({arg!r})", alg.text(space, want))
        ok, r = ctx.call(key, getattr(g, fn), arg, repro=rp)
        if ok:
            alg.compare(ctx, space, key, r, want, rp)
        ctx.add(traces_validated_against_impl=1)

    for l in chunk:
        i = idx[l]
        expect("part2index", S(l), {(i, z): 1})
        expect("part2index", list(l), {(i, z): 1})
        expect("index2part", S(i), {(l, z): 1})
        expect("index2part", list(i), {(l, z): 1})
        ok, r = ctx.call(f"{name(space)} round trip {S(l)}", lambda: g.index2part(g.part2index(S(l))))
        if ok:
            alg.compare(ctx, space, f"{name(space)} round trip {S(l)}", r, {(l, z): 1},
                        alg.repro(space, f"g.index2part(g.part2index('{S(l)}'))", S(l)))
        ctx.add(states=1, transitions=2)
        if ctx.full:
            return
    if chunk[0] == M.labels[0]:
        qs = alg.qv(space)
        for t in alg.long_sums(M.labels, 20, qs):
            back = [(c, e, idx[l]) for c, e, l in t]
            expect("part2index", alg.sum_text(t, qs), alg.sum_image(t, idx.get, z))
            expect("index2part", alg.sum_text(back, qs), alg.sum_image(t, lambda l: l, z))
            if ctx.full:
                return
    for x, y in zip(chunk, chunk[1:]):
        for a, b, fn in ((x, y, "part2index"), (idx[x], idx[y], "index2part")):
            u, v = (idx[a], idx[b]) if fn == "part2index" else (x, y)
            expect(fn, f"3*{S(a)} - 2*{S(b)}", {(u, z): 3, (v, z): -2})
            if z:
                expect(fn, f"{alg.qv(space)[-1]}*{S(a)} + {S(b)}", {(u, (0,) * (len(z) - 1) + (1,)): 1, (v, z): 1})
        if ctx.full:
            return


def tasks(tier):
    quick = tier == "quick"
    sp = alg.spaces(10, 12, 13) + [("OG", 7, 14), ("OG", 8, 16), ("OG", 3, 14), ("OG", 6, 14), ("OG", 1, 25), ("OG", 1, 26), ("IG", 1, 24), ("Gr", 1, 24), ("Gr", 22, 23), ("OG", 2, 20), ("OG", 2, 22)]
    if not quick:
        sp += alg.spaces(13, 16, 18)
    out = []
    for s in dict.fromkeys(sp):
        if quick and len(alg.model(s).labels) > 1000:
            continue
        for c in alg.chunks(alg.model(s).labels, 80):
            out.append((s, c))
    return out


def main(tier):
    base.load()
    rep = base.Report("C08", tier)
    ts = tasks(tier)
    for s in {t[0] for t in ts}:
        M = alg.model(s)
        if len(M.labels) <= 2000 and s[1]:
            sets = [index(M, w) for w in M.w]
            want = admissible(s)
            if M.kind == "D" and M.k == 0:
                # one of the two families of maximal isotropic subspaces
                assert len(set(sets)) == len(sets) and set(sets) <= want and 2 * len(sets) == len(want), s
            else:
                assert set(sets) == want and len(sets) == len(want), s
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[0] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all classes / all admissible index sets of the listed spaces"
    rep.assumptions = ["index sets are the positions of the fixed points w; checked to be exactly the isotropic coordinate subspaces"]
    return rep.finish()
