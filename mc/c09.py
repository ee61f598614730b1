"""C09: partitions <-> pairs, from the diagrams."""
from . import alg, base, poly
from .base import S, name, make


def pair(l, k, kd):
    """Cut the diagram after column k."""
    mark = (0,) if kd == "D" and l and l[-1] == 0 else ()
    parts = [x for x in l if x]
    cells = {(r, c) for r, x in enumerate(parts) for c in range(x)}
    top = tuple(sum(1 for r, c in cells if c == j) for j in range(k))
    right = [sum(1 for r, c in cells if r == i and c >= k) for i in range(len(parts))]
    return (top, tuple(x for x in right if x) + mark)


def work(task, ctx):
    space, chunk = task
    M = alg.model(space)
    g = make(space)
    k = base.kn(space)[0]
    kd = base.kind(space)
    z = alg.zero_q(space)

    def expect(fn, arg, want):
        key = f"{name(space)} {fn} {arg}"
        wt = poly.show(want)
        rp = alg.repro(space, f"g.{fn}({arg!r})", wt)
        ok, r = ctx.call(key, getattr(g, fn), arg, repro=rp)
        if ok:
            try:
                got = poly.parse(str(r))
            except poly.Malformed as e:
                got = e
            if got != want:
                ctx.bad(key, f"got {r}, expected {wt}", rp)
        ctx.add(traces_validated_against_impl=1)

    if kd == "A":
        for fn in ("part2pair", "pair2part"):
            for arg in ("S[1]", "S[]", [1], [[1], []], "S[[1],[]]"):
                ok, r = base.quiet(getattr(g, fn), arg)
                ctx.add(traces_validated_against_impl=1)
                if ok:
                    ctx.bad(f"{name(space)} {fn} {arg}", f"accepted in type A, result {r}",
                            alg.repro(space, f"g.{fn}({arg!r})", "an exception"))
        return
    seen = set()
    for l in chunk:
        p = pair(l, k, kd)
        assert p not in seen
        seen.add(p)
        assert sum(p[0]) + sum(p[1]) == sum(l)
        pl = [list(p[0]), list(p[1])]
        expect("part2pair", S(l), poly.S(p))
        expect("part2pair", list(l), poly.S(p))
        expect("pair2part", S(p), poly.S(l))
        expect("pair2part", pl, poly.S(l))
        ctx.add(states=1, transitions=2)
        if ctx.full:
            return
    if chunk[0] == M.labels[0]:
        def total(terms):
            r = {}
            for c, e, l in terms:
                r = poly.padd(r, poly.pmul(poly.ppow(poly.atom("q"), e), poly.S(l)), c)
            return r
        for t in alg.long_sums(M.labels, 20, ("q",)):
            ps = [(c, e, pair(l, k, kd)) for c, e, l in t]
            expect("part2pair", alg.sum_text(t, ("q",)), total(ps))
            expect("pair2part", alg.sum_text(ps, ("q",)), total(t))
            if ctx.full:
                return
    for x, y in zip(chunk, chunk[1:]):
        px, py = pair(x, k, kd), pair(y, k, kd)
        expect("part2pair", f"3*{S(x)} - 2*q*{S(y)}", poly.padd(poly.pmul(poly.const(3), poly.S(px)), poly.pmul(poly.atom("q"), poly.S(py)), -2))
        expect("pair2part", f"3*{S(px)} - 2*q*{S(py)}", poly.padd(poly.pmul(poly.const(3), poly.S(x)), poly.pmul(poly.atom("q"), poly.S(y)), -2))
        if ctx.full:
            return


def tasks(tier):
    quick = tier == "quick"
    sp = alg.spaces(5, 12, 13) + [("OG", 7, 14), ("OG", 8, 16), ("OG", 3, 14), ("OG", 6, 14), ("OG", 1, 25), ("OG", 1, 26), ("IG", 1, 24), ("OG", 2, 22)]
    if not quick:
        sp += alg.spaces(6, 16, 18)
    out = []
    for s in dict.fromkeys(sp):
        if quick and len(alg.model(s).labels) > 1000:
            continue
        for c in alg.chunks(alg.model(s).labels, 80):
            out.append((s, c))
    return out


def main(tier):
    base.load()
    rep = base.Report("C09", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[0] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all classes of the listed spaces"
    rep.assumptions = ["the pair is read off the set of cells of the diagram"]
    return rep.finish()
