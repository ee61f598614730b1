"""C03: every (special class, class) transition of the Pieri graph, real code
against the model."""
from . import alg, base
from .base import S, name, make


def big(task, ctx):
    """All edges of the divisor(s) on a large space, against the quantum
    Chevalley graph itself."""
    _, space, chunk = task
    M = alg.model(space)
    g = make(space)
    gens = [(l, i) for l, i in alg.generators(space) if sum(l) == 1]
    for l, i in gens:
        for b in range(M.npic):
            e = M.chevalley(b)
            if list(e[()]) == [(l, alg.zero_q(space))] and e[()][(l, alg.zero_q(space))] == 1:
                break
        else:
            if not (M.npic == 1 and len(gens) == 1):
                raise AssertionError(f"no divisor for {l} in {space}")
            # the divisor class is c times the generator
            b = 0
            e = M.chevalley(0)
        unit = e[()].get((l, alg.zero_q(space)))
        for lam in chunk:
            want = {k: c // unit for k, c in e[lam].items()}
            one(ctx, space, g, i, lam, want, True)
            one(ctx, space, g, i, lam, alg.classical(want), False)
            if ctx.full:
                return
    ctx.add(states=len(chunk))


def one(ctx, space, g, i, lam, want, quantum, how="text"):
    fn = "qpieri" if quantum else "pieri"
    arg = list(lam) if how == "list" else S(lam)
    key = f"{name(space)} {fn} {i} {arg}"
    rp = alg.repro(space, f"g.{fn}({i}, {arg!r})", alg.text(space, want))
    ok, r = ctx.call(key, getattr(g, fn), i, arg, repro=rp)
    if ok:
        alg.compare(ctx, space, key, r, want, rp)
    ctx.add(traces_validated_against_impl=1, transitions=len(want))


def work(task, ctx):
    if task[0] == "big":
        return big(task, ctx)
    _, space, chunk = task
    gens = alg.generators(space)
    op = alg.ops(space, [l for l, _ in gens])
    g = make(space)
    M = alg.model(space)
    for l, i in gens:
        for lam in chunk:
            want = op[l][lam]
            one(ctx, space, g, i, lam, want, True)
            one(ctx, space, g, i, lam, alg.classical(want), False, "list")
            if len(want) > 1:
                ctx.sample(f"{name(space)}: {S(l)} . {S(lam)} = {alg.text(space, want)}", 1)
            if ctx.full:
                return
        # sums: each class together with its neighbour in the list
        for x, y in zip(chunk, chunk[1:] + chunk[:1]):
            if x == y:
                continue
            for quantum in (True, False):
                a, b = op[l][x], op[l][y]
                if not quantum:
                    a, b = alg.classical(a), alg.classical(b)
                qd = (1,) + (0,) * (M.npic - 1)
                want = alg.add(a, alg.scale(b, -3, qd))
                fn = "qpieri" if quantum else "pieri"
                text = f"{S(x)} - 3*{alg.qv(space)[0]}*{S(y)}"
                key = f"{name(space)} {fn} {i} {text}"
                rp = alg.repro(space, f"g.{fn}({i}, {text!r})", alg.text(space, want))
                ok, r = ctx.call(key, getattr(g, fn), i, text, repro=rp)
                if ok:
                    alg.compare(ctx, space, key, r, want, rp)
                ctx.add(traces_validated_against_impl=1)
                if ctx.full:
                    return
    ctx.add(states=len(chunk))


def tasks(tier):
    quick = tier == "quick"
    if quick:
        sp = alg.spaces(8, 10, 11) + [("Gr", 1, 12), ("Gr", 11, 12), ("Gr", 2, 12), ("Gr", 10, 12), ("Gr", 1, 25),
                                     ("IG", 1, 12), ("IG", 2, 12), ("IG", 6, 12), ("IG", 1, 24),
                                     ("OG", 1, 12), ("OG", 1, 13), ("OG", 2, 12), ("OG", 6, 12), ("OG", 6, 13),
                                     ("OG", 5, 12), ("OG", 1, 24), ("OG", 1, 25)]
        large = [("OG", 7, 16), ("OG", 6, 14), ("OG", 8, 18), ("OG", 7, 15), ("IG", 6, 14), ("Gr", 4, 10), ("OG", 5, 14)]
        limit = 130
    else:
        sp = alg.spaces(10, 12, 13) + alg.spaces(0, 0, 16, 14) + [("Gr", m, 12) for m in (1, 2, 3, 9, 10, 11)] + \
            [("Gr", 1, 40), ("IG", 1, 30), ("IG", 2, 16), ("OG", 1, 31), ("OG", 1, 30), ("OG", 2, 17), ("OG", 2, 18)]
        large = [("OG", m, N) for N in (14, 15, 16) for m in range(2, N // 2 + 1)] + \
            [("IG", m, 14) for m in range(2, 8)] + [("OG", 8, 18), ("OG", 9, 18), ("OG", 9, 20), ("Gr", 5, 11), ("Gr", 4, 12)]
        limit = 500
    out = []
    for s in dict.fromkeys(sp):
        n = len(alg.model(s).labels)
        if n > limit or not alg.generators(s):
            continue
        for c in alg.chunks(alg.model(s).labels, 40 if quick else 60):
            out.append(("all", s, c))
    for s in large:
        labels = alg.model(s).labels
        if quick:
            # the classes nearest to the top and the bottom of a large space
            labels = labels if len(labels) <= 400 else labels[:200] + labels[-200:]
        for c in alg.chunks(labels, 200):
            out.append(("big", s, c))
    out.sort(key=lambda t: -len(t[2]) * (1 if t[0] == "big" else len(alg.generators(t[1]))))
    return out


def main(tier):
    base.load()
    rep = base.Report("C03", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all special classes x all classes of the listed spaces; divisor edges of larger ones"
    rep.assumptions = ["the model: Fulton-Woodward quantum Chevalley graph on W^P; validated against Maple output by mc/selftest"]
    return rep.finish()
