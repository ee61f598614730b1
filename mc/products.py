"""C01 / C02: all products of two classes, and of several, against the model."""
import itertools

from . import alg, base, poly
from .base import S, name, make


def work(task, ctx):
    what, quantum, space, chunk = task
    M = alg.model(space)
    g = make(space)
    L = base.load().LinearCombination
    z = alg.zero_q(space)
    if what == "pairs":
        op = alg.ops(space, chunk)
        mult = g.qmult if quantum else g.mult
        fn = "qmult" if quantum else "mult"
        lcs = {l: L(S(l)) for l in M.labels}
        for a in chunk:
            for b in M.labels:
                want = op[a][b]
                if not quantum:
                    want = alg.classical(want)
                for x, y in ((a, b), (b, a)) if b not in chunk else ((a, b),):
                    key = f"{name(space)} {fn} {S(x)} {S(y)}"
                    rp = alg.repro(space, f"g.{fn}('{S(x)}', '{S(y)}')", alg.text(space, want))
                    ok, r = ctx.call(key, mult, lcs[x], lcs[y], repro=rp)
                    if ok:
                        alg.compare(ctx, space, key, r, want, rp)
                    ctx.add(traces_validated_against_impl=1)
                    if ctx.full:
                        return
                ctx.add(transitions=len(want))
                if len(want) > 1:
                    ctx.sample(f"{name(space)}: {S(a)} . {S(b)} = {alg.text(space, want)}", 1)
        ctx.add(states=len(chunk))
        return
    op = alg.ops(space)
    toS = g.qtoS if quantum else g.toS
    fn = "qtoS" if quantum else "toS"
    mult = g.qmult if quantum else g.mult
    unit = {((), z): 1}
    for combo in chunk:
        vec = unit
        for a in combo:
            vec = alg.times(op[a], vec, quantum)
        runs = [(a, len(list(r))) for a, r in itertools.groupby(combo)]
        if len(combo) > 3:
            expr = "*".join(S(a) + (f"^{e}" if e > 1 else "") for a, e in runs)
        else:
            expr = "*".join(S(a) for a in combo)
        key = f"{name(space)} {fn} {expr}"
        rp = alg.repro(space, f"g.{fn}('{expr}')", alg.text(space, vec))
        ok, r = ctx.call(key, toS, expr, repro=rp)
        if ok:
            alg.compare(ctx, space, key, r, vec, rp)
        ctx.add(traces_validated_against_impl=1, transitions=len(vec))
        if len(combo) == 3:
            # the same product by feeding a result back, on either side
            key = f"{name(space)} nested {expr}"
            m = "qmult" if quantum else "mult"
            a, b, c = map(S, combo)
            rp = alg.repro(space, f"g.{m}(g.{m}('{a}', '{b}'), '{c}'), g.{m}('{a}', g.{m}('{b}', '{c}'))",
                           alg.text(space, vec))
            ok, r = ctx.call(key, lambda: (mult(mult(a, b), c), mult(a, mult(b, c))), repro=rp)
            if ok:
                for x in r:
                    alg.compare(ctx, space, key, x, vec, rp)
            ctx.add(traces_validated_against_impl=2)
        if ctx.full:
            return
    ctx.add(states=0)


def tasks(tier, quantum):
    out = []
    if tier == "quick":
        sp = alg.spaces(6, 8, 9) + [("Gr", m, 7) for m in range(1, 7)] + [("IG", 1, 10), ("IG", 5, 10)]
        sp += [("OG", 1, 10), ("OG", 5, 10), ("OG", 1, 11), ("OG", 5, 11), ("OG", 1, 12), ("OG", 6, 12),
               ("Gr", 1, 12), ("Gr", 2, 9), ("Gr", 7, 9), ("Gr", 11, 12), ("IG", 1, 12)]
        limit, lim3 = 36, 8
    else:
        sp = alg.spaces(9, 10, 11) + [("OG", m, N) for N in (12, 13) for m in range(1, N // 2 + 1)] + \
            [("IG", m, 12) for m in range(1, 7)] + [("Gr", m, 10) for m in range(1, 10)]
        sp += [("Gr", 2, 13), ("Gr", 1, 14), ("IG", 1, 16), ("IG", 2, 14), ("OG", 1, 17), ("OG", 1, 16), ("OG", 2, 14),
               ("OG", 7, 14), ("OG", 7, 15)]
        limit, lim3 = 260, 12
    wide = []
    if tier == "quick":
        wide = alg.spaces(9, 10, 11) + [("Gr", 1, 20), ("Gr", 19, 20), ("Gr", 2, 14), ("Gr", 3, 10), ("Gr", 12, 14), ("IG", 2, 12), ("IG", 6, 12), ("IG", 1, 20),
                                        ("OG", 2, 12), ("OG", 6, 12), ("OG", 6, 13), ("OG", 7, 14), ("OG", 2, 13), ("OG", 1, 20), ("OG", 1, 21), ("OG", 4, 10)]
    for s in dict.fromkeys(sp + wide):
        M = alg.model(s)
        n = len(M.labels)
        if n > limit or s not in sp:
            # a sub-alphabet on one side, all classes on the other
            if s in wide and 1 < n <= 130:
                ls = list(M.labels)
                some = list(dict.fromkeys(ls[:6] + [l for l, _ in alg.generators(s)][-3:] + ls[n // 3::max(1, n // 6)][:4] + ls[-2:]))
                for c in alg.chunks(some, max(1, 240 // n)):
                    out.append(("pairs", quantum, s, c))
            continue
        per = max(1, 240 // n)
        for c in alg.chunks(M.labels, per):
            out.append(("pairs", quantum, s, c))
        combos = []
        if n <= lim3:
            combos += list(itertools.combinations_with_replacement(M.labels, 3))
        elif n <= (20 if tier == "quick" else 40):
            combos += list(itertools.combinations_with_replacement(M.labels, 2))
        combos.append((M.labels[-1],) * 2)
        if n <= lim3:
            combos += [c for c in itertools.combinations_with_replacement(M.labels[1:], 4)]
        if n <= 24:
            top = max(M.len)
            combos += [(l,) * e for l in M.labels[1:] for e in (4, 5, 6) if e * sum(l) <= 3 * top + 6]
            gens = [l for l, _ in alg.generators(s)]
            combos += [(a,) * i + (b,) * j for a in gens[:3] for b in gens[:4] for i in (2, 3, 4) for j in (2, 3) if a != b]
            if gens:
                combos += [(gens[0],) * e for e in (7, 8, top, top + 1) if e > 6]
        for c in alg.chunks(dict.fromkeys(combos), 60):
            out.append(("multi", quantum, s, c))
    out.sort(key=lambda t: -len(t[3]) * (len(alg.model(t[2]).labels) if t[0] == "pairs" else 4))
    return out


def main(prop, tier, quantum):
    base.load()
    rep = base.Report(prop, tier)
    ts = tasks(tier, quantum)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[2] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all ordered pairs of Schubert classes in the spaces up to the stated size, a sub-alphabet times all classes in larger ones; all products of three and four in the small ones; powers"
    rep.assumptions = ["the model: Fulton-Woodward quantum Chevalley graph on W^P; validated against Maple output by mc/selftest"]
    return rep.finish()
