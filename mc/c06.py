"""C06: laws every product has to obey, on all pairs and on spaces too large to
tabulate."""
from . import alg, base, poly
from .base import S, name, make


def check(ctx, space, key, rp, r, deg, degq, classical=None):
    M = alg.model(space)
    try:
        v = alg.read(space, r)
    except poly.Malformed as e:
        ctx.bad(key, f"malformed: {e}", rp)
        return None
    for (w, d), c in v.items():
        if w not in M.pos:
            ctx.bad(key, f"{S(w)} in {r} is not a class of {name(space)}", rp)
        elif not isinstance(c, int) or c <= 0:
            ctx.bad(key, f"coefficient {c} of {S(w)} in {r} is not a positive integer", rp)
        elif sum(w) + sum(d) * degq != deg:
            ctx.bad(key, f"term {S(w)} with q-degree {d} in {r} has degree {sum(w) + sum(d) * degq}, not {deg}", rp)
    if classical is not None:
        if alg.classical(v) != classical:
            ctx.bad(key, f"the q-free part of {r} is not the classical product {alg.text(space, classical)}", rp)
    ctx.add(transitions=len(v))
    return v


def work(task, ctx):
    what, space, chunk = task
    M = alg.model(space)
    g = make(space)
    ok, degq = ctx.call(f"{name(space)} degree_q", g.degree_q)
    if not ok:
        return
    if M.npic and [degq] * M.npic != M.degq:
        ctx.bad(f"{name(space)} degree_q", f"degree_q() is {degq}, the anticanonical degree is {M.degq}",
                f"from schubertpy import *\nprint({base.ctor(space)}.degree_q(), {M.degq})\n")
    if what == "pieri":
        for lam in chunk:
            for l, i in alg.generators(space):
                key = f"{name(space)} qpieri {i} {S(lam)}"
                rp = alg.repro(space, f"(g.qpieri({i}, '{S(lam)}'), g.pieri({i}, '{S(lam)}'))", "graded, positive, valid classes, same q-free part")
                ok, r = ctx.call(key, lambda: (g.qpieri(i, S(lam)), g.pieri(i, S(lam))), repro=rp)
                if ok:
                    cl = check(ctx, space, key, rp, r[1], abs(i) + sum(lam), degq)
                    check(ctx, space, key, rp, r[0], abs(i) + sum(lam), degq, cl)
                ctx.add(traces_validated_against_impl=2)
                if ctx.full:
                    return
    else:
        low = [l for l in M.labels if sum(l) <= what]
        for lam in chunk:
            for mu in low:
                key = f"{name(space)} qmult {S(mu)} {S(lam)}"
                rp = alg.repro(space, f"(g.qmult('{S(mu)}', '{S(lam)}'), g.mult('{S(mu)}', '{S(lam)}'))", "graded, positive, valid classes, same q-free part")
                ok, r = ctx.call(key, lambda: (g.qmult(S(mu), S(lam)), g.mult(S(mu), S(lam))), repro=rp)
                if ok:
                    cl = check(ctx, space, key, rp, r[1], sum(mu) + sum(lam), degq)
                    check(ctx, space, key, rp, r[0], sum(mu) + sum(lam), degq, cl)
                ctx.add(traces_validated_against_impl=2)
                if ctx.full:
                    return
    ctx.add(states=len(chunk))


def tasks(tier):
    quick = tier == "quick"
    out = []
    sp = alg.spaces(6, 8, 9)
    if not quick:
        sp = alg.spaces(8, 10, 11)
    lim = 34 if quick else 130
    for s in sp:
        labels = alg.model(s).labels
        if len(labels) > lim or not alg.generators(s):
            continue
        out += [(len(c) * len(labels) * 8, (10 ** 6, s, c)) for c in alg.chunks(labels, max(1, 150 // len(labels)))]
    sp = [("Gr", 4, 9), ("Gr", 3, 9), ("IG", 3, 10), ("IG", 4, 10), ("IG", 5, 10), ("OG", 3, 10), ("OG", 4, 10), ("OG", 3, 11), ("OG", 5, 11), ("OG", 5, 12),
          ("OG", 6, 12), ("OG", 2, 12), ("IG", 2, 12), ("OG", 2, 13)]
    if not quick:
        sp += [("Gr", 5, 10), ("IG", 4, 12), ("IG", 3, 12), ("OG", 4, 12), ("OG", 4, 13), ("OG", 6, 13), ("OG", 6, 14), ("OG", 7, 14), ("OG", 2, 16), ("OG", 2, 17), ("IG", 2, 16)]
    for s in sp:
        labels = alg.model(s).labels
        for c in alg.chunks(labels, 20):
            out.append((len(c) * 60, (2 if quick else 4, s, c)))
    sp = [("IG", 3, 12), ("OG", 4, 12), ("OG", 4, 13), ("OG", 3, 12), ("OG", 7, 14), ("OG", 6, 14), ("Gr", 4, 11)]
    if not quick:
        sp += [("OG", m, N) for N in (12, 13, 14, 15) for m in range(2, 8) if m <= N // 2] + [("IG", m, 14) for m in range(2, 8)] + \
            [("OG", 7, 16), ("OG", 8, 16), ("OG", 8, 18), ("Gr", 5, 12), ("Gr", 6, 12)]
    for s in dict.fromkeys(sp):
        labels = alg.model(s).labels
        if quick and len(labels) > 300:
            labels = labels[:150] + labels[-150:]
        for c in alg.chunks(labels, 30):
            out.append((len(c) * len(alg.generators(s)), ("pieri", s, c)))
    out.sort(key=lambda t: -t[0])
    return [t for _, t in out]


def main(tier):
    base.load()
    rep = base.Report("C06", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all pairs of classes in the small spaces, classes of low degree times all classes in middle ones, special classes in large ones"
    rep.assumptions = ["labels and anticanonical degree from the Weyl group"]
    return rep.finish()
