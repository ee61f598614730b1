"""C32: classical products restrict along the chains of Grassmannians with the
same k (or the same number of rows) and agree with Schur polynomials."""
import itertools

from . import alg, base, poly
from .base import S, make, name
from .c18 import ssyt
from .c28 import rect


def up(space):
    """The next Grassmannian of the chain with the same k and type, and, in
    type A, the one with the same rows."""
    fam, m, N = space
    if fam == "Gr":
        return [("Gr", m, N + 1), ("Gr", m + 1, N + 1)]
    return [(fam, m + 1, N + 2)]


def read(space, r):
    return {w: c for (w, d), c in alg.classical(alg.read(space, r)).items()}


def ask(ctx, space, g, text):
    rp = f"from schubertpy import *\ng = {base.ctor(space)}\nprint({text})"
    ok, r = ctx.call(f"{name(space)} {text}", eval, text, {"g": g}, repro=rp)
    ctx.add(traces_validated_against_impl=1)
    if not ok:
        return None
    try:
        v = alg.read(space, r)
    except poly.Malformed as e:
        ctx.bad(f"{name(space)} {text}", f"malformed: {e}", rp)
        return None
    if any(any(d) for _, d in v):
        ctx.bad(f"{name(space)} {text}", f"{r} has terms in q", rp)
        return None
    return {w: c for (w, d), c in v.items()}


def schur_times(lam, mu, n):
    """Product of two Schur polynomials in n variables, expanded in Schur
    polynomials by taking off the leading monomials."""
    a, b = ssyt(lam, n), ssyt(mu, n)
    p = {}
    for x, c in a.items():
        for y, d in b.items():
            k = tuple(i + j for i, j in zip(x, y))
            p[k] = p.get(k, 0) + c * d
    out = {}
    while p:
        top = max(p)
        c = p[top]
        w = tuple(x for x in top if x)
        out[w] = c
        for x, d in ssyt(w, n).items():
            v = p.get(x, 0) - c * d
            if v:
                p[x] = v
            else:
                p.pop(x, None)
    return out


_printed = {}


def printed(lam, n):
    if (lam, n) not in _printed:
        _printed[lam, n] = poly.parse(base.load().Schur(list(lam)).to_polinomial_str(n))
    return _printed[lam, n]


def work(task, ctx):
    what, space, chunk = task
    g = make(space)
    if what == "lr":
        _, m, N = space
        for lam, mu in chunk:
            want = schur_times(lam, mu, m)
            text = f"g.mult('{S(lam)}', '{S(mu)}')"
            got = ask(ctx, space, g, text)
            ctx.add(transitions=len(want), states=1)
            cut = {w: c for w, c in want.items() if not w or w[0] <= N - m}
            if got is not None and got != cut:
                ctx.bad(f"{name(space)} {text}", f"is {got}, but the product of the Schur polynomials in {m} variables is {want}", f"from schubertpy import *\ng = {base.ctor(space)}\nprint({text})")
            # the same with the polynomials as the library prints them
            if N - m >= (lam[:1] or (0,))[0] + (mu[:1] or (0,))[0] and got is not None:
                rp = f"from schubertpy import *\nprint(*[Schur(p).to_polinomial_str({m}) for p in ({list(lam)}, {list(mu)})], sep='\\n')\nprint({base.ctor(space)}.mult('{S(lam)}', '{S(mu)}'))"
                try:
                    left = poly.pmul(printed(lam, m), printed(mu, m))
                    right = {}
                    for w, c in got.items():
                        right = poly.padd(right, printed(w, m), c)
                except Exception as e:
                    ctx.bad(f"polynomials of {S(lam)} and {S(mu)} in {m} variables", f"{type(e).__name__}: {e}", rp)
                    return
                ctx.add(traces_validated_against_impl=1)
                if left != right:
                    ctx.bad(f"polynomials of {S(lam)} and {S(mu)} in {m} variables", f"their product is not the sum of the polynomials of {got}", rp)
            if ctx.full:
                return
        return
    try:
        known = {tuple(x.p) for x in g.schub_classes()}
    except Exception as e:
        ctx.bad(f"{name(space)} schub_classes", f"{type(e).__name__}: {e}")
        return
    for big in up(space):
        h = make(big)
        for x, y in chunk:
            if what == "pieri":
                text = f"g.pieri({y}, '{S(x)}')"
            else:
                text = f"g.mult('{S(x)}', '{S(y)}')"
            a, b = ask(ctx, space, g, text), ask(ctx, big, h, text)
            if a is None or b is None:
                return
            ctx.add(transitions=len(b), states=1)
            if a != {w: c for w, c in b.items() if w in known}:
                ctx.bad(f"{name(space)} and {name(big)} {text}", f"is {a}, but {b} in the larger Grassmannian",
                        f"from schubertpy import *\ng = {base.ctor(space)}\nprint({text})\ng = {base.ctor(big)}\nprint({text})")
            if ctx.full:
                return


def tasks(tier):
    quick = tier == "quick"
    out = []
    for s in alg.spaces(6, 8, 9) + [("OG", 1, 10), ("OG", 1, 12), ("OG", 4, 10), ("OG", 2, 10), ("OG", 5, 10), ("Gr", 1, 10), ("Gr", 2, 8), ("IG", 5, 10), ("OG", 5, 11)] + \
            ([] if quick else alg.spaces(8, 10, 11)):
        L = alg.model(s).labels
        if len(L) > (34 if quick else 100) or not alg.generators(s):
            continue
        for c in alg.chunks(itertools.product(L, L), 150):
            out.append((len(c) * len(L), ("mult", s, c)))
    sp = alg.spaces(8, 12, 13, lo=6) + [("OG", 6, 14), ("OG", 5, 14), ("OG", 4, 14), ("OG", 2, 16), ("IG", 6, 14), ("OG", 6, 15), ("OG", 7, 14), ("OG", 7, 15), ("IG", 7, 14), ("OG", 8, 16), ("OG", 8, 17), ("Gr", 4, 10), ("Gr", 3, 12), ("Gr", 9, 12), ("IG", 2, 16), ("OG", 2, 17)] + \
        ([] if quick else alg.spaces(10, 14, 15))
    for s in dict.fromkeys(sp):
        L = alg.model(s).labels
        if len(L) > (400 if quick else 4000):
            continue
        if quick and len(L) > 100:
            # the largest and the smallest classes, and a grid of the others
            L = sorted(L, key=lambda p: (sum(p), p))
            L = L[:20] + L[20:-40:-(-len(L) // 60)] + L[-40:]
        gens = alg.generators(s)
        for c in alg.chunks([(x, i) for x in L for _, i in gens], 300):
            out.append((len(c) * 12, ("pieri", s, c)))
    for m, cols, room in [(2, 4, 0), (2, 4, 2), (2, 4, 4), (3, 2, 0), (3, 2, 2), (3, 3, 0), (3, 3, 3), (4, 2, 0), (4, 2, 1), (4, 2, 2), (1, 8, 4)] + ([] if quick else [(4, 3, 3), (3, 4, 4), (5, 2, 2), (2, 7, 7)]):
        L = rect(m, cols)
        s = ("Gr", m, m + cols + room)
        for c in alg.chunks(itertools.combinations_with_replacement(L, 2), 40):
            out.append((len(c) * 30, ("lr", s, c)))
    out.sort(key=lambda t: -t[0])
    return [t for _, t in out]


def main(tier):
    base.load()
    rep = base.Report("C32", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all pairs of classes in small spaces and the next of their chain; special classes with classes of larger ones; all pairs of partitions in a box against products of Schur polynomials"
    rep.assumptions = ["semistandard tableaux enumerated by mc/c18"]
    return rep.finish()
