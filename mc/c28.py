"""C28: isomorphic Grassmannians have the same ring. Both sides are the real
code; nothing is compared with the model, so the spaces can be larger."""
import itertools

from . import alg, base, poly
from .base import S, make, name
from .c27 import partitions


def conj(l):
    return tuple(sum(1 for x in l if x > c) for c in range(l[0])) if l else ()


def strict(n):
    out = [()]
    for r in range(1, n + 1):
        out += [tuple(sorted(c, reverse=True)) for c in itertools.combinations(range(1, n + 1), r)]
    return sorted(out, key=lambda l: (sum(l), l))


def rect(rows, cols):
    return sorted((l for l in partitions(rows, cols) if not l or l[-1] > 0), key=lambda l: (sum(l), l))


def families(tier):
    """(space, other space, {class: class}, pairs or None for special classes only)"""
    quick = tier == "quick"
    full = 7 if quick else 9
    out = []
    for N in range(2, full + 2):
        for m in range(1, N):
            if m <= N - m:
                ls = rect(m, N - m)
                out.append((("Gr", m, N), ("Gr", N - m, N), {l: conj(l) for l in ls}, len(ls) <= (60 if quick else 130)))
    for m, N in [(2, 12), (3, 9), (1, 14)] + ([] if quick else [(4, 10), (3, 11), (2, 15), (5, 10)]):
        out.append((("Gr", m, N), ("Gr", N - m, N), {l: conj(l) for l in rect(m, N - m)}, m == 1))
    for n in range(1, 8 if quick else 11):
        out.append((("IG", 1, 2 * n), ("Gr", 1, 2 * n), {l: l for l in rect(1, 2 * n - 1)}, True))
    for n in range(1, 8 if quick else 9):
        ls = strict(n)
        out.append((("OG", n, 2 * n + 1), ("OG", n + 1, 2 * n + 2), {l: l for l in ls}, len(ls) <= (32 if quick else 128)))
    # exceptional isomorphisms
    quadric4 = {(): (), (1,): (1,), (2,): (2,), (1, 1): (2, 0), (2, 1): (3,), (2, 2): (4,)}
    out.append((("Gr", 2, 4), ("OG", 1, 6), quadric4, True))
    quadric4b = dict(quadric4)
    quadric4b[(2,)], quadric4b[(1, 1)] = (2, 0), (2,)
    out.append((("Gr", 2, 4), ("OG", 1, 6), quadric4b, True))
    p3 = {(): (), (1,): (1,), (2,): (2,), (3,): (2, 1)}
    out.append((("Gr", 1, 4), ("OG", 2, 5), p3, True))
    out.append((("IG", 1, 4), ("OG", 3, 6), p3, True))
    out.append((("IG", 2, 4), ("OG", 1, 5), {(): (), (1,): (1,), (2,): (2,), (2, 1): (3,)}, True))
    q6 = {(): (), (1,): (1,), (2,): (2,), (3,): (3,), (2, 1): (3, 0), (3, 1): (4,), (3, 2): (5,), (3, 2, 1): (6,)}
    for s in (("OG", 3, 7), ("OG", 4, 8)):
        out.append((s, ("OG", 1, 8), q6, True))
    out.append((("Gr", 1, 2), ("OG", 1, 3), {(): (), (1,): (1,)}, True))
    return out


def special_of(space, labels):
    return [l for l in labels if len(l) == 1]


def read(r):
    if type(r).__name__ != "LinearCombination":
        raise poly.Malformed(f"result is a {type(r).__name__}")
    return poly.classes(str(r), ("q",))


def image(v, iso):
    return {(iso.get(w, ("?",) + tuple(w)), d): c for (w, d), c in v.items()}


def work(task, ctx):
    s, t, iso, chunk, whole = task
    a, b = make(s), make(t)
    inv = f"under {name(s)} = {name(t)}"

    def rp(x, y):
        return f"from schubertpy import *\na = {base.ctor(s)}\nb = {base.ctor(t)}\nprint({x})\nprint({y})\n"

    def both(key, f, g, x, y):
        ok1, r1 = ctx.call(f"{name(s)} {x}", f, repro=rp("a." + x, "b." + y))
        ok2, r2 = ctx.call(f"{name(t)} {y}", g, repro=rp("a." + x, "b." + y))
        ctx.add(traces_validated_against_impl=2)
        if not (ok1 and ok2):
            return
        try:
            v1, v2 = image(read(r1), iso), read(r2)
        except poly.Malformed as e:
            ctx.bad(f"{name(s)} {x}", f"malformed: {e}", rp("a." + x, "b." + y))
            return
        ctx.add(transitions=len(v1))
        if v1 != v2:
            ctx.bad(f"{name(s)} {x}", f"is {r1}, but {y} on {name(t)} is {r2}, which is not the same {inv}", rp("a." + x, "b." + y))
    if whole:
        ctx.add(states=len(iso))
        key = f"{name(s)} and {name(t)}"
        try:
            c1 = sorted(tuple(iso.get(tuple(c.p), ("?",) + tuple(c.p))) for c in a.schub_classes())
            c2 = sorted(tuple(c.p) for c in b.schub_classes())
            if c1 != c2:
                ctx.bad(key, f"classes do not correspond: {c1} and {c2}", rp("a.schub_classes()", "b.schub_classes()"))
            if iso.get(tuple(a.point_class().p)) != tuple(b.point_class().p):
                ctx.bad(key, f"point classes do not correspond: {a.point_class()} and {b.point_class()}", rp("a.point_class()", "b.point_class()"))
            if a.degree_q() != b.degree_q():
                ctx.bad(key, f"degree_q: {a.degree_q()} and {b.degree_q()}", rp("a.degree_q()", "b.degree_q()"))
        except Exception as e:
            ctx.bad(key, f"raised {type(e).__name__}: {e}", rp("a.schub_classes()", "b.schub_classes()"))
        for x in iso:
            if iso[x] in ((2,), (3,), (2, 0), (3, 0)) and t[0] == "OG" and t[1] == 1:
                continue        # the middle classes of a quadric may be exchanged: see the products
            both(key, lambda: a.dualize(S(x)), lambda: b.dualize(S(iso[x])), f"dualize('{S(x)}')", f"dualize('{S(iso[x])}')")
            if ctx.full:
                return
    for x, y in chunk:
        u, v, p, r = S(x), S(y), S(iso[x]), S(iso[y])
        both(None, lambda: a.qmult(u, v), lambda: b.qmult(p, r), f"qmult('{u}', '{v}')", f"qmult('{p}', '{r}')")
        if ctx.full:
            return
        if sum(x) + sum(y) > 2:
            both(None, lambda: a.mult(u, v), lambda: b.mult(p, r), f"mult('{u}', '{v}')", f"mult('{p}', '{r}')")


def main(tier):
    base.load()
    rep = base.Report("C28", tier)
    ts = []
    fam = families(tier)
    for s, t, iso, every in fam:
        ls = list(iso)
        if every:
            pairs = list(itertools.combinations_with_replacement(ls, 2))
        else:
            sp = [l for l in ls if len(l) == 1 or len(iso[l]) == 1]
            pairs = [(x, y) for x in sp for y in ls]
        first = True
        for c in alg.chunks(pairs, 120 if len(ls) < 50 else 40):
            ts.append((s, t, iso, c, first))
            first = False
    ts.sort(key=lambda x: -len(x[2]) * len(x[3]))
    rep.explore(work, ts)
    rep.extra["spaces"] = 2 * len(fam)
    rep.extra["products_compared"] = sum(len(x[3]) for x in ts)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all pairs of classes for the smaller isomorphic pairs of Grassmannians, special classes times all classes for the larger ones"
    rep.assumptions = ["the isomorphisms: Gr(m,n) = Gr(n-m,n), IG(1,2n) = P^(2n-1), OG(n,2n+1) = OG(n+1,2n+2), and the exceptional ones in low dimension"]
    return rep.finish()
