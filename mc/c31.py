"""C31: three-point invariants are symmetric. Only answers of the real code are
compared with one another, so the spaces can be larger than the model's."""

from . import alg, base, poly
from .base import S, make, name


def labels_of(ctx, g, space):
    ok, ls = ctx.call(f"{name(space)} schub_classes", lambda: [tuple(x.p) for x in g.schub_classes()])
    return ls if ok else None


def dual_of(ctx, g, space, labels):
    """{class: dual class} as dualize gives it, checked to be an involution of the classes."""
    out = {}
    for l in labels:
        rp = f"from schubertpy import *\nprint({base.ctor(space)}.dualize('{S(l)}'))"
        ok, r = ctx.call(f"{name(space)} dualize {S(l)}", g.dualize, S(l), repro=rp)
        if not ok:
            return None
        v = alg.read(space, r)
        if len(v) != 1 or list(v.values()) != [1] or any(list(v)[0][1]) or list(v)[0][0] not in set(labels):
            ctx.bad(f"{name(space)} dualize {S(l)}", f"is {r}, which is not a class of the space", rp)
            return None
        out[l] = list(v)[0][0]
    for l in labels:
        if out[out[l]] != l:
            ctx.bad(f"{name(space)} dualize twice {S(l)}", f"is {S(out[out[l]])}", f"from schubertpy import *\ng = {base.ctor(space)}\nprint(g.dualize(g.dualize('{S(l)}')))")
            return None
    return out


def call_of(op, x, i, y):
    if op in ("pieri", "qpieri"):
        return f"g.{op}({i}, '{S(y)}')"
    return f"g.{op}('{S(x)}', '{S(y)}')"


def work(task, ctx):
    space, xs, ops, only = task
    g = make(space)
    try:
        labels = labels_of(ctx, g, space)
        dual = dual_of(ctx, g, space, labels) if labels is not None else None
    except poly.Malformed as e:
        ctx.bad(f"{name(space)} dualize", str(e))
        return
    if dual is None:
        return
    whole = not isinstance(xs[0][1], int)
    for op in ops:
        table = {}
        for x, i in xs:
            for y in only or labels:
                text = call_of(op, x, i, y)
                rp = f"from schubertpy import *\ng = {base.ctor(space)}\nprint({text})"
                ok, r = ctx.call(f"{name(space)} {text}", eval, text, {"g": g}, repro=rp)
                ctx.add(traces_validated_against_impl=1)
                if not ok:
                    return
                try:
                    table[x, y] = alg.read(space, r)
                except poly.Malformed as e:
                    ctx.bad(f"{name(space)} {text}", f"malformed: {e}", rp)
                    return
        # <x, y, z>_d is the coefficient of q^d * dual(z) in x*y
        for (x, y), v in table.items():
            i = dict(xs).get(x)
            for (w, d), c in v.items():
                z = dual.get(w)
                ctx.add(transitions=1)
                for a, b, e in [(x, z, y)] + ([(y, x, z), (y, z, x), (z, x, y), (z, y, x)] if whole else []):
                    if (a, b) not in table:
                        continue
                    got = table[a, b].get((dual[e], d), 0)
                    if got != c:
                        t1, t2 = call_of(op, x, i, y), call_of(op, a, i, b)
                        ctx.bad(f"{name(space)} {t1} and {t2}",
                                f"the invariant of {S(x)}, {S(y)}, {S(z)} in degree {d} is {c} in the first (coefficient of {S(w)}) but {got} in the second (coefficient of {S(dual[e])})",
                                f"from schubertpy import *\ng = {base.ctor(space)}\nprint({t1}, '|', {t2})")
                        if ctx.full:
                            return
        ctx.add(states=len(table))


def tasks(tier):
    quick = tier == "quick"
    out = []
    # all pairs of classes
    sp = alg.spaces(6, 8, 9) + [("OG", 5, 10), ("OG", 1, 12), ("OG", 1, 13), ("IG", 1, 12), ("Gr", 1, 12), ("OG", 5, 11), ("Gr", 2, 8), ("IG", 5, 10)]
    if not quick:
        sp += alg.spaces(7, 10, 10) + [("Gr", 3, 8), ("OG", 2, 12), ("OG", 6, 12), ("OG", 6, 13), ("OG", 2, 11)]
    for s in dict.fromkeys(sp):
        n = len(alg.model(s).labels)
        if alg.generators(s) and n <= (32 if quick else 90):
            out.append((n ** 2 * 8, (s, [(l, None) for l in alg.model(s).labels], ("qmult",), None)))
            out.append((n ** 2 * 5, (s, [(l, None) for l in alg.model(s).labels], ("mult",), None)))
    # special classes times all classes
    sp = alg.spaces(8, 10, 11) + [("OG", 2, 12), ("OG", 3, 12), ("OG", 4, 12), ("OG", 5, 12), ("OG", 6, 12), ("OG", 2, 14), ("OG", 7, 14), ("OG", 6, 14), ("OG", 1, 18), ("OG", 2, 18), ("OG", 8, 16),
                                  ("OG", 2, 13), ("OG", 3, 13), ("OG", 6, 13), ("OG", 7, 15), ("OG", 1, 19), ("OG", 2, 17), ("IG", 2, 12), ("IG", 3, 12), ("IG", 5, 12), ("IG", 6, 12), ("IG", 7, 14),
                                  ("IG", 2, 16), ("IG", 1, 18), ("Gr", 4, 9), ("Gr", 3, 11), ("Gr", 2, 16), ("Gr", 12, 14), ("Gr", 5, 10)]
    if not quick:
        sp += alg.spaces(10, 12, 13) + [("OG", 4, 14), ("OG", 5, 14), ("OG", 3, 14), ("OG", 3, 16), ("OG", 9, 18), ("OG", 8, 17), ("IG", 3, 14), ("IG", 6, 14), ("OG", 6, 15), ("Gr", 4, 12), ("Gr", 6, 12)]
    for s in dict.fromkeys(sp):
        n = len(alg.model(s).labels)
        gens = alg.generators(s)
        if n > (700 if quick else 4000):
            continue
        if quick and n > 150:
            gens = [x for x in gens if abs(x[1]) in (1, 2, base.kn(s)[0], base.kn(s)[0] + 1)] + gens[-1:]
        for x in dict.fromkeys(gens):
            out.append((n, (s, [x], ("qpieri",) if n > 150 else ("pieri", "qpieri"), None)))
    out.sort(key=lambda t: -t[0])
    return [t for _, t in out]


def main(tier):
    base.load()
    rep = base.Report("C31", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[0] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all triples of classes in the small spaces; special classes with all pairs of classes in larger ones (up to 700 classes; all special classes up to 150, the extreme ones and those around k above)"
    rep.assumptions = ["generators and the number of classes from the Weyl group, to choose the tasks"]
    return rep.finish()
