"""C04: Giambelli polynomials, evaluated step by step on the model."""
import itertools

from . import alg, base, poly
from .base import S, name, make


class Eval:
    """Evaluates polynomials in special classes on the unit, by walking the
    multiplication graph of the model."""

    def __init__(self, space, quantum):
        self.space, self.q = space, quantum
        self.gens = [l for l, _ in alg.generators(space)]
        self.op = alg.ops(space, self.gens) if self.gens else {}
        self.memo = {(): {((), alg.zero_q(space)): 1}}

    def mono(self, ls):
        if ls not in self.memo:
            self.memo[ls] = alg.times(self.op[ls[-1]], self.mono(ls[:-1]), self.q)
        return self.memo[ls]

    def poly(self, p):
        """(vector, degrees of the terms) or None if not in special classes."""
        vec, degs = {}, set()
        qv = alg.qv(self.space)
        M = alg.model(self.space)
        for m, c in p.items():
            ls, qd = [], [0] * M.npic
            for x, e in m:
                if isinstance(x, tuple):
                    if x[1] not in self.gens:
                        raise poly.Malformed(f"{S(x[1])} is not a special class")
                    ls += [x[1]] * e
                elif x in qv and self.q:
                    qd[qv.index(x)] += e
                else:
                    raise poly.Malformed(f"unexpected {x}")
            if not isinstance(c, int):
                raise poly.Malformed(f"coefficient {c}")
            degs.add(sum(map(sum, ls)) + sum(a * b for a, b in zip(qd, M.degq)))
            vec = alg.add(vec, alg.scale(self.mono(tuple(sorted(ls))), c, qd))
        return vec, degs


def check(ctx, space, ev, fn, f, arg, want, deg):
    key = f"{name(space)} {fn} {arg}"
    rp = alg.repro(space, f"g.{fn}({arg!r})", f"a polynomial in special classes which evaluates to {alg.text(space, want)}")
    ok, r = ctx.call(key, f, arg, repro=rp)
    ctx.add(traces_validated_against_impl=1)
    if not ok:
        return None
    if type(r).__name__ != "LinearCombination":
        ctx.bad(key, f"result is a {type(r).__name__}", rp)
        return None
    try:
        p = poly.parse(str(r))
        vec, degs = ev.poly(p)
    except poly.Malformed as e:
        ctx.bad(key, f"{r}: {e}", rp)
        return None
    if deg is not None and degs - {deg}:
        ctx.bad(key, f"{r} has terms of degree {degs}, not only {deg}", rp)
    elif vec != want:
        ctx.bad(key, f"{r} evaluates to {alg.text(space, vec)}, not {alg.text(space, want)}", rp)
    ctx.add(transitions=len(p))
    return p


def work(task, ctx):
    what, space, chunk = task
    M = alg.model(space)
    g = make(space)
    z = alg.zero_q(space)
    for quantum in (False, True):
        fn = "qgiambelli" if quantum else "giambelli"
        f = getattr(g, fn)
        ev = Eval(space, quantum)
        if what == "one":
            for l in chunk:
                p = check(ctx, space, ev, fn, f, S(l), {(l, z): 1}, sum(l))
                if p and len(p) > 2:
                    ctx.sample(f"{name(space)} {fn} {S(l)} = {poly.show(p)}", 1)
                if ctx.full:
                    return
            continue
        memo = {}
        for x, y in chunk:
            for l in (x, y):
                if l not in memo:
                    ok, r = base.quiet(f, S(l))
                    try:
                        memo[l] = poly.parse(str(r)) if ok else None
                    except poly.Malformed:
                        memo[l] = None
            if memo[x] is None or memo[y] is None:
                continue      # reported by the single-class tasks
            qs = alg.qv(space)[:1] if quantum else ()
            cases = [(f"{S(x)}*{S(y)}", poly.pmul(memo[x], memo[y])),
                     (f"5*{S(x)} - 2*{S(y)}", poly.padd(poly.pmul(poly.const(5), memo[x]), memo[y], -2)),
                     (f"({S(x)} + {S(y)})*{S(y)} + 7", poly.padd(poly.pmul(poly.padd(memo[x], memo[y]), memo[y]), poly.const(7)))]
            for v in qs:
                cases.append((f"{v}*{S(x)} + {v}^2*{S(y)}",
                              poly.padd(poly.pmul(poly.atom(v), memo[x]), poly.pmul(poly.ppow(poly.atom(v), 2), memo[y]))))
            for arg, want in cases:
                key = f"{name(space)} {fn} {arg}"
                rp = alg.repro(space, f"g.{fn}({arg!r})", poly.show(want))
                ok, r = ctx.call(key, f, arg, repro=rp)
                ctx.add(traces_validated_against_impl=1)
                if ok:
                    try:
                        got = poly.parse(str(r))
                    except poly.Malformed as e:
                        got = e
                    if got != want:
                        ctx.bad(key, f"got {r}, expected {poly.show(want)}", rp)
            if ctx.full:
                return
    ctx.add(states=len(chunk))


WIDE = [("Gr", 3, 12), ("Gr", 9, 12), ("Gr", 5, 10), ("Gr", 2, 16), ("Gr", 14, 16), ("IG", 1, 16), ("IG", 2, 12), ("IG", 3, 12), ("IG", 5, 12), ("IG", 7, 14),
        ("OG", 1, 17), ("OG", 2, 13), ("OG", 3, 13), ("OG", 5, 13), ("OG", 6, 15), ("OG", 7, 15), ("OG", 1, 16), ("OG", 2, 14), ("OG", 3, 12), ("OG", 4, 12),
        ("OG", 5, 12), ("OG", 8, 16)]
HUGE = [("IG", 6, 14), ("OG", 6, 14)]          # thorough only


def tasks(tier):
    quick = tier == "quick"
    sp = alg.spaces(8, 10, 11) + [("IG", 5, 10), ("IG", 1, 10), ("OG", 5, 10), ("OG", 1, 12), ("OG", 5, 11), ("OG", 2, 10),
                               ("OG", 4, 10), ("Gr", 1, 12), ("Gr", 2, 11), ("Gr", 9, 11), ("OG", 6, 12), ("OG", 6, 13)]
    if not quick:
        sp = alg.spaces(9, 10, 12) + sp + [("IG", 1, 14), ("IG", 2, 12), ("IG", 6, 12), ("OG", 7, 14), ("OG", 1, 16), ("OG", 2, 14)]
    limit = 90 if quick else 400
    wide = WIDE if quick else WIDE + HUGE
    out = []
    for s in dict.fromkeys(sp + wide):
        labels = alg.model(s).labels
        if len(labels) > limit:
            if s in wide:
                # large spaces: classes evenly spread over the Bruhat order
                out += [("one", s, c) for c in alg.chunks(labels[::-(-len(labels) // (40 if quick else 160))] + labels[-3:], 12)]
            continue
        for c in alg.chunks(labels, 12):
            out.append(("one", s, c))
        if len(labels) <= (12 if quick else 24):
            for c in alg.chunks(itertools.combinations_with_replacement(labels, 2), 40):
                out.append(("two", s, c))
    out.sort(key=lambda t: -len(alg.model(t[1]).labels))
    return out


def main(tier):
    base.load()
    rep = base.Report("C04", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all classes of the listed spaces; all pairs in the small ones"
    rep.assumptions = ["the model: Fulton-Woodward quantum Chevalley graph on W^P; validated against Maple output by mc/selftest"]
    return rep.finish()
