"""C20: linearity of every operation, in each argument."""
from fractions import Fraction

from . import alg, base, poly
from .base import S, make, name


def unary(space):
    kd = base.kind(space)
    k = base.kn(space)[0]
    out = ["giambelli({})", "qgiambelli({})", "toS({})", "qtoS({})", "dualize({})", "part2index({})", "miami_swap({})",
           f"type_swap({{}}, {k})"]
    if kd != "A":
        out += ["part2pair({})"]
    for s, i in alg.generators(space):
        out += [f"pieri({i}, {{}})", f"qpieri({i}, {{}})"]
    return out


def binary(space):
    out = ["mult({}, {})", "qmult({}, {})", "qact({}, {})", "act({}, {})"]
    if base.kind(space) == "A":
        out.append("qmult_rh({}, {})")
    return out


def coefs(space):
    q = alg.qv(space)
    out = ["1", "-1", "2", "0", "(1/2)", "-3"]
    for x in q:
        out += [x, f"2*{x}", f"{x}^2"]
    if len(q) == 2:
        out += ["q1*q2"]
    return out


def value(c):
    return poly.parse(c.strip("()") if c.startswith("(") else c)


def lin(parts):
    r = {}
    for c, v in parts:
        r = poly.padd(r, poly.pmul(value(c), v))
    return r


def term(c, l):
    return S(l) if c == "1" else f"{c}*{S(l)}"


def forms(a, x, b, y):
    """Other ways of writing a*x + b*y."""
    out = [f"{term(b, y)} + {term(a, x)}", f"({a})*({S(x)}) + ({b})*({S(y)})",
           f"{term(a, x)} + {term(b, y)} + {S(y)} - {S(y)}"]
    if a == b:
        out.append(f"{a}*({S(x)} + {S(y)})")
    if a == "2" and b == "1":
        out.append(f"{S(x)} + {S(y)} + {S(x)}")
    if a == "2" and b == "2":
        out.append(f"({S(x)} + {S(y)})*2 + 0*{S(y)}")
    if a == "1" and b == "-1":
        out.append(f"-({S(y)} - {S(x)})")
    return out


def get(ctx, g, call, key, rp):
    """Polynomial of a result, or None (already reported)."""
    ok, r = ctx.call(key, call, repro=rp)
    if not ok:
        return None
    if type(r).__name__ != "LinearCombination":
        ctx.bad(key, f"gives a {type(r).__name__}, not a LinearCombination: {r}", rp)
        return None
    try:
        return poly.parse(str(r))
    except poly.Malformed as e:
        ctx.bad(key, f"malformed result {r}: {e}", rp)
        return None


def work(task, ctx):
    space, tmpl, pos, pairs, second, cs, full = task
    g = make(space)
    L = base.load().LinearCombination
    o = base.ctor(space)
    zero = {}

    def call(arg, other):
        # `arg` is text or a LinearCombination put in position `pos`
        args = {None: (arg,), 0: (arg, other), 1: (other, arg)}[pos]
        fname, rest = tmpl.split("(", 1)
        rest = rest.rstrip(")").split(", ")
        it = iter(args)
        vals = [next(it) if r == "{}" else int(r) for r in rest]
        return getattr(g, fname)(*vals)

    def shown(arg, other):
        args = {None: (arg,), 0: (arg, other), 1: (other, arg)}[pos]
        return tmpl.format(*[repr(x) for x in args])

    if full == "long":
        # sums of many terms, of every length up to a bound
        qs = alg.qv(space)
        for other in second:
            seen = {}
            for t in alg.long_sums(pairs, cs, qs):
                x = alg.sum_text(t, qs)
                parts = []
                for c, e, l in t:
                    if l not in seen:
                        key = f"{name(space)} {shown(S(l), other)}"
                        seen[l] = get(ctx, g, lambda: call(S(l), other), key, f"from schubertpy import *\ng = {o}\nprint(g.{shown(S(l), other)})\n")
                        ctx.add(traces_validated_against_impl=1)
                    if seen[l] is None:
                        return
                    parts.append((str(c) + (f"*{qs[0]}^{e}" if e else ""), seen[l]))
                want = lin(parts)
                for kd, arg in (("text", x), ("LC", L(x))):
                    key = f"{name(space)} {shown(x, other)} [{kd}]"
                    rp = f"from schubertpy import *\ng = {o}\nprint(g.{shown(x, other)}, 'expected', {poly.show(want)!r})\n"
                    got = get(ctx, g, lambda: call(arg, other), key, rp)
                    ctx.add(traces_validated_against_impl=1, transitions=len(t))
                    if got is not None and got != want:
                        ctx.bad(key, f"got {poly.show(got)}, expected {poly.show(want)}", rp)
                if ctx.full:
                    return
            ctx.add(states=1)
        return
    for other in second:
        seen = {}

        def single(l):
            if l not in seen:
                t = S(l)
                key = f"{name(space)} {shown(t, other)}"
                seen[l] = get(ctx, g, lambda: call(t, other), key, f"from schubertpy import *\ng = {o}\nprint(g.{shown(t, other)})\n")
                ctx.add(traces_validated_against_impl=1)
            return seen[l]

        def test(text, want, kinds=("text",)):
            for kd in kinds:
                key = f"{name(space)} {shown(text, other)} [{kd}]"
                rp = f"from schubertpy import *\ng = {o}\nprint(g.{shown(text, other)}, 'expected', {poly.show(want)!r})\n"
                arg = text if kd == "text" else L(text) if kd == "LC" else L(text).expr
                got = get(ctx, g, lambda: call(arg, other), key, rp)
                ctx.add(traces_validated_against_impl=1, transitions=max(1, len(want)))
                if got is not None and got != want:
                    ctx.bad(key, f"got {poly.show(got)}, expected {poly.show(want)}", rp)
        for z in ("0", "0*" + S(pairs[0][0]), f"{S(pairs[0][0])} - {S(pairs[0][0])}"):
            test(z, zero, ("text", "LC"))
        for n, (x, y) in enumerate(pairs):
            fx, fy = single(x), single(y)
            if fx is None or fy is None or ctx.full:
                return
            for i, a in enumerate(cs):
                for j, b in enumerate(cs):
                    if not full and (n + i + j) % 3 and not (a == "1" and b in ("1", "-1", "2")):
                        continue
                    want = lin([(a, fx), (b, fy)])
                    test(f"{term(a, x)} + {term(b, y)}", want, ("text",) if j else ("text", "LC", "expr"))
                    if b in ("1", "2", "-1", "q", "q1"):
                        for f in forms(a, x, b, y):
                            test(f, want)
            ctx.add(states=1)
            if ctx.full:
                return


def pairs_of(space, limit):
    L = alg.model(space).labels
    ps = [(x, y) for i, x in enumerate(L) for y in L[i + 1:]]
    if len(ps) > limit:
        ps = base.pick(ps, limit)
        ps[-1] = (L[1], L[-1])
    return ps


def main(tier):
    base.load()
    rep = base.Report("C20", tier)
    quick = tier == "quick"
    if quick:
        sp = [("Gr", 1, 3), ("Gr", 2, 4), ("IG", 1, 4), ("IG", 2, 4), ("IG", 2, 6), ("OG", 1, 5), ("OG", 2, 5), ("OG", 2, 7), ("OG", 3, 8), ("OG", 2, 8),
              ("OG", 4, 8)]
        lp, lo = 3, 2
    else:
        sp = alg.spaces(5, 6, 8) + [("Gr", 3, 6), ("OG", 4, 9), ("OG", 4, 10), ("OG", 3, 10), ("OG", 2, 9)]
        sp = [s for s in sp if len(alg.model(s).labels) > 1]
        lp, lo = 12, 4
    ts = []
    for s in dict.fromkeys(sp):
        cs = coefs(s)
        ps = pairs_of(s, lp)
        L = alg.model(s).labels
        oth = [S(x) for x in (base.pick(L[1:], lo))] + [f"{S(L[1])} + 2*{S(L[-1])}"]
        for t in unary(s):
            ts.append((s, t, None, ps, [None], cs, not quick))
        for t in binary(s):
            for pos in (0, 1):
                ps2, oth2 = ps, oth
                if t.startswith(("act", "qact")):
                    # the first argument is a polynomial in special classes
                    gens = [l for l, _ in alg.generators(s)]
                    if pos == 0:
                        ps2 = [(x, y) for i, x in enumerate(gens) for y in gens[i + 1:]][:lp]
                    else:
                        oth2 = [S(x) for x in gens[:lo]] + [f"{S(gens[0])}^2 - {S(gens[-1])}"]
                if ps2:
                    for o2 in oth2:
                        ts.append((s, t, pos, ps2, [o2], cs, not quick))
    for s in [("Gr", 2, 6), ("IG", 2, 6), ("OG", 2, 7), ("OG", 2, 8), ("OG", 3, 8)] + ([] if quick else [("Gr", 3, 6), ("IG", 3, 8), ("OG", 4, 10), ("OG", 5, 11)]):
        L, gens = alg.model(s).labels, [l for l, _ in alg.generators(s)]
        n = 14 if quick else 30
        for t in unary(s):
            ts.append((s, t, None, L, [None], n, "long"))
        for t in binary(s):
            for pos in (0, 1):
                act = t.startswith(("act", "qact"))
                ls = gens if act and pos == 0 else L
                if len(ls) > 2:
                    ts.append((s, t, pos, ls, [S(gens[0]) if act and pos else S(L[-2])], n, "long"))
    ts.sort(key=lambda t: (t[2] is None, -len(alg.model(t[0]).labels)))
    rep.explore(work, ts)
    rep.extra["spaces"] = len(sp)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = f"every operation, {lp} pairs of classes per space, all pairs from {len(coefs(('OG', 3, 8)))} coefficients at most, every argument position"
    rep.assumptions = ["values on single classes are the reference (checked by the other properties); results are compared after expansion"]
    return rep.finish()
