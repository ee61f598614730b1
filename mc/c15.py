"""C15: every accepted form of an argument, for every operation."""
import itertools

from . import alg, base, poly
from .base import S, name, make


def forms(L, Schur, sp, terms):
    """All accepted forms of the combination sum of c*v^e*S[l]; terms are
    (coefficient, q text, q power, label)."""
    def txt(power, sep, plus, order):
        out = []
        for c, v, e, l in order:
            fs = [str(c)] if c != 1 else []
            if e:
                fs.append(v if e == 1 else f"{v}{power if isinstance(power, str) else power[len(out) % 2]}{e}")
            fs.append("S[" + sep.join(map(str, l)) + "]")
            out.append("*".join(fs))
        return plus.join(out)
    canon = txt("^", ",", "+", terms)
    yield "text", canon
    yield "text with **", txt("**", ",", "+", terms)
    yield "text with ^ and **", txt(("^", "**"), ",", "+", terms)
    yield "text with ** and ^", txt(("**", "^"), ",", "+", terms)
    yield "text with spaces", txt("^", ", ", " + ", terms)
    yield "text with more spaces", " " + txt("^", " , ", "  +  ", terms).replace("[", "[ ").replace("]", " ]").replace("[  ]", "[ ]") + " "
    if len(terms) > 1:
        yield "text reordered", txt("^", ",", " + ", terms[::-1])
    yield "LinearCombination", L(canon)
    yield "LinearCombination of LinearCombination", L(L(canon))
    yield "sympy expression", L(canon).expr
    e = 0
    for c, v, p, l in terms:
        e = e + c * sp.Symbol(v or "q") ** p * Schur(list(l)).symbol()
    yield "sympy built by hand", e
    x = L(0)
    for c, v, p, l in terms:
        x = x + L(Schur(list(l))) * c * sp.Symbol(v or "q") ** p
    yield "LinearCombination built by hand", x
    if len(terms) == 1 and terms[0][0] == 1 and not terms[0][2]:
        l = terms[0][3]
        yield "Schur", Schur(list(l))
        yield "Schur of Schur", Schur(Schur(list(l)))
        yield "Schur from text", Schur(canon)
        yield "Schur from symbol", Schur(Schur(list(l)).symbol())
        yield "Schur symbol", Schur(list(l)).symbol()
        yield "list", list(l)


def operations(space, g, small):
    """(name, call on one combination, must return LinearCombination)."""
    k = base.kn(space)[0]
    gens = alg.generators(space)
    out = []
    for l, i in gens[:2] + gens[-1:]:
        out.append((f"pieri({i}, .)", lambda x, i=i: g.pieri(i, x)))
        out.append((f"qpieri({i}, .)", lambda x, i=i: g.qpieri(i, x)))
    if gens:
        t = "+".join(S(l) for l, _ in gens[:2])
        out.append((f"act({t}, .)", lambda x: g.act(t, x)))
        out.append((f"qact({t}, .)", lambda x: g.qact(t, x)))
    other = alg.model(space).labels[len(alg.model(space).labels) // 2]
    for fn in ("mult", "qmult"):
        f = getattr(g, fn)
        out.append((f"{fn}(., {S(other)})", lambda x, f=f: f(x, S(other))))
        out.append((f"{fn}({S(other)}, .)", lambda x, f=f: f(S(other), x)))
    if space[0] == "Gr" and space[1] <= 2 and small:
        out.append((f"qmult_rh(., {S(other)})", lambda x: g.qmult_rh(x, S(other))))
        out.append((f"qmult_rh({S(other)}, .)", lambda x: g.qmult_rh(S(other), x)))
    for fn in ("giambelli", "qgiambelli", "toS", "qtoS", "dualize", "miami_swap", "part2index"):
        out.append((fn, getattr(g, fn)))
    if base.kind(space) != "A":
        out.append(("part2pair", g.part2pair))
    out.append(("type_swap", lambda x: g.type_swap(x, k)))
    return out


def agree(ctx, space, op, f, fs, islist_schur=()):
    ref = None
    ctx.add(transitions=1)
    for how, x in fs:
        key = f"{name(space)} {op} {how} {x}"
        rp = f"# {op} applied to {x!r} given as {how}\nfrom schubertpy import *\ng = {base.ctor(space)}\n"
        ok, r = ctx.call(key, f, x, repro=rp)
        ctx.add(traces_validated_against_impl=1)
        if not ok:
            continue
        t = type(r).__name__
        if t != "LinearCombination" and not (how == "list" and t == "Schur" and op in islist_schur):
            ctx.bad(key, f"result is a {t}", rp)
            continue
        try:
            p = poly.parse(str(r))
            again = poly.parse(str(base.load().LinearCombination(str(r))))
        except Exception as e:
            ctx.bad(key, f"result {r} cannot be read back: {type(e).__name__} {e}", rp)
            continue
        if again != p:
            ctx.bad(key, f"{r} reads back as {base.load().LinearCombination(str(r))}", rp)
        if ref is None:
            ref = (p, how, x, r)
        elif p != ref[0]:
            ctx.bad(key, f"got {r}, but {ref[3]} for the {ref[1]} {ref[2]}", rp)
        if ctx.full:
            return


def monomials(L, Schur, sp, terms):
    """All accepted forms of a combination of products of special classes;
    terms are (coefficient, [(label, power)])."""
    for how, pw in (("^", ("^", "^")), ("**", ("**", "**")), ("^ and **", ("^", "**")), ("** and ^", ("**", "^"))):
        for sep in ("*", " * "):
            out, i = [], 0
            for c, fs in terms:
                fac = [str(c)] if c != 1 else []
                for l, e in fs:
                    fac.append(S(l) + (f"{pw[i % 2]}{e}" if e > 1 else ""))
                    i += e > 1
                out.append(sep.join(fac))
            yield f"text with {how}, products as {sep!r}", " + ".join(out)
    yield "text written out", "+".join("*".join(([str(c)] if c != 1 else []) + [S(l) for l, e in fs for _ in range(e)]) for c, fs in terms)
    e = 0
    for c, fs in terms:
        t = sp.Integer(c)
        for l, p in fs:
            t = t * Schur(list(l)).symbol() ** p
        e = e + t
    yield "sympy built by hand", e
    yield "LinearCombination of sympy", L(e)
    x = L(0)
    for c, fs in terms:
        t = L(c)
        for l, p in fs:
            t = t * L(Schur(list(l))) ** p
        x = x + t
    yield "LinearCombination built by hand", x


def work(task, ctx):
    space, chunk = task
    import sympy as sp
    lib = base.load()
    L, Schur = lib.LinearCombination, lib.Schur
    g = make(space)
    M = alg.model(space)
    k = base.kn(space)[0]
    kd = base.kind(space)
    opsl = operations(space, g, len(M.labels) <= 10)
    z = alg.zero_q(space)
    if chunk[0] == "acting":
        args = [S(M.labels[-2] if len(M.labels) > 1 else ()), S(M.labels[0])]
        for a, b in [chunk[1:]]:
            for i, j in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
                for terms in ([(1, [(a, i)]), (2, [(b, j)])], [(3, [(a, i), (b, j)])], [(1, [(a, i), (b, j)]), (1, [(b, i)])]):
                    for o in args:
                        for fn in ("act", "qact"):
                            agree(ctx, space, f"{fn}(., {o})", lambda x, fn=fn: getattr(g, fn)(x, o), monomials(L, Schur, sp, terms))
                            if ctx.full:
                                return
            ctx.add(states=15)
        return
    for terms in chunk:
        for op, f in opsl:
            agree(ctx, space, op, f, forms(L, Schur, sp, terms), ("part2pair",))
            if ctx.full:
                return
        # acting with it, when it consists of special classes
        special = [l for l, _ in alg.generators(space)]
        if all(t[3] in special for t in terms):
            o = M.labels[-2] if len(M.labels) > 1 else ()
            for fn in ("act", "qact"):
                agree(ctx, space, f"{fn}(., {S(o)})", lambda x, fn=fn: getattr(g, fn)(x, S(o)), forms(L, Schur, sp, terms))
        # index sets and pairs as arguments
        from .c08 import index
        from .c09 import pair
        ix = {l: index(M, w) for l, w in zip(M.labels, M.w)}
        it = [(c, v, e, ix[l]) for c, v, e, l in terms]
        agree(ctx, space, "index2part", g.index2part, forms(L, Schur, sp, it))
        if kd != "A":
            pt = [(c, v, e, tuple(list(x) for x in pair(l, k, kd))) for c, v, e, l in terms]
            agree(ctx, space, "pair2part", g.pair2part, forms(L, Schur, sp, pt), ("pair2part",))
        if kd == "D" and len(terms) == 1 and terms[0][0] == 1 and not terms[0][2] and k:
            l = terms[0][3]
            ok, r = ctx.call(f"{name(space)} schub_type {S(l)}", lambda: {g.schub_type(list(l)), g.schub_type(Schur(list(l))), g.schub_type(Schur(S(l)))})
            if ok and len(r) != 1:
                ctx.bad(f"{name(space)} schub_type {S(l)}", f"depends on the form: {r}")
        ctx.add(states=1)
        if ctx.full:
            return


def objects(task, ctx):
    """Round trips of the objects themselves."""
    lib = base.load()
    L, Schur = lib.LinearCombination, lib.Schur
    for l in task[2]:
        s = Schur(list(l))
        rp = f"from schubertpy import *\ns = Schur({list(l)})\nprint(s, Schur(str(s)), Schur(s.symbol()), LinearCombination(s))\n"
        key = f"round trip of Schur({list(l)})"
        ok, r = ctx.call(key, lambda: (str(s), Schur(str(s)).p, Schur(s.symbol()).p, Schur(s).p, str(L(s)), Schur(str(L(s))).p,
                                       Schur(L(str(s)).expr).p, s == Schur(str(s)), hash(s) == hash(Schur(str(s))), str(L(list(l))) if all(isinstance(x, int) for x in l) and list(l) == sorted(l, reverse=True) else S(l), s.partition()), repro=rp)
        want = (S(l), list(l), list(l), list(l), S(l), list(l), list(l), True, True, S(l), list(l))
        ctx.add(traces_validated_against_impl=1, states=1)
        if ok and r != want:
            ctx.bad(key, f"got {r}, expected {want}", rp)
        if ctx.full:
            return
    if (12,) in task[2]:
        # long texts
        for n in (60, 250, 700):
            terms = [(i % 7 - 3 or 5, i % 3, (n - i // 3, i % 5) if i % 5 else (n - i,)) for i in range(n)]
            terms = list({l: (c, e, l) for c, e, l in terms}.values())
            text = alg.sum_text(terms, ("q",))
            want = {}
            for c, e, l in terms:
                want[l] = (c, e)
            for sep in ("^", "**"):
                ok, r = ctx.call(f"reading a sum of {len(terms)} terms", lambda: L(text.replace("^", sep)))
                ctx.add(traces_validated_against_impl=1)
                if ok:
                    got = {l: (c, e) for (l, (e,)), c in poly.classes(str(r), ("q",)).items()}
                    if got != want:
                        ctx.bad(f"reading a sum of {len(terms)} terms", f"{len(got)} terms; different: {[l for l in want if got.get(l) != want[l]][:5]}", f"from schubertpy import *\nx = LinearCombination({text!r})\nprint(x)\n")
                    if str(L(str(r))) != str(r):
                        ctx.bad(f"reading a sum of {len(terms)} terms", "does not read back", f"from schubertpy import *\nx = LinearCombination({text!r})\nprint(str(x) == str(LinearCombination(str(x))))\n")
    flat = [p for p in task[2] if all(isinstance(x, int) for x in p)]
    for a, b in itertools.product(flat, repeat=2):
        ok, r = ctx.call(f"compare {S(a)} {S(b)}", lambda: (Schur(list(a)) == Schur(list(b)), Schur(list(a)) != Schur(list(b)), (Schur(list(a)) < Schur(list(b))) if a and b else None))
        if ok and (r[0] != (a == b) or r[1] != (a != b) or (r[2] is not None and r[2] != (list(a) < list(b)))):
            ctx.bad(f"compare {S(a)} {S(b)}", f"==, !=, < give {r}")
        ctx.add(traces_validated_against_impl=1)


def dispatch(task, ctx):
    (objects if task[0] == "objects" else work)(*((task, ctx) if task[0] == "objects" else (task[1:], ctx)))


def tasks(tier):
    quick = tier == "quick"
    sp = [("Gr", 2, 4), ("Gr", 2, 5), ("Gr", 3, 5), ("Gr", 1, 12), ("IG", 2, 6), ("IG", 2, 4), ("IG", 3, 6), ("IG", 1, 6), ("OG", 2, 7), ("OG", 3, 7), ("OG", 1, 7),
          ("OG", 2, 6), ("OG", 3, 6), ("OG", 2, 8), ("OG", 3, 8), ("OG", 1, 6), ("OG", 4, 8), ("OG", 1, 12), ("OG", 1, 13)]
    if not quick:
        sp = alg.spaces(6, 8, 9) + [("OG", 1, 12), ("OG", 1, 13), ("OG", 4, 10), ("OG", 3, 10), ("OG", 2, 10)]
    out = []
    for s in dict.fromkeys(sp):
        M = alg.model(s)
        if len(M.labels) > 90:
            continue
        v = alg.qv(s)
        ts = [[(1, "", 0, l)] for l in M.labels]
        for a, b in itertools.combinations(M.labels[:: max(1, len(M.labels) // (5 if quick else 12))], 2):
            ts.append([(1, "", 0, a), (2, "", 0, b)])
            if v:
                ts.append([(3, v[0], 1, a), (1, v[-1], 2, b)])
                ts.append([(1, v[0], 3, a), (2, v[-1], 2, b)])
        # a combination of many terms
        ls = M.labels[:: max(1, len(M.labels) // 9)]
        if len(ls) > 4:
            ts.append([((2, -1, 1, -13, 1)[i % 5], v[i % len(v)] if v else "", (0, 1, 0, 2)[i % 4] if v else 0, l) for i, l in enumerate(ls)])
            ts.append([(1, "", 0, l) for l in ls[::-1]])
        for c in alg.chunks(ts, 6 if len(M.labels) < 25 else 3):
            out.append(("work", s, c))
        if alg.generators(s) and len(M.labels) < 30:
            gens = [l for l, _ in alg.generators(s)]
            out += [("work", s, ("acting", a, b)) for a, b in dict.fromkeys(itertools.product(gens[:3] + gens[-1:], repeat=2))]
    from .c12 import parts
    ps = list(parts(4, 4)) + [p + (0,) for p in parts(3, 3)] + [(12,), (12, 11, 10), (100,), (1,) * 40, tuple(range(60, 0, -1)), (1000, 999, 1), (123456,), (3, 4, 5), (1, 2)] + \
        [([a, b], [c]) for a in (2, 1) for b in (1, 0) for c in (3, 1)] + [([], []), ([1], [])]
    for c in alg.chunks(ps, 40):
        out.append(("objects", None, c))
    return out


def main(tier):
    base.load()
    rep = base.Report("C15", tier)
    ts = tasks(tier)
    rep.explore(dispatch, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "every form x every operation x every class (and pairs from a sub-alphabet) of the listed spaces"
    rep.assumptions = ["the meaning of one form is pinned by C01-C12; here all forms are compared with one another"]
    return rep.finish()
