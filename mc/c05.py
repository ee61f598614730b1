"""C05: acting with polynomials in special classes, commutation diamonds and
associativity of the real operations."""
import itertools

from . import alg, base, poly
from .base import S, name, make


def addq(a, b):
    return tuple(x + y for x, y in zip(a, b))


def apply_graph(edges, i, vec):
    """Apply the real transition graph to a vector."""
    out = {}
    for (v, q), c in vec.items():
        for (w, d), e in edges[i, v].items():
            k = (w, addq(q, d))
            out[k] = out.get(k, 0) + c * e
    return {k: c for k, c in out.items() if c}


def diamonds(task, ctx):
    """Extract the transition graph of the real (q)pieri and check that all its
    diamonds close.  No reference needed, hence possible on large spaces."""
    _, space, quantum = task
    g = make(space)
    M = alg.model(space)
    gens = [i for _, i in alg.generators(space)]
    fn = "qpieri" if quantum else "pieri"
    f = getattr(g, fn)
    edges = {}
    for i in gens:
        for lam in M.labels:
            key = f"{name(space)} {fn} {i} {S(lam)}"
            rp = alg.repro(space, f"g.{fn}({i}, '{S(lam)}')", "a combination of classes")
            ok, r = ctx.call(key, f, i, S(lam), repro=rp)
            if not ok:
                return
            try:
                edges[i, lam] = alg.read(space, r)
            except poly.Malformed as e:
                ctx.bad(key, f"malformed: {e}", rp)
                return
            for (w, d) in edges[i, lam]:
                if w not in M.pos:
                    ctx.bad(key, f"{S(w)} in {r} is not a class of the space", rp)
                    return
    ctx.add(states=len(M.labels), transitions=len(edges))
    z = alg.zero_q(space)
    for i, j in itertools.combinations(gens, 2):
        for lam in M.labels:
            a = apply_graph(edges, i, edges[j, lam])
            b = apply_graph(edges, j, edges[i, lam])
            ctx.add(diamonds=1)
            if a != b:
                ctx.bad(f"{name(space)} {fn} {i},{j} on {S(lam)}",
                        f"{j} then {i}: {alg.text(space, a)}; {i} then {j}: {alg.text(space, b)}",
                        alg.repro(space, f"g.{fn}({i}, g.{fn}({j}, '{S(lam)}')) - g.{fn}({j}, g.{fn}({i}, '{S(lam)}'))", "0"))
                return


def polynomials(space, quantum, gens):
    """Bounded alphabet of polynomials: (text, {monomial of labels: {qdeg: c}})."""
    z = alg.zero_q(space)
    out = [("1", {(): {z: 1}}), ("0", {}), ("-3", {(): {z: -3}})]
    for a in gens:
        out.append((S(a), {(a,): {z: 1}}))
    for a, b in itertools.combinations_with_replacement(gens, 2):
        out.append((f"{S(a)}*{S(b)}" if a != b else f"{S(a)}^2", {(a, b): {z: 1}}))
    for a, b in itertools.permutations(dict.fromkeys(gens[:3] + gens[-1:]), 2):
        out.append((f"2*{S(a)} - {S(b)} + 5", {(a,): {z: 2}, (b,): {z: -1}, (): {z: 5}}))
        out.append((f"({S(a)} + {S(b)})*({S(a)} - 2*{S(b)})", {(a, a): {z: 1}, (a, b): {z: -1}, (b, b): {z: -2}}))
        out.append((f"{S(a)}*{S(b)}^2 - {S(a)}^3", {(a, b, b): {z: 1}, (a, a, a): {z: -1}}))
    # high powers, alone, mixed and in sums
    for a in dict.fromkeys(gens[:2] + gens[-1:]):
        for d in (3, 4, 5, 6, 7, 9):
            out.append((f"{S(a)}^{d}", {(a,) * d: {z: 1}}))
        b = gens[-1] if a != gens[-1] else gens[0]
        if a != b:
            out.append((f"{S(a)}^4*{S(b)}^2 - 3*{S(a)}^5", {(a,) * 4 + (b,) * 2: {z: 1}, (a,) * 5: {z: -3}}))
    if quantum:
        for n, v in enumerate(alg.qv(space)):
            e = tuple(1 if x == n else 0 for x in range(len(z)))
            e2 = tuple(2 * x for x in e)
            out.append((v, {(): {e: 1}}))
            for a in gens:
                out.append((f"{v}*{S(a)} - {v}^2 + {S(a)}^2", {(a,): {e: 1}, (): {e2: -1}, (a, a): {z: 1}}))
        if len(z) == 2:
            a = gens[0]
            out.append((f"q1*q2*{S(a)} + q2 - q1", {(a,): {(1, 1): 1}, (): {(0, 1): 1, (1, 0): -1}}))
    seen = {}
    for t, p in out:
        seen.setdefault(t, p)
    return list(seen.items())


def act(task, ctx):
    _, space, quantum, chunk = task
    g = make(space)
    M = alg.model(space)
    gens = [l for l, _ in alg.generators(space)]
    op = alg.ops(space, gens)
    z = alg.zero_q(space)
    fn = "qact" if quantum else "act"
    f = getattr(g, fn)
    for lam in chunk:
        memo = {(): {(lam, z): 1}}

        def mono(ls):
            ls = tuple(sorted(ls))
            if ls not in memo:
                memo[ls] = alg.times(op[ls[-1]], mono(ls[:-1]), quantum)
            return memo[ls]
        for t, p in polynomials(space, quantum, gens):
            want = {}
            for ls, cs in p.items():
                for qd, c in cs.items():
                    want = alg.add(want, alg.scale(mono(ls), c, qd))
            key = f"{name(space)} {fn} {t} on {S(lam)}"
            rp = alg.repro(space, f"g.{fn}({t!r}, '{S(lam)}')", alg.text(space, want))
            ok, r = ctx.call(key, f, t, S(lam), repro=rp)
            if ok:
                alg.compare(ctx, space, key, r, want, rp)
            ctx.add(traces_validated_against_impl=1)
            if ctx.full:
                return
    ctx.add(states=len(chunk))


def assoc(task, ctx):
    _, space, quantum, chunk = task
    g = make(space)
    fn = "qmult" if quantum else "mult"
    f = getattr(g, fn)
    for a, b, c in chunk:
        key = f"{name(space)} {fn} {S(a)},{S(b)},{S(c)}"
        rp = alg.repro(space, f"(g.{fn}(g.{fn}('{S(a)}', '{S(b)}'), '{S(c)}'), g.{fn}('{S(a)}', g.{fn}('{S(b)}', '{S(c)}')))", "two equal combinations")
        ok, r = ctx.call(key, lambda: (f(f(S(a), S(b)), S(c)), f(S(a), f(S(b), S(c)))), repro=rp)
        if ok:
            try:
                x, y = (alg.read(space, t) for t in r)
                if x != y:
                    ctx.bad(key, f"(ab)c = {r[0]} but a(bc) = {r[1]}", rp)
            except poly.Malformed as e:
                ctx.bad(key, str(e), rp)
        ctx.add(traces_validated_against_impl=1)
        if ctx.full:
            return


def work(task, ctx):
    {"diamonds": diamonds, "act": act, "assoc": assoc}[task[0]](task, ctx)


def tasks(tier):
    quick = tier == "quick"
    out = []
    sp = alg.spaces(8, 10, 11) + [("OG", 6, 12), ("OG", 5, 12), ("IG", 6, 12), ("OG", 2, 12), ("Gr", 2, 12), ("OG", 7, 14)]
    if not quick:
        sp = alg.spaces(10, 12, 13) + sp + [("OG", 7, 15), ("OG", 8, 16), ("Gr", 3, 12), ("OG", 2, 16), ("OG", 2, 17), ("IG", 2, 16), ("OG", 6, 14)]
    for s in dict.fromkeys(sp):
        n, m = len(alg.model(s).labels), len(alg.generators(s))
        if m < 2 or n > (130 if quick else 700):
            continue
        for quantum in (True, False):
            out.append((n * m, ("diamonds", s, quantum)))
    sp = alg.spaces(5, 6, 7) + [("OG", 2, 8), ("OG", 3, 8), ("OG", 4, 8), ("Gr", 2, 6), ("OG", 1, 8), ("IG", 1, 8), ("OG", 4, 10), ("IG", 4, 8), ("OG", 1, 10)]
    if not quick:
        sp = alg.spaces(7, 8, 9) + sp + [("OG", 5, 10), ("OG", 4, 10), ("IG", 1, 12), ("OG", 1, 12), ("OG", 1, 13)]
    for s in dict.fromkeys(sp):
        labels = alg.model(s).labels
        if not alg.generators(s) or len(labels) > (24 if quick else 48):
            continue
        for quantum in (True, False):
            for c in alg.chunks(labels, 4):
                out.append((len(c) * len(alg.generators(s)) ** 2 * 5, ("act", s, quantum, c)))
            if len(labels) <= (8 if quick else 20):
                for c in alg.chunks(itertools.product(labels, repeat=3), 100):
                    out.append((300, ("assoc", s, quantum, c)))
    out.sort(key=lambda t: -t[0])
    return [t for _, t in out]


def main(tier):
    base.load()
    rep = base.Report("C05", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all diamonds of the real Pieri graphs of the listed spaces; all listed polynomials on all classes; all triples of classes in the small spaces"
    rep.assumptions = ["the model: Fulton-Woodward quantum Chevalley graph on W^P; validated against Maple output by mc/selftest"]
    return rep.finish()
