"""C11: the involutions of type D."""
from . import alg, base, poly
from .base import S, name, make


def swap(l, k, kd):
    if kd != "D" or not k or k not in l:
        return l
    return l[:-1] if l[-1] == 0 else l + (0,)


def miami(l, k, kd):
    if kd == "D" and sum(1 for x in l if x > k) % 2:
        return swap(l, k, kd)
    return l


def work(task, ctx):
    what, space, chunk = task
    M = alg.model(space)
    g = make(space)
    Schur = base.load().Schur
    k = base.kn(space)[0]
    kd = base.kind(space)
    z = alg.zero_q(space)

    def expect(fn, call, argtext, want):
        key = f"{name(space)} {fn} {argtext}"
        rp = alg.repro(space, f"g.{fn}({argtext}" + (f", {k})" if fn == "type_swap" else ")"), alg.text(space, want))
        ok, r = ctx.call(key, call, repro=rp)
        if ok:
            alg.compare(ctx, space, key, r, want, rp)
        ctx.add(traces_validated_against_impl=1)

    if what == "one":
        ctx.add(states=len(chunk), transitions=2 * len(chunk))
        if chunk[0] == M.labels[0]:
            qs = alg.qv(space)
            for t in alg.long_sums(M.labels, 20, qs):
                x = alg.sum_text(t, qs)
                expect("type_swap", lambda: g.type_swap(x, k), repr(x), alg.sum_image(t, lambda l: swap(l, k, kd), z))
                expect("miami_swap", lambda: g.miami_swap(x), repr(x), alg.sum_image(t, lambda l: miami(l, k, kd), z))
                if ctx.full:
                    return
        for l in chunk:
            for fn, m in (("type_swap", swap), ("miami_swap", miami)):
                def f(x, fn=fn):
                    return g.type_swap(x, k) if fn == "type_swap" else g.miami_swap(x)
                want = {(m(l, k, kd), z): 1}
                expect(fn, lambda: f(S(l)), repr(S(l)), want)
                expect(fn, lambda: f(list(l)), repr(list(l)), want)
                key = f"{name(space)} {fn} twice {S(l)}"
                ok, r = ctx.call(key, lambda: f(f(S(l))))
                if ok:
                    alg.compare(ctx, space, key, r, {(l, z): 1}, alg.repro(space, f"[g.{fn}('{S(l)}'), 'apply twice']", S(l)))
                qs = alg.qv(space)
                if qs and len(chunk) > 1:
                    o = chunk[(chunk.index(l) + 1) % len(chunk)]
                    t = f"2*{qs[0]}*{S(l)} - {S(o)}"
                    expect(fn, lambda: f(t), repr(t), alg.add({(m(l, k, kd), (1,) + z[1:]): 2}, {(m(o, k, kd), z): -1}))
            key = f"{name(space)} schub_type {S(l)}"
            rp = alg.repro(space, f"g.schub_type({list(l)})", "the type")
            for arg in (list(l), Schur(list(l))):
                ok, r = base.quiet(g.schub_type, arg)
                ctx.add(traces_validated_against_impl=1)
                if kd != "D":
                    if ok:
                        ctx.bad(key, f"type {r} returned although {name(space)} has no types", rp)
                elif k:
                    want = 0 if k not in l else 2 if l[-1] == 0 else 1
                    if not ok or r != want or isinstance(r, bool):
                        ctx.bad(key, f"got {r!r}, expected {want}", rp)
            if ctx.full:
                return
        return
    # automorphism: swap(a*b) = swap(a)*swap(b), q1 <-> q2
    for a in chunk:
        for b in M.labels:
            for fn in ("mult", "qmult"):
                f = getattr(g, fn)
                sa, sb = S(swap(a, k, kd)), S(swap(b, k, kd))
                key = f"{name(space)} {fn} {S(a)} {S(b)} swapped"
                rp = alg.repro(space, f"(g.{fn}('{S(a)}', '{S(b)}'), g.{fn}('{sa}', '{sb}'))", "exchanged by type_swap")
                ok, r = ctx.call(key, lambda: (f(S(a), S(b)), g.type_swap(f(S(a), S(b)), k), f(sa, sb)), repro=rp)
                ctx.add(traces_validated_against_impl=1)
                if not ok:
                    continue
                try:
                    x, y, w = (alg.read(space, t) for t in r)
                except poly.Malformed as e:
                    ctx.bad(key, str(e), rp)
                    continue
                sw = {(swap(l, k, kd), q): c for (l, q), c in x.items()}
                if sw != y:
                    ctx.bad(key, f"type_swap({r[0]}) = {r[1]}", rp)
                rev = {(l, q[::-1]): c for (l, q), c in sw.items()}
                if rev != w:
                    ctx.bad(key, f"product is {r[0]}, but the product of the swapped classes is {r[2]}", rp)
                if ctx.full:
                    return


def tasks(tier):
    quick = tier == "quick"
    out = []
    sp = alg.spaces(6, 8, 11) + [("OG", m, 12) for m in range(1, 7)] + [("OG", 1, 22), ("OG", 1, 24), ("OG", 2, 14), ("OG", 7, 14), ("OG", 6, 14), ("OG", 2, 20)]
    if not quick:
        sp += alg.spaces(8, 12, 16)
    for s in dict.fromkeys(sp):
        if len(alg.model(s).labels) > (500 if quick else 5000):
            continue
        for c in alg.chunks(alg.model(s).labels, 60):
            out.append((len(c), ("one", s, c)))
    sp = [("OG", m, N) for N in (4, 6, 8) for m in range(1, N // 2 + 1)] + [("OG", 1, 10), ("OG", 5, 10), ("OG", 1, 12), ("OG", 2, 10)]
    if not quick:
        sp += [("OG", m, 10) for m in range(1, 6)] + [("OG", 2, 12), ("OG", 6, 12), ("OG", 1, 14), ("OG", 1, 16), ("OG", 5, 12)]
    for s in dict.fromkeys(sp):
        labels = alg.model(s).labels
        if len(labels) > (64 if quick else 200):
            continue
        for c in alg.chunks(labels, max(1, 100 // len(labels))):
            out.append((5 * len(c) * len(labels), ("aut", s, c)))
    out.sort(key=lambda t: -t[0])
    return [t for _, t in out]


def main(tier):
    base.load()
    rep = base.Report("C11", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all classes of the listed spaces; all pairs of classes in the smaller ones for the automorphism"
    rep.assumptions = []
    return rep.finish()
