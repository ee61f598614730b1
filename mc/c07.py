"""C07: dualize against Poincare duality (w -> w0 w on the Weyl group), and the
duality pairing of the real product."""
from . import alg, base, poly
from .base import S, name, make


def dual(M):
    """label -> label of the Poincare dual class, from w0 acting on W^P."""
    out = {}
    L = M.L
    for w, l in zip(M.w, M.labels):
        if M.kind == "A":
            v = tuple(L + 1 - x for x in w)
        elif M.kind == "D" and L % 2:
            v = tuple(-x if abs(x) != 1 else x for x in w)
        else:
            v = tuple(-x for x in w)
        out[l] = M.labels[M.idx[M.minrep(v)]]
    return out


def work(task, ctx):
    what, space, chunk = task
    M = alg.model(space)
    g = make(space)
    D = dual(M)
    z = alg.zero_q(space)
    if what == "map":
        for l in chunk:
            key = f"{name(space)} dualize {S(l)}"
            want = {(D[l], z): 1}
            rp = alg.repro(space, f"g.dualize('{S(l)}')", alg.text(space, want))
            ok, r = ctx.call(key, g.dualize, S(l), repro=rp)
            if ok and alg.compare(ctx, space, key, r, want, rp):
                ok, r = ctx.call(key + " twice", g.dualize, r, repro=rp)
                if ok:
                    alg.compare(ctx, space, key + " twice", r, {(l, z): 1}, rp)
            ctx.add(traces_validated_against_impl=2, transitions=2)
            if ctx.full:
                return
        for x, y in zip(chunk, chunk[1:]):
            qs = alg.qv(space)[:1]
            t = f"2*{S(x)} - {S(y)}" + (f"*{qs[0]}" if qs else "")
            qd = (1,) + z[1:] if qs else z
            want = alg.add({(D[x], z): 2}, {(D[y], qd): -1})
            key = f"{name(space)} dualize {t}"
            rp = alg.repro(space, f"g.dualize({t!r})", alg.text(space, want))
            ok, r = ctx.call(key, g.dualize, t, repro=rp)
            if ok:
                alg.compare(ctx, space, key, r, want, rp)
            ctx.add(traces_validated_against_impl=1)
        if what == "map" and chunk[0] == M.labels[0]:
            for t in alg.long_sums(M.labels, 20, alg.qv(space)):
                x = alg.sum_text(t, alg.qv(space))
                want = alg.sum_image(t, D.get, z)
                key = f"{name(space)} dualize {x}"
                rp = alg.repro(space, f"g.dualize({x!r})", alg.text(space, want))
                ok, r = ctx.call(key, g.dualize, x, repro=rp)
                if ok:
                    alg.compare(ctx, space, key, r, want, rp)
                ctx.add(traces_validated_against_impl=1)
        ctx.add(states=len(chunk))
        return
    # the real pairing: lam . mu for all mu of complementary degree
    ok, pt = ctx.call(f"{name(space)} point_class", g.point_class)
    if not ok:
        return
    top = M.labels[-1]
    if str(pt) != S(top):
        ctx.bad(f"{name(space)} point_class", f"point_class is {pt}, the class of top degree is {S(top)}")
    for l in chunk:
        ok, d = ctx.call(f"{name(space)} dualize {S(l)}", g.dualize, S(l))
        if not ok:
            continue
        for m in M.labels:
            if sum(m) + sum(l) != M.dim:
                continue
            key = f"{name(space)} mult {S(l)} {S(m)}"
            want = {(top, z): 1} if str(d) == S(m) else {}
            rp = alg.repro(space, f"(g.mult('{S(l)}', '{S(m)}'), g.dualize('{S(l)}'))", "the point class exactly when the second factor is the dual")
            ok, r = ctx.call(key, g.mult, S(l), S(m), repro=rp)
            if ok:
                alg.compare(ctx, space, key, r, want, rp)
            ctx.add(traces_validated_against_impl=1, transitions=1)
            if ctx.full:
                return


def selfcheck(space):
    """The formula for the dual agrees with the pairing of the model."""
    M = alg.model(space)
    D = dual(M)
    op = alg.ops(space)
    top = M.labels[-1]
    for a in M.labels:
        for b in M.labels:
            if sum(a) + sum(b) == M.dim:
                assert alg.classical(op[a][b]) == ({(top, alg.zero_q(space)): 1} if D[a] == b else {}), (space, a, b)


def tasks(tier):
    quick = tier == "quick"
    out = []
    sp = alg.spaces(9, 10, 11) + [("Gr", 1, 13), ("IG", 6, 12), ("OG", 6, 12), ("OG", 6, 13), ("OG", 7, 14), ("OG", 8, 16), ("OG", 3, 12), ("OG", 4, 12), ("OG", 5, 12), ("OG", 1, 20), ("OG", 1, 22)]
    if not quick:
        sp += alg.spaces(11, 14, 16)
    for s in dict.fromkeys(sp):
        for c in alg.chunks(alg.model(s).labels, 60):
            out.append((len(c), ("map", s, c)))
    sp = alg.spaces(7, 8, 9) + [("OG", 5, 10), ("OG", 1, 12), ("OG", 4, 10), ("OG", 6, 12), ("OG", 1, 14)]
    if not quick:
        sp += alg.spaces(9, 10, 12)
    for s in dict.fromkeys(sp):
        labels = alg.model(s).labels
        if len(labels) > (60 if quick else 200):
            continue
        for c in alg.chunks(labels, 12):
            out.append((len(c) * 5, ("pair", s, c)))
    out.sort(key=lambda t: -t[0])
    return [t for _, t in out]


def main(tier):
    base.load()
    rep = base.Report("C07", tier)
    for s in alg.spaces(5, 6, 7) + [("OG", m, 8) for m in (1, 2, 3, 4)]:
        selfcheck(s)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[1] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all classes of the listed spaces; all complementary pairs of the smaller ones"
    rep.assumptions = ["Poincare duality is w -> w0 w on W^P; checked against the products of the model in small spaces"]
    return rep.finish()
