"""C24: conversion to and from SageMath, for every small partition and combination.
Runs under the SageMath interpreter (see ./check)."""
from . import base

QUICK = dict(size=20, left=5, other=6)
THOROUGH = dict(size=32, left=7, other=9)


def partitions(n, top=None):
    if n == 0:
        yield []
        return
    for a in range(min(n, n if top is None else top), 0, -1):
        for rest in partitions(n - a, a):
            yield [a] + rest


def upto(n):
    return [p for s in range(n + 1) for p in partitions(s)]


HEAD = "from schubertsage.conversion import S, sym, sage_schur_to_schur, schur_to_sage_schur\nfrom schubertpy.schur import Schur\n"


def work(task, ctx):
    base.load()
    from schubertsage.conversion import S, sym, sage_schur_to_schur, schur_to_sage_schur
    from schubertpy.schur import Schur
    what, arg = task
    if what == "trip":
        for p in partitions(arg):
            ctx.add(states=1)
            ctx.sample(f"S{p} -> sage -> {p}", 1)
            # library -> sage -> library, from every way of writing the object
            for spelling in (p, "S" + str(p).replace(" ", ""), Schur(list(p))):
                src = repr(spelling) if not isinstance(spelling, Schur) else f"Schur({p})"
                rp = HEAD + f"x = Schur({src})\ny = schur_to_sage_schur(x)\nprint(y, sage_schur_to_schur(y), 'expected', {p})\n"
                x = Schur(list(spelling) if isinstance(spelling, list) else spelling)
                ok, y = ctx.call(f"Schur({src})", schur_to_sage_schur, x, repro=rp)
                if not ok:
                    continue
                ctx.add(transitions=2)
                if y != S(p) or y.parent() is not S or dict(y.monomial_coefficients()) != {S(p).leading_support(): 1}:
                    ctx.bad(f"Schur({src})", f"converted to {y}", rp)
                ok, z = ctx.call(f"Schur({src})", sage_schur_to_schur, y, repro=rp)
                ctx.add(traces_validated_against_impl=1)
                if ok and not (isinstance(z, Schur) and z == x and list(z.p) == p and hash(z) == hash(x) and str(z) == str(x)):
                    ctx.bad(f"Schur({src})", f"came back as {z!r} ({type(z.p).__name__})", rp)
            if x.p != p:
                ctx.bad(f"Schur({p})", f"conversion changed its argument to {x.p}", rp)
            # sage -> library -> sage; the element made in different ways
            for text in (f"S({p})", f"S({p})*1", f"S({p}) + S([7, 7]) - S([7, 7])", f"S.monomial(S._indices({p}))"):
                e = eval(text, {"S": S})
                rp = HEAD + f"e = {text}\nx = sage_schur_to_schur(e)\nprint(e, x, schur_to_sage_schur(x))\n"
                ok, x = ctx.call(text, sage_schur_to_schur, e, repro=rp)
                if not ok:
                    continue
                ok, e2 = ctx.call(text, schur_to_sage_schur, x, repro=rp)
                ctx.add(traces_validated_against_impl=1, transitions=2)
                if ok and (e2 != e or list(x.p) != p):
                    ctx.bad(text, f"converted to {x!r} and back to {e2}", rp)
                if ctx.full:
                    return
    if what == "combination":
        n, a = arg
        x = S.base_ring()("x")
        ps = upto(n)
        pa = ps[a]
        for pb in ps:
            for ca in (0, 1, -1, 2, S.base_ring()(1) / 2, x):
                for cb in (0, 1, -1, x, 1 - x):
                    e = ca * S(pa) + cb * S(pb)
                    coeffs = {}
                    for p, c in ((tuple(pa), ca), (tuple(pb), cb)):
                        coeffs[p] = coeffs.get(p, 0) + c
                    coeffs = {p: c for p, c in coeffs.items() if not bool(c == 0)}
                    single = list(coeffs) if len(coeffs) == 1 and bool(list(coeffs.values())[0] == 1) else None
                    refused(ctx, sage_schur_to_schur, e, f"({ca})*S({pa}) + ({cb})*S({pb})", single and list(single[0]))
                    if ctx.full:
                        return
        ctx.add(states=1)
    if what == "basis":
        for bname in ("e", "h", "m", "p", "f"):
            basis = getattr(sym, {"e": "elementary", "h": "homogeneous", "m": "monomial", "p": "powersum", "f": "forgotten"}[bname])()
            for p in partitions(arg):
                ctx.add(states=1)
                refused(ctx, sage_schur_to_schur, basis.monomial(basis._indices(p)), f"{bname}({p})", None)
            refused(ctx, sage_schur_to_schur, basis.zero(), f"{bname}.zero()", None)
        if arg == 0:
            refused(ctx, sage_schur_to_schur, S.zero(), "S.zero()", None)


def refused(ctx, convert, e, key, want):
    rp = HEAD + f"# {key}: expected {'Schur(%s)' % want if want is not None else 'ValueError'}\n"
    ctx.add(transitions=1, traces_validated_against_impl=1)
    ctx.sample(f"{key} -> {want if want is not None else 'refused'}", 1)
    try:
        r = convert(e)
    except ValueError:
        if want is not None:
            ctx.bad(key, f"refused a single Schur function {e}", rp)
        return
    except Exception as x:
        ctx.bad(key, f"raised {type(x).__name__} for {e}", rp)
        return
    if want is None:
        ctx.bad(key, f"accepted {e} as {r!r}", rp)
    elif list(r.p) != want:
        ctx.bad(key, f"{e} became {r!r}", rp)


def main(tier):
    P = THOROUGH if tier == "thorough" else QUICK
    rep = base.Report("C24", tier)
    base.load()
    import schubertsage.conversion  # once, before forking
    tasks = [("trip", n) for n in range(P["size"], -1, -1)]
    tasks += [("combination", (P["left"], a)) for a in range(len(upto(P["left"])))]
    tasks += [("basis", n) for n in range(P["other"] + 1)]
    rep.explore(work, tasks)
    rep.extra.update(exhaustive=True, bound=f"all partitions of size up to {P['size']}; all two-term combinations over 6x5 coefficients of partitions of size up to {P['left']}; 5 other bases up to size {P['other']}")
    rep.assumptions.append("SageMath's own Schur basis")
    return rep.finish()
