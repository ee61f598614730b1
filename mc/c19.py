"""C19: multiplication tables."""
import contextlib
import io
import warnings

from . import alg, base, poly
from .base import S, name, make


def work(task, ctx):
    warnings.simplefilter("ignore")
    space, quantum = task
    lib = base.load()
    M = alg.model(space)
    op = alg.ops(space)
    cls = "QMultTable" if quantum else "MultTable"
    g = make(space)
    rp = f"from schubertpy import *\ng = {base.ctor(space)}\nt = {cls}(g)\nprint(t.df)\nprint(t.to_matrix())\n"
    key = f"{cls}({name(space)})"
    ok, t = ctx.call(key, getattr(lib, cls), g, repro=rp)
    if not ok:
        return
    labels = [tuple(s.p) for s in g.schub_classes()]
    rows, cols = [str(x) for x in t.df.index], [str(x) for x in t.df.columns]
    want = [S(l) for l in labels]
    if rows != want or cols != want:
        ctx.bad(key + " labels", f"rows {rows}, columns {cols}, classes {want}", rp)
        return
    ok, m = ctx.call(key + " to_matrix", t.to_matrix, repro=rp)
    if not ok:
        return
    n = len(labels)
    if len(m) != n or any(len(r) != n for r in m) or t.df.shape != (n, n):
        ctx.bad(key + " shape", f"{t.df.shape} for {n} classes", rp)
        return
    for i, a in enumerate(labels):
        for j, b in enumerate(labels):
            w = op[a][b]
            if not quantum:
                w = alg.classical(w)
            k = f"{key} [{S(a)},{S(b)}]"
            alg.compare(ctx, space, k, t.df.iloc[i, j], w, rp)
            alg.compare(ctx, space, k + " matrix", m[i][j], w, rp)
            x = t.df.loc[lib.Schur(list(a)), lib.Schur(list(b))]
            if str(x) != str(m[i][j]):
                ctx.bad(k, f"looked up by label: {x}, at its position: {m[i][j]}", rp)
            ctx.add(traces_validated_against_impl=3, transitions=len(w))
            if ctx.full:
                return
    if t.gr is not g:
        ctx.bad(key, "does not refer to its Grassmannian", rp)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ctx.call(key + " print", t.print, repro=rp)
        ctx.call(key + " str", lambda: (str(t), repr(t)), repro=rp)
    # what is printed, wherever pandas shows the table in full
    with contextlib.redirect_stdout(io.StringIO()) as one:
        base.quiet(t.print)
    for nm, text in (("print()", one.getvalue()), ("str()", str(t)), ("repr()", repr(t))):
        lines = text.rstrip("\n").split("\n")
        if len(lines) != n + 1 or "..." in text or "\\" in text:
            continue
        got = [" ".join(l.split()) for l in lines]
        exp = [" ".join(want)] + [" ".join([want[i]] + [" ".join(str(e).split()) for e in m[i]]) for i in range(n)]
        ctx.add(traces_validated_against_impl=n + 1)
        if got != exp:
            i = [x == y for x, y in zip(got, exp)].index(False)
            ctx.bad(f"{key} {nm}", f"shows {got[i]!r} for {exp[i]!r}", rp + f"t.print()\n")
    if n <= 4:
        # small enough not to be abbreviated by pandas
        for l in want:
            if l not in buf.getvalue():
                ctx.bad(key + " print", f"{l} is missing in {buf.getvalue()!r}", rp)
    ctx.add(states=1)


def main(tier):
    base.load()
    rep = base.Report("C19", tier)
    quick = tier == "quick"
    sp = alg.spaces(6, 8, 8) + [("OG", 4, 8), ("OG", 1, 10), ("OG", 5, 10), ("OG", 4, 9), ("OG", 1, 9), ("IG", 1, 10), ("Gr", 1, 8)]
    if not quick:
        sp = alg.spaces(8, 10, 11) + sp
    ts = [(s, q) for s in dict.fromkeys(sp) if len(alg.model(s).labels) <= (24 if quick else 84) for q in (False, True)]
    # tables with many classes
    ts += [(s, q) for s in [("Gr", 1, 45), ("OG", 1, 44), ("IG", 1, 46), ("Gr", 3, 7), ("IG", 3, 8), ("OG", 2, 10)] + ([] if quick else [("Gr", 3, 9), ("Gr", 1, 110)]) for q in (False, True)]
    ts.sort(key=lambda t: -len(alg.model(t[0]).labels))
    rep.explore(work, ts)
    rep.extra["spaces"] = len({t[0] for t in ts})
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "every entry of both tables of every listed space"
    rep.assumptions = ["the model: Fulton-Woodward quantum Chevalley graph on W^P; validated against Maple output by mc/selftest"]
    return rep.finish()
