"""C21: constructors, descriptions and clones."""
import re

from . import alg, base
from .base import S, name, make


def exists(fam, m, N):
    if m < 0 or N < 0:
        return False
    if fam == "Gr":
        return m <= N
    if fam == "IG":
        return N % 2 == 0 and m <= N // 2
    return m <= N // 2


def degree(space):
    M = alg.model(space)
    if M.npic:
        assert len(set(M.degq)) == 1
        return M.degq[0]
    return None


def describe(space, deg):
    fam, m, N = space
    kd = base.kind(space)
    k, n = base.kn(space)
    return [kd, k, n, fam, m, N, deg]


NOT_INT = [None, "3", 2.0, 2.5, [2], (2,), 3 + 0j, object]


def work(task, ctx):
    fam, top = task[0], task[1]
    lib = base.load()
    cls = getattr(lib, base.CLS[fam])
    if task[2] == "types":
        for a in NOT_INT:
            for b in NOT_INT + [0, 2, 6]:
                for m, N in ((a, b), (b, a)):
                    key = f"{fam}({m!r}, {N!r})"
                    rp = f"from schubertpy import *\n{base.CLS[fam]}({m!r}, {N!r})\n"
                    ok, r = base.quiet(cls, m, N)
                    ctx.add(traces_validated_against_impl=1)
                    if ok or not isinstance(r, TypeError):
                        ctx.bad(key, f"gives {r!r}, expected a TypeError", rp)
        for args in ((), (1,), (1, 2, 3)):
            ok, r = base.quiet(cls, *args)
            if ok or not isinstance(r, TypeError):
                ctx.bad(f"{fam}{args}", f"gives {r!r}, expected a TypeError")
        return
    m = task[2]
    for N in range(-3, top + 1):
        key = f"{fam}({m}, {N})"
        rp = f"from schubertpy import *\ng = {base.CLS[fam]}({m}, {N})\nprint(g, g.get_type_data(), g.degree_q(), g.clone())\n"
        ok, g = base.quiet(cls, m, N)
        ctx.add(traces_validated_against_impl=1, states=1)
        if not exists(fam, m, N):
            if ok or not isinstance(g, ValueError):
                ctx.bad(key, f"gives {g!r}, expected a ValueError", rp)
            continue
        if not ok:
            ctx.bad(key, f"raised {type(g).__name__}: {g}", rp)
            continue
        space = (fam, m, N)
        degenerate = fam == "OG" and N < 3 or N == 0
        deg = degree(space) if not degenerate else None
        ok, d = ctx.call(key + " description", lambda: (g.get_type_data(), g.degree_q(), str(g)), repro=rp)
        if not ok:
            continue
        data, dq, text = d
        if deg is None:
            deg = dq          # no divisor class, no q
        want = describe(space, deg)
        if dq != deg:
            ctx.bad(key + " degree_q", f"got {dq}, expected {deg}", rp)
        if list(data) != want:
            ctx.bad(key + " get_type_data", f"got {data}, expected {want}", rp)
        toks = re.findall(r"-?\d+|[A-Za-z]+", text)
        wt = ["Type", want[0], "k", "n", str(want[1]), str(want[2]), fam, str(m), str(N), "deg", "q", str(deg)]
        if toks != wt:
            ctx.bad(key + " str", f"got {text!r}, expected the data {want}", rp)
        ok, c = ctx.call(key + " clone", g.clone, repro=rp)
        if not ok:
            continue
        if c is g or type(c) is not type(g) or str(c) != text or list(c.get_type_data()) != want:
            ctx.bad(key + " clone", f"{c} ({type(c).__name__}) is not an independent copy of {g}", rp)
        ok, c2 = ctx.call(key + " clone of clone", c.clone, repro=rp)
        if ok and str(c2) != text:
            ctx.bad(key + " clone of clone", f"{c2}", rp)
        if degenerate:
            continue
        labels = alg.model(space).labels
        if len(labels) > 200:
            continue
        def answers(h):
            out = [[str(x) for x in h.schub_classes()], [str(x) for x in h.generators()], str(h.point_class())]
            for l in labels[:6] + labels[-3:]:
                out += [str(h.dualize(S(l))), str(h.part2index(S(l)))]
                for s, i in alg.generators(space)[:3]:
                    out += [str(h.pieri(i, S(l))), str(h.qpieri(i, S(l)))]
            if len(labels) <= 24 and labels:
                out += [str(h.qmult(S(labels[len(labels) // 2]), S(labels[-1])))]
            return out
        ok, r = ctx.call(key + " clone results", lambda: (answers(g), answers(c), answers(c2), answers(cls(m, N))), repro=rp)
        ctx.add(traces_validated_against_impl=4, transitions=4)
        if ok and not (r[0] == r[1] == r[2] == r[3]):
            bad = [x for x in zip(*r) if len(set(map(str, x))) > 1][:2]
            ctx.bad(key + " clone results", f"original and clone answer differently: {bad}", rp)
        # the original and its clone do not share state
        try:
            c2.note_of_the_clone = 1
            if hasattr(g, "note_of_the_clone") or hasattr(c, "note_of_the_clone"):
                ctx.bad(key + " clone", "what is set on the clone appears on the original", rp)
        except AttributeError:
            pass            # objects that take no attributes
        if fam == "Gr" and 0 < m < N and len(labels) <= 21:
            a, b = S(labels[-1]), S(labels[len(labels) // 2])
            for who, h in (("original", g), ("clone", c), ("clone of the clone", c2)):
                base.quiet(h.qmult_rh, a, b)
                for w2, h2 in (("original", g), ("clone", c), ("clone of the clone", c2)):
                    ctx.add(transitions=1)
                    if str(h2) != text or list(h2.get_type_data()) != want:
                        ctx.bad(key + f" qmult_rh on the {who}", f"leaves the {w2} as {h2}", rp)
        if str(g) != text or str(c) != text or str(c2) != text:
            ctx.bad(key + " description", "changes with use", rp)
        if ctx.full:
            return


def main(tier):
    base.load()
    rep = base.Report("C21", tier)
    top = {"Gr": 11, "IG": 12, "OG": 13} if tier == "quick" else {"Gr": 14, "IG": 16, "OG": 18}
    ts = [(f, top[f], m) for f in base.CLS for m in list(range(-3, top[f] + 2)) + ["types"]]
    rep.explore(work, ts)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = f"all integer pairs from -3 to {top}, all pairs with a non-integer from {len(NOT_INT)} kinds"
    rep.assumptions = ["anticanonical degree from the roots"]
    return rep.finish()
