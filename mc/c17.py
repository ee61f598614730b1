"""C17: expansions and ASCII drawings of all small combinations."""
import contextlib
import io
import itertools
from fractions import Fraction

from . import base, poly

PARTS = [(), (1,), (2,), (1, 1), (2, 1), (3, 1, 1), (12, 2)]
COEF = ["1", "-1", "2", "q", "3*q^2", "1/2", "q1*q2", "-4*q"]


def coef_poly(t):
    return poly.parse(t)


def expected_drawing(terms):
    """terms: [(coefficient text, partition)] in order."""
    rows = max([1] + [len(p) for _, p in terms])
    lines = []
    for r in range(rows):
        out = ""
        for i, (c, p) in enumerate(terms):
            pre = (" + " if i else "") + (f"{c}*" if c != "1" else "")
            out += pre if r == 0 else " " * len(pre)
            out += ("[]" * (p[r] if r < len(p) else 0)).ljust(2 * max(p, default=0))
        lines.append(out.rstrip())
    return lines


def check(ctx, terms):
    L = base.load().LinearCombination
    text = " + ".join(f"({c})*S{list(p)}".replace(" ", "") for c, p in terms)
    x = L(text)
    # combine equal monomials
    want = {}
    for c, p in terms:
        for m, v in coef_poly(c).items():
            k = (p, m)
            want[k] = want.get(k, 0) + v
    want = {k: v for k, v in want.items() if v}
    for inc in (True, False):
        w = {k: v for k, v in want.items() if inc or not k[1]}
        key = f"schur_expansion({inc}) of {text}"
        rp = f"from schubertpy import *\nx = LinearCombination({text!r})\nprint(x.schur_expansion(include_q={inc}))\nx.draw_ascii_partition(include_q={inc})\n"
        ok, r = ctx.call(key, x.schur_expansion, include_q=inc, repro=rp)
        ctx.add(traces_validated_against_impl=2)
        if not ok:
            continue
        rows = [r] if isinstance(r, tuple) else r
        if not want:
            continue
        try:
            got = {}
            order = []
            for c, p in rows:
                order.append(list(p))
                for m, v in poly.parse(str(c)).items():
                    k = (tuple(p), m)
                    if k in got:
                        raise poly.Malformed(f"{k} twice")
                    got[k] = v
        except Exception as e:
            ctx.bad(key, f"got {r}: {type(e).__name__} {e}", rp)
            continue
        if got != w:
            ctx.bad(key, f"got {r}, expected {w}", rp)
        if order != sorted(order):
            ctx.bad(key, f"not ordered by partition: {r}", rp)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            ok, _ = ctx.call("draw " + key, x.draw_ascii_partition, include_q=inc, repro=rp)
        if ok:
            lines = [ln.rstrip() for ln in buf.getvalue().split("\n")]
            while lines and not lines[-1]:
                lines.pop()
            exp = expected_drawing([(str(c), tuple(p)) for c, p in rows])
            while exp and not exp[-1]:
                exp.pop()
            if lines != exp:
                ctx.bad("draw " + key, f"got {lines}, expected {exp}", rp)
    if str(x) != str(L(text)):
        ctx.bad(f"{text}", f"changed to {x}")
    ctx.add(states=1, transitions=2 * len(terms))


BAD = ["S[1]*S[2]", "S[1]^2", "q*S[1]*S[2]", "S[1]*(S[2]+1)", "q*(S[1]+S[2])", "S[1]^2*S[2]", "S[2] + S[1]*S[2]", "S[1] + S[2]^3", "q*S[1]^2 + S[2]", "q", "q^2",
       "S[1] + q", "(S[1]+S[2])^2", "S[1] + q*(S[2] + S[1]*q)", "2*S[1]*S[2]", "-S[1]^2", "S[1]*S[]", "2*q"]


def refuse(ctx):
    L = base.load().LinearCombination
    for t in BAD:
        x = L(t)
        rp = f"from schubertpy import *\nprint(LinearCombination({t!r}).schur_expansion())\n"
        for fn in ("schur_expansion", "draw_ascii_partition"):
            with contextlib.redirect_stdout(io.StringIO()):
                ok, r = base.quiet(getattr(x, fn))
            ctx.add(traces_validated_against_impl=1, states=1)
            if ok or not isinstance(r, ValueError):
                ctx.bad(f"{fn} of {t}", f"gives {r!r}, expected a ValueError", rp)
    for t, want in (("0", [(0, [])]), ("3", [(3, [])]), ("S[1] - S[1]", [(0, [])]), ("S[1] + 4", [(4, []), (1, [1])])):
        ok, r = ctx.call(f"schur_expansion of {t}", L(t).schur_expansion)
        r = [r] if isinstance(r, tuple) else r
        if ok and r != want and not (t in ("0", "S[1] - S[1]") and r == []):
            ctx.bad(f"schur_expansion of {t}", f"got {r}, expected {want}")


def work(task, ctx):
    if task == "refuse":
        return refuse(ctx)
    for terms in task:
        check(ctx, terms)
        if ctx.full:
            return


def tasks(tier):
    quick = tier == "quick"
    one = list(itertools.product(COEF, PARTS))
    combos = [[t] for t in one]
    combos += [list(c) for c in itertools.combinations(one, 2)]
    combos += [list(c) for c in itertools.combinations(one, 3)]
    if not quick:
        four = [t for t in one if t[0] in ("1", "-1", "q", "1/2") and t[1] in ((), (1,), (1, 1), (2, 1), (3, 1, 1), (12, 2))]
        combos += [list(c) for c in itertools.combinations(four, 4)]
    # diagrams with many rows or columns, coefficients of several digits
    big = list(itertools.product(["1", "-12", "10*q", "-7/3", "q^10", "11*q1^2*q2"],
                                 [(1,) * 10, (1,) * 13, (2,) * 11, (25,), (11, 10), (10,), (10, 1), (7, 6, 5, 4, 3, 2, 1), (10, 9, 2, 2, 1, 1, 1, 1, 1, 1, 1), (1,) * 30]))
    big += list(itertools.product(["1", "q", "-1"], [(), (1,), (2, 1)]))
    combos += [[t] for t in big] + [list(c) for c in itertools.combinations(big, 2)]
    if not quick:
        combos += [list(c) for c in itertools.combinations(big, 3)]
    # many terms: every number up to a bound, in two orders
    from .c12 import parts
    many = [p for p in parts(4, 3)][:34] + [(11,), (10, 2), (10, 10), (9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9)]
    for n in range(4, 25 if quick else 39):
        for k in range(3):
            ps = many[k * 5:] + many[:k * 5]
            combos.append([((COEF + ["-12", "10*q", "q1", "7/3"])[(i * (k + 1)) % 12], p) for i, p in enumerate(ps[:n])][::1 if k else -1])
    combos += [[("1", p) for p in many[:n]] for n in (10, 20, 39)]
    return ["refuse"] + alg.chunks(combos, 300)


from . import alg  # noqa: E402


def main(tier):
    base.load()
    rep = base.Report("C17", tier)
    rep.explore(work, tasks(tier))
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all combinations of up to two terms over 8 coefficients x 7 partitions, also with long rows and columns and large coefficients, and of three (four) terms over smaller alphabets; each with and without q"
    rep.assumptions = []
    return rep.finish()
