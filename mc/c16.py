"""C16: arithmetic of LinearCombination, all expression trees up to a depth."""
import itertools
import operator
import re
from fractions import Fraction

from . import base, poly

PRELUDE = ("from schubertpy import *\nimport sympy as sp\nfrom sympy import Rational\n"
           "L = LinearCombination\nq = sp.Symbol('q')\n")


TINY = ("2", "L('S[1]')", "L('S[2,1] - 2*q*S[2]')", "Schur([2])", "q")


def leaves(deep=False):
    S1, S2, S21 = poly.S((1,)), poly.S((2,)), poly.S((2, 1))
    q = poly.atom("q")
    out = [("L('S[1]')", S1), ("L('S[2,1] - 2*q*S[2]')", poly.padd(S21, poly.pmul(q, S2), -2)), ("L(0)", {}), ("L(3)", poly.const(3)),
           ("Schur([2])", S2), ("Schur([])", poly.S(())), ("2", poly.const(2)), ("q", q)]
    if deep:
        out += [("-1", poly.const(-1)), ("0", {}), ("Rational(1,2)", poly.const(Fraction(1, 2))), ("L('q^2')", poly.ppow(q, 2)), ("L([2,1])", S21),
                ("L('S[1]+S[2]')", poly.padd(S1, S2)), ("L('q*S[1]')", poly.pmul(q, S1)), ("Schur([2,0])", poly.S((2, 0))),
                ("(q**2-1)", poly.padd(poly.ppow(q, 2), poly.const(-1))), ("sp.Integer(0)", {}), ("sp.Integer(5)", poly.const(5)), ("0.5", poly.const(Fraction(1, 2))), ("L(-0.5)", poly.const(Fraction(-1, 2))),
                ("L('S[2]*3/4 - q/8')", poly.padd(poly.pmul(S2, poly.const(Fraction(3, 4))), poly.pmul(q, poly.const(Fraction(-1, 8))))), ("L('S[12,11]')", poly.S((12, 11)))]
    return out


def parse(t):
    """Decimal coefficients (operands may be floats) are rounded to the nearby
    simple fraction they stand for."""
    return poly.parse(re.sub(r"\d+\.\d*", lambda m: "({0.numerator}/{0.denominator})".format(Fraction(m.group()).limit_denominator(4096)), t))


def value(x, sp):
    lib = base.load()
    if isinstance(x, lib.LinearCombination):
        return "LC", parse(str(x))
    if isinstance(x, lib.Schur):
        return "Schur", poly.parse(str(x))
    if isinstance(x, sp.Expr):
        return "num" if not any(str(s).startswith("S") for s in x.free_symbols) else "expr", parse(str(lib.LinearCombination(x)))
    if isinstance(x, int):
        return "num", poly.const(x)
    if isinstance(x, float):
        return "num", poly.const(poly._norm(Fraction(x)))
    raise poly.Malformed(f"{type(x).__name__}: {x!r}")


PYOP = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}
POP = {"+": poly.padd, "-": lambda a, b: poly.padd(a, b, -1), "*": poly.pmul}


def step(ctx, ltext, lobj, lval, op, rtext, robj, rval, lkind, rkind, sp):
    """Apply one operator to live objects; returns the node or None."""
    text = f"({ltext} {op} {rtext})"
    # without a LinearCombination among the operands only Schur + / * number,
    # expression or Schur exist (they give plain sympy expressions)
    must_lc = "LC" in (lkind, rkind)
    if not must_lc and (op == "-" and "Schur" in (lkind, rkind) or "Schur" not in (lkind, rkind)):
        return None
    if not must_lc and "expr" in (lkind, rkind) and op == "-":
        return None
    want = POP[op](lval, rval)
    rp = PRELUDE + f"r = {text}\nprint(type(r).__name__, r, '; expected', {poly.show(want)!r})\n"
    before = (str(lobj), str(robj))
    ok, r = ctx.call(text, PYOP[op], lobj, robj, repro=rp)
    ctx.add(traces_validated_against_impl=1, transitions=1)
    if not ok:
        return None
    try:
        kind, v = value(r, sp)
    except poly.Malformed as e:
        ctx.bad(text, f"malformed result: {e}", rp)
        return None
    if v != want:
        ctx.bad(text, f"got {r}, expected {poly.show(want)}", rp)
    if must_lc and kind != "LC" and not (lkind == "Schur" and op in "+*"):
        ctx.bad(text, f"result is a {type(r).__name__}, not a LinearCombination", rp)
    if (str(lobj), str(robj)) != before:
        ctx.bad(text, f"operands changed from {before} to {(str(lobj), str(robj))}", rp)
    return text, r, want, kind


HIGH = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 25, 32, 33)


def powers(ctx, text, obj, val, kind, sp, exponents=range(4)):
    if kind not in ("LC", "Schur"):
        return
    for e in exponents:
        for et in (str(e), f"sp.Integer({e})", f"L({e})"):
            if kind == "Schur" and et.startswith("L"):
                pass
            t = f"({text})**{et}"
            L = base.load().LinearCombination
            eo = eval(et, {"sp": sp, "L": L})
            want = poly.ppow(val, e)
            rp = PRELUDE + f"r = {t}\nprint(type(r).__name__, r, '; expected', {poly.show(want)!r})\n"
            ok, r = ctx.call(t, lambda: obj ** eo, repro=rp)
            ctx.add(traces_validated_against_impl=1, transitions=1)
            if not ok:
                continue
            try:
                k, v = value(r, sp)
                if v != want:
                    ctx.bad(t, f"got {r}, expected {poly.show(want)}", rp)
                if kind == "LC" and k != "LC":
                    ctx.bad(t, f"result is a {type(r).__name__}", rp)
            except poly.Malformed as x:
                ctx.bad(t, str(x), rp)


def tree(task, ctx):
    _, first, deep, depth, tiny, second = task
    import sympy as sp
    lib = base.load()
    env = {"L": lib.LinearCombination, "Schur": lib.Schur, "LinearCombination": lib.LinearCombination, "sp": sp,
           "Rational": sp.Rational, "q": sp.Symbol("q")}
    small = [(t, eval(t, env), v) for t, v in leaves(False) if not tiny or t in TINY[tiny - 1:]]
    full = [(t, eval(t, env), v) for t, v in leaves(deep)]
    kinds = {t: value(o, sp)[0] for t, o, v in full}

    def grow(node, d):
        text, obj, val, kind = node
        if d == 1:
            powers(ctx, text, obj, val, kind, sp)
        if d >= depth or ctx.full:
            return
        for t, o, v in (full if d < 1 and deep else small):
            if d == 0 and second and t != second:
                continue
            for op in "+-*":
                for a in ((node, (t, o, v, kinds[t])), ((t, o, v, kinds[t]), node)):
                    n = step(ctx, a[0][0], a[0][1], a[0][2], op, a[1][0], a[1][1], a[1][2], a[0][3], a[1][3], sp)
                    ctx.add(states=1)
                    if n and d + 1 < depth:
                        grow(n, d + 1)
                    if ctx.full:
                        return
    t, o, v = [x for x in full if x[0] == first][0]
    powers(ctx, t, o, v, kinds[t], sp, range(4) if second else HIGH[:9] if "." in t else HIGH)  # no numbers in e-notation
    grow((t, o, v, kinds[t]), 0)


MONO = [("1", ()), ("S[1]", ("S1",)), ("S[2,1]", ("S21",)), ("S[2,0]", ("S20",)), ("S[]", ("S",)), ("q", ("q",)), ("q*S[1]", ("q", "S1")), ("S[1]*S[2,1]", ("S1", "S21")),
        ("S[1]^2", ("S1", "S1")), ("q^2", ("q", "q")), ("S[1]^2*S[2,0]", ("S1", "S1", "S20")), ("q*S[1,0]^2", ("q", "S10", "S10")), ("S[3]", ("S3",))]


AUG = {"+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "**=": operator.ipow}


def augmented(task, ctx):
    """x op= y gives the value of x op y and leaves every other name of the
    operands as it was: chains of two augmented assignments."""
    import sympy as sp
    lib = base.load()
    env = {"L": lib.LinearCombination, "Schur": lib.Schur, "LinearCombination": lib.LinearCombination, "sp": sp,
           "Rational": sp.Rational, "q": sp.Symbol("q")}
    full = leaves(True)
    vals = dict(full)
    for first in task[1]:
        for (t1, o1), (t2, o2) in itertools.product(itertools.product([t for t, _ in full], ("+=", "-=", "*=")), repeat=2):
            if t2 not in TINY + ("L('q*S[1]')", "0.5"):
                continue
            x = eval(first, env)
            a, b = eval(t1, env), eval(t2, env)
            if not isinstance(x, lib.LinearCombination):
                continue
            text = f"x = y = {first}; x {o1} {t1}; z = x; x {o2} {t2}"
            rp = PRELUDE + text.replace("; ", "\n") + "\nprint(x, y, z)\n"
            y, before = x, (str(x), str(a), str(b))
            ok, r = ctx.call(text, lambda: AUG[o1](x, a), repro=rp)
            ctx.add(traces_validated_against_impl=1, transitions=2)
            if not ok:
                continue
            z, mid = r, str(r)
            ok, r = ctx.call(text, lambda: AUG[o2](z, b), repro=rp)
            if not ok:
                continue
            if (str(y), str(a), str(b)) != before or str(z) != mid:
                ctx.bad(text, f"an operand changed: x was {before[0]}, now {y}; intermediate {mid}, now {z}; others {a}, {b}", rp)
            want = POP[o2[0]](POP[o1[0]](vals[first], vals[t1]), vals[t2])
            try:
                k, v = value(r, sp)
                if v != want or k != "LC":
                    ctx.bad(text, f"got {type(r).__name__} {r}, expected {poly.show(want)}", rp)
            except poly.Malformed as e:
                ctx.bad(text, f"malformed result: {e}", rp)
            if ctx.full:
                return
        x = eval(first, env)
        if isinstance(x, lib.LinearCombination):
            y, w = x, str(x)
            ok, r = ctx.call(f"x = y = {first}; x **= 2", AUG["**="], x, 2)
            if ok and (str(y) != w or value(r, sp) != ("LC", poly.ppow(vals[first], 2))):
                ctx.bad(f"x = y = {first}; x **= 2", f"x is {r}, y is {y}")


def unevaluated(task, ctx):
    """Structural questions about expressions that are not simplified: a number
    times a sum, nested sums and products."""
    import sympy as sp
    L = base.load().LinearCombination
    sym = [L(t).expr for t in ("S[1]", "S[2,1]", "S[1,0]", "q")]
    lin = [(x, True) for x in sym] + [(sp.Integer(3), True)]
    lin2 = []
    for (a, la), (b, lb) in itertools.permutations(lin, 2):
        lin2.append((sp.Add(a, b, evaluate=False), True))
        lin2.append((sp.Mul(a, b, evaluate=False), a.is_Number or b.is_Number))
    for n in (2, -1, sp.Rational(1, 2)):
        for e, ok in list(lin2)[::2]:
            lin2.append((sp.Mul(n, e, evaluate=False), ok))
    cases = lin2 + [(sp.Add(e, f, evaluate=False), ok and of) for (e, ok), (f, of) in itertools.product(lin2[::3], lin2[1::5])]
    for e, ok in cases:
        if not ok and e.is_Mul and any(a.is_Mul or a.is_Add for a in e.args):
            continue
        x = L(e)
        good, r = ctx.call(f"is_valid {e} (unevaluated)", x.is_valid)
        ctx.add(traces_validated_against_impl=1, states=1)
        if good and bool(r) != ok:
            ctx.bad(f"is_valid {e} (unevaluated)", f"got {r}, expected {ok}")
        w = any(len(str(v)) > 2 and str(v).endswith("j0g") for v in e.free_symbols)
        good, r = ctx.call(f"has_part_zero_padding {e} (unevaluated)", x.has_part_zero_padding)
        if good and bool(r) != w:
            ctx.bad(f"has_part_zero_padding {e} (unevaluated)", f"got {r}, expected {w}")
        if ctx.full:
            return


def structure(task, ctx):
    import sympy as sp
    L = base.load().LinearCombination
    Schur = base.load().Schur
    for terms in task[1]:
        text = " + ".join(f"({c})*{MONO[i][0]}" for c, i in terms)
        x = L(text)
        monos = [MONO[i][1] for c, i in terms]
        rp = PRELUDE + f"x = L({text!r})\nprint(x, x.is_valid(), x.has_part_zero_padding(), [x.is_operator(o) for o in '+*^'], x.list_schur_oprands(), len(x))\n"
        want = {"is_valid": all(len(m) <= 1 for m in monos),
                "has_part_zero_padding": any(v.endswith("0") for m in monos for v in m)}
        for fn, w in want.items():
            ok, r = ctx.call(f"{fn} {text}", getattr(x, fn), repro=rp)
            ctx.add(traces_validated_against_impl=1)
            if ok and bool(r) != w:
                ctx.bad(f"{fn} {text}", f"got {r}, expected {w}", rp)
        # the operator on top: + for several terms, else by the only monomial
        if len(terms) > 1:
            top = "+"
        else:
            m, c = monos[0], terms[0][0]
            top = "*" if len(set(m)) > 1 or (m and c != 1) else "^" if len(m) > 1 else ""
        for op in "+*^":
            ok, r = ctx.call(f"is_operator {op} {text}", x.is_operator, op, repro=rp)
            if ok and r != (op == top):
                ctx.bad(f"is_operator {op} {text}", f"got {r}, expected {op == top}", rp)

        def flat(y):
            return [z for e in y for z in flat(e)] if isinstance(y, list) else [y] if y is not None else []
        ok, r = ctx.call(f"list_schur_oprands {text}", x.list_schur_oprands, repro=rp)
        if ok:
            try:
                got = sorted("S" + "".join(map(str, s.p)) for s in flat(r))
            except Exception as e:
                got = repr(r)
            # a power lists its base once
            w = sorted(v for m in monos for v in set(m) if v.startswith("S"))
            if got != w:
                ctx.bad(f"list_schur_oprands {text}", f"got {r}, expected the classes {w}", rp)
        ok, r = ctx.call(f"len {text}", len, x, repro=rp)
        if ok and len(terms) > 1 and r != len(terms):
            ctx.bad(f"len {text}", f"got {r}, expected {len(terms)}", rp)
        ctx.add(traces_validated_against_impl=5, states=1)
        if ctx.full:
            return
    # classes in an exponent are classes that occur
    for base_, inside in (("S[1]", ["S1"]), ("(S[1] + S[2,1])", ["S1", "S21"]), ("2", []), ("q", []), ("(q*S[3])", ["S3"])):
        for ex, more in (("S[2]", ["S2"]), ("(S[2,0] + 1)", ["S20"]), ("(2*S[2])", ["S2"])):
            for front in ("", "S[5] + "):
                text = f"{front}{base_}^{ex}"
                ok, r = ctx.call(f"list_schur_oprands {text}", L(text).list_schur_oprands)
                ctx.add(traces_validated_against_impl=1)
                if ok:
                    got = {"S" + "".join(map(str, s.p)) for s in flat(r if isinstance(r, list) else [r])}
                    w = set(inside + more + (["S5"] if front else []))
                    if got != w:
                        ctx.bad(f"list_schur_oprands {text}", f"got {r}, expected the classes {sorted(w)}")
    for bad in ("/", "", "++", None):
        ok, r = base.quiet(L("S[1]").is_operator, bad)
        if ok or not isinstance(r, ValueError):
            ctx.bad(f"is_operator {bad!r}", f"gives {r!r}, expected a ValueError")


def refuse(task, ctx):
    """Operands and constructor arguments that have to be refused."""
    L = base.load().LinearCombination
    for o in ("S[1]", None, [1], (1,), {}, object()):
        for op in "+-*":
            for t, f in ((f"L {op} x", lambda: PYOP[op](L("S[1]"), o)), (f"x {op} L", lambda: PYOP[op](o, L("S[1]")))):
                if op == "*" and isinstance(o, (list, tuple, str)):
                    pass
                ok, r = base.quiet(f)
                ctx.add(traces_validated_against_impl=1)
                if ok or not isinstance(r, (TypeError, ValueError)):
                    ctx.bad(f"{t} with {o!r}", f"gives {r!r}, expected a TypeError or ValueError")
    for o in (None, {}, (1,), object(), [1, 2], [1.5], [-1]):
        ok, r = base.quiet(L, o)
        ctx.add(traces_validated_against_impl=1)
        if ok or not isinstance(r, ValueError):
            ctx.bad(f"LinearCombination({o!r})", f"gives {r!r}, expected a ValueError")


def work(task, ctx):
    {"tree": tree, "structure": structure, "refuse": refuse, "augmented": augmented, "unevaluated": unevaluated}[task[0]](task, ctx)


def tasks(tier):
    quick = tier == "quick"
    out = [("refuse",), ("unevaluated",)]
    out += [("augmented", [t]) for t, _ in leaves(True)]
    for t, _ in leaves(True):
        out.append(("tree", t, True, 2, 0, None))

    def trees(depth, tiny):
        ts = TINY[tiny - 1:] if tiny else [t for t, _ in leaves(False)]
        return [("tree", t, False, depth, tiny, u) for t in ts for u in ts]
    out += trees(3, 1)
    if not quick:
        out += trees(3, 0) + trees(4, 2)
    cs = (1, -1, 3)
    sums = [[(c, i)] for c in cs for i in range(len(MONO))]
    sums += [[(c, i), (d, j)] for i, j in itertools.combinations(range(len(MONO)), 2) for c in cs for d in cs]
    sums += [[(1, i), (-2, j), (3, k)] for i, j, k in itertools.combinations(range(len(MONO)), 3)]
    if not quick:
        sums += [[(1, i), (-2, j), (3, k), (-1, l)] for i, j, k, l in itertools.combinations(range(len(MONO)), 4)]
    for n in range(4, len(MONO) + 1):
        sums += [[((2, -1, 1, -3)[i % 4], (i + k) % len(MONO)) for i in range(n)] for k in range(len(MONO))]
    for c in alg.chunks(sums, 100):
        out.append(("structure", c))
    return out


from . import alg  # noqa: E402


def main(tier):
    base.load()
    rep = base.Report("C16", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "all left- and right-growing expression trees over the leaf alphabet up to the given depth, with all powers up to 3 of every node of depth 1 and up to 33 of every leaf; all pairs of augmented assignments; all sums of up to three monomials for the structural questions"
    rep.assumptions = ["polynomial arithmetic of mc/poly.py"]
    return rep.finish()
