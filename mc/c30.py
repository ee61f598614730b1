"""C30: requests without a meaning are refused and leave no trace."""
import itertools

from . import alg, base, hist
from .base import S, make, name

RP = "from schubertpy import *\nfrom schubertpy.schur import *\nimport sympy as sp\n"

# arguments that are no combination of classes, whatever the Grassmannian
THINGS = ["None", "{}", "{'S[1]': 1}", "set()", "{1}", "()", "(1,)", "(2, 1)", "object()", "1j", "b'S[1]'", "len", "Schur", "Ellipsis", "range(2)",
          "bytearray(b'S[1]')", "iter([1])", "[1].__iter__", "Grassmannian(2, 4)", "Partition([1])", "frozenset([1])", "type", "slice(1)", "sp"]
LISTS = ["['a']", "[None]", "[[1]]", "[[1], [2]]", "[1, 'a']", "[2, None]", "['S[1]']", "[Schur([1])]", "[{}]", "[(1,)]"]
UNORDERED = ["[1, 2]", "[0, 1]", "[2, -1]", "[-1]", "[1, 0, 1]", "[1.5, 2]", "[1, 1, 2]", "[3, 1, 2]", "[-2, 0]"]
TEXTS = ["''", "' '", "'+'", "'*S[1]'", "'S[1]+'", "'S[1] S[2]'", "'2S[1]'", "'2 S[1]'", "'S[1;2]'", "'S[1.5]'", "'S[-1]'", "'S[2,-1]'", "'S[1'", "'S[1]]'", "'S['",
         "'S[a]'", "'S[,1]'", "'S[1,,2]'", "'(S[1]'", "'S[1])'", "'S[1]*/S[1]'", "'S1'", "'S[2,1}'", "'S(2,1]'", "'q q'", "'S[1]q'",
         "'2q*S[1]'", "'S[1]!!2!'", "'S[1]S[1]'", "'S[1]$'", "'S[1]:'", "'S[1]=S[1]+'", "'\\x00'"]
# unknown symbols: no polynomial in special classes
FOREIGN = ["'T'", "'T[1]'", "'x'", "'x*S[1]'", "'S[1]+x'", "'S[1]*T[1]'", "'S[1]+T[2]'", "'s[1]'", "'q3'", "'q0*S[1]'", "'Q*S[1]'", "'q3*S[1]'", "sp.Symbol('x')", "sp.Symbol('T[1]')*Schur([1]).symbol()",
           "LinearCombination('x')", "LinearCombination('S[1]')*sp.Symbol('x')", "'q11'", "'S[1]^2*x'", "'q*x'", "'x^2'", "'2*x-S[1]'"]
# operands that sums and products do not know
OPERANDS = ["None", "[]", "[1]", "[2, 1]", "{}", "()", "(1,)", "set()", "object()", "1j", "b'1'", "len", "Grassmannian(2, 4)", "Partition([1])", "iter([1])", "range(2)"]


def combos(space):
    """The operations that take a combination: (name, text with X for it, the
    first factor or acting polynomial, takes a plain list by itself)."""
    M = alg.model(space)
    a, b = S(M.labels[min(1, len(M.labels) - 1)]), S(M.labels[-1])
    kd = base.kind(space)
    k = base.kn(space)[0]
    out = []
    for y in dict.fromkeys((a, b)):
        out += [(f"g.mult(X, '{y}')", 1, 0), (f"g.mult('{y}', X)", 0, 0), (f"g.qmult(X, '{y}')", 1, 0), (f"g.qmult('{y}', X)", 0, 0),
                (f"g.act(X, '{y}')", 1, 0), (f"g.qact(X, '{y}')", 1, 0)]
        if kd == "A":
            out += [(f"g.qmult_rh(X, '{y}')", 0, 0), (f"g.qmult_rh('{y}', X)", 0, 0)]
    for x, i in alg.generators(space)[::max(1, len(alg.generators(space)) - 1)]:
        out += [(f"g.pieri({i}, X)", 0, 1), (f"g.qpieri({i}, X)", 0, 0), (f"g.act('{S(x)}', X)", 0, 0), (f"g.qact('{S(x)}', X)", 0, 0)]
    out += [("g.toS(X)", 1, 0), ("g.qtoS(X)", 1, 0), ("g.giambelli(X)", 0, 0), ("g.qgiambelli(X)", 0, 0), ("g.dualize(X)", 0, 0),
            ("g.part2index(X)", 0, 1), ("g.index2part(X)", 0, 1), ("g.miami_swap(X)", 0, 0), (f"g.type_swap(X, {k})", 0, 1)]
    if kd != "A":
        out += [("g.part2pair(X)", 0, 1)]
    return out


def unusual(t):
    """Texts the parser takes as the name of a symbol: only operations that
    look at the classes can refuse them."""
    return t in ("'S[1'", "'S[1]]'", "'S['", "'S[a]'", "'S[,1]'", "'S[1,,2]'", "'S1'", "'S[1]S[1]'", "'S[1]q'")


def requests(space):
    """Every request to be refused, as text."""
    M = alg.model(space)
    gens = alg.generators(space)
    kd = base.kind(space)
    k, n = base.kn(space)
    special = {x for x, _ in gens} | {()}
    out = []
    for op, acts, plain in combos(space):
        vals = list(THINGS) + TEXTS
        if op.startswith(("g.miami", "g.type_swap")):
            vals = [v for v in vals if not unusual(v)]
        if not plain:
            vals += LISTS + UNORDERED
        if op.startswith("g.index2part"):
            vals = THINGS[:10] + [v for v in TEXTS if not unusual(v)]
        if acts and op.startswith(("g.mult", "g.qmult", "g.act", "g.qact", "g.toS", "g.qtoS")):
            vals += FOREIGN
        out += [op.replace("X", v) for v in vals]
    # classes that are not special
    other = [x for x in M.labels if len(x) >= 2 and not (kd == "D" and x[1] == 0)]
    if gens:
        for x in other:
            for t in (S(x), f"2*{S(x)}", f"q*{S(x)}", f"{S(x)}^2", f"{S(x)}*{S(gens[0][0])}", f"{S(gens[-1][0])} - {S(x)}", f"3 + {S(x)}",
                      f"{S(gens[0][0])}^2*{S(x)} + q*{S(gens[-1][0])}"):
                for op in ("act", "qact"):
                    out.append(f"g.{op}('{t}', '{S(M.labels[-1])}')")
            for y in (M.labels[0], M.labels[len(M.labels) // 2]):
                out += [f"g.act('{S(x)}', '{S(y)}')", f"g.qact('{S(x)}', '{S(y)}')", f"g.act(Schur({list(x)}), Schur({list(y)}))", f"g.qact({list(x)}, {list(y)})"]
            out += [f"g.toS('{S(x)}*T')"]
        if kd != "D":
            for x, _ in gens:
                out += [f"g.act('{S(x + (0,))}', '1*S[]')", f"g.qact('{S(x + (0,))}', '{S(M.labels[-1])}')"]
    # numbers that are no numbers of a special class
    for x in (M.labels[len(M.labels) // 2], M.labels[-1]):
        if x:
            for i in ("'1'", "None", "[1]", "Schur([1])", "'S[1]'", "{}", "object()"):
                out += [f"g.pieri({i}, '{S(x)}')", f"g.qpieri({i}, '{S(x)}')", f"g.pieri({i}, {list(x)})"]
    if kd == "A":
        for x in M.labels[1:]:
            out += [f"g.part2pair('{S(x)}')", f"g.part2pair({list(x)})", f"g.part2pair(Schur({list(x)}))", f"g.pair2part('{S(x)}')"]
    if kd != "D":
        out += [f"g.schub_type({list(x)})" for x in M.labels] + [f"g.schub_type(Schur({list(x)}))" for x in M.labels]
    for f in ("mult", "qmult", "act", "qact", "pieri", "qpieri", "dualize", "toS", "qtoS", "giambelli", "qgiambelli", "part2index", "miami_swap"):
        out += [f"g.{f}()", f"g.{f}('S[1]', 'S[1]', 'S[1]', 1)"]
    return list(dict.fromkeys(out))


def valid(space):
    """Questions whose answers the model knows: (text, vector)."""
    M = alg.model(space)
    op = alg.ops(space)
    L = M.labels
    z = alg.zero_q(space)
    out = []
    for a, b in ((L[len(L) // 2], L[-1]), (L[min(1, len(L) - 1)], L[len(L) // 3]), (L[-1], L[-1])):
        out += [(f"g.qmult('{S(a)}', '{S(b)}')", op[a][b]), (f"g.mult('{S(a)}', '{S(b)}')", alg.classical(op[a][b])), (f"g.mult({list(b)}, {list(a)})", alg.classical(op[b][a])),
                (f"g.qtoS('{S(a)}*{S(L[0])}')" if a in [x for x, _ in alg.generators(space)] else f"g.qact(1, '{S(a)}')", {(a, z): 1})]
    for x, i in alg.generators(space)[:2] + alg.generators(space)[-1:]:
        out += [(f"g.qpieri({i}, '{S(L[-1])}')", op[x][L[-1]]), (f"g.pieri({i}, '{S(L[len(L) // 2])}')", alg.classical(op[x][L[len(L) // 2]])),
                (f"g.qact('{S(x)}', '{S(L[-1])}')", op[x][L[-1]])]
    return out


def env():
    lib = base.load()
    import schubertpy.schur
    import sympy as sp
    e = {k: getattr(lib, k) for k in dir(lib) if not k.startswith("_")}
    e.update({k: getattr(schubertpy.schur, k) for k in ("isSchur", "toSchur", "unique_schur_list")}, sp=sp)
    return e


def refused(ctx, key, text, ns, rp):
    try:
        r = eval(text, ns)
    except Exception:
        return True
    ctx.bad(key, f"is answered with {str(r)[:200]!r}, expected an exception", rp)
    return False


def work(task, ctx):
    ns = env()
    what = task[0]
    if what == "space":
        _, space, chunk, seqs = task
        ns["g"] = g = make(space)
        start = RP + f"g = {base.ctor(space)}\n"
        vs = valid(space)
        frozen = (str(g), repr(g.get_type_data()), g._type, g._k, g._n)
        for i, r in enumerate(chunk):
            ctx.add(traces_validated_against_impl=1, states=1)
            refused(ctx, f"{name(space)} {r}", r, ns, start + f"print({r})")
            ctx.add(transitions=1)
            v, want = vs[i % len(vs)]
            rp = start + f"try: {r}\nexcept Exception: pass\nprint({v})"
            if (str(g), repr(g.get_type_data()), g._type, g._k, g._n) != frozen:
                ctx.bad(f"{name(space)} after {r}", "the object has changed", start + f"try: {r}\nexcept Exception: pass\nprint(g)")
                return
            ok, got = ctx.call(f"{name(space)} {v} after {r}", eval, v, ns, repro=rp)
            if ok:
                alg.compare(ctx, space, f"{name(space)} {v} after {r}", got, want, rp)
            if ctx.full:
                return
        # two refusals, then a question
        for a, b in seqs:
            for x in (a, b):
                base.quiet(eval, x, ns)
            ctx.add(transitions=2)
            for v, want in vs[:4]:
                ctx.add(traces_validated_against_impl=1)
                rp = start + "".join(f"try: {x}\nexcept Exception: pass\n" for x in (a, b)) + f"print({v})"
                ok, got = ctx.call(f"{name(space)} {v} after {a} and {b}", eval, v, ns, repro=rp)
                if ok:
                    alg.compare(ctx, space, f"{name(space)} {v} after {a} and {b}", got, want, rp)
            if ctx.full:
                return
        return
    # expressions without a Grassmannian
    for t, text, changed in task[1]:
        ns["L"] = ns["LinearCombination"]("2*S[2,1] - q*S[1]")
        ns["P"] = ns["Schur"]([2, 1])
        before = (str(ns["L"]), str(ns["P"]))
        ctx.add(traces_validated_against_impl=1, states=1, transitions=1)
        refused(ctx, text, text, ns, RP + f"L = LinearCombination('2*S[2,1] - q*S[1]')\nP = Schur([2, 1])\nprint({text})")
        if (str(ns["L"]), str(ns["P"])) != before:
            ctx.bad(f"after {text}", f"the operands have changed from {before} to {(str(ns['L']), str(ns['P']))}", RP + f"L = LinearCombination('2*S[2,1] - q*S[1]')\nP = Schur([2, 1])\ntry: {text}\nexcept Exception: pass\nprint(L, P)")
        if ctx.full:
            return


def free():
    """Requests to be refused that need no Grassmannian."""
    out = [f"LinearCombination({v})" for v in THINGS + LISTS + UNORDERED + [t for t in TEXTS if not unusual(t)]]
    out += [f"Schur({v})" for v in ("None", "{}", "set()", "1j", "object()", "b'S[1]'", "len", "'x'", "''", "'S'", "'S[1'", "'S[1]+S[2]'", "'2*S[1]'", "'S[a]'", "sp.Symbol('x')", "sp.Integer(3)",
                                    "Schur([1]).symbol() + Schur([2]).symbol()", "2*Schur([1]).symbol()", "Schur([1]).symbol()**2", "1", "0", "1.5", "True", "'T[1]'", "'[1'", "'q'", "LinearCombination('S[1]+S[2]')")]
    for x, o in itertools.product(OPERANDS + ["'S[1]'", "'1'"], ("L", "P")):
        for op in ("+", "-", "*", "**"):
            out += [f"{o} {op} {x}", f"{x} {op} {o}"]
    out += [f"L.is_operator({x})" for x in ("'-'", "''", "'/'", "None", "'++'", "1")]
    out += [f"{c}({x})" for c in ("MultTable", "QMultTable") for x in ("None", "1", "'Gr(2,4)'", "[]", "Schur([1])", "LinearCombination('S[1]')", "Grassmannian")]
    out += [f"Partition({x})" for x in UNORDERED + LISTS]
    out += [f"Partition([2, 1]).is_in_range({x})" for x in ("-1, 2", "2, -1", "-1, -1", "'a', 2", "None, 2", "2, None")]
    out += [f"toSchur({x})" for x in ("'x'", "''", "'S'", "sp.Symbol('x')", "None", "'2*S[1]'", "sp.Symbol('q')", "1")]
    return list(dict.fromkeys(out))


def main(tier):
    base.load()
    rep = base.Report("C30", tier)
    quick = tier == "quick"
    ns = env()
    ns["L"], ns["P"] = ns["LinearCombination"]("2*S[2,1] - q*S[1]"), ns["Schur"]([2, 1])
    sp = [s for s in (alg.spaces(4, 6, 8) if quick else alg.spaces(6, 8, 10)) + [("Gr", 2, 5), ("Gr", 3, 6), ("IG", 2, 8), ("OG", 2, 9), ("OG", 2, 10), ("OG", 4, 10), ("OG", 3, 9)] if alg.generators(s)]
    sp = list(dict.fromkeys(sp))
    ts = []
    nreq = 0
    for s in sp:
        r = requests(s)
        nreq += len(r)
        ts += [("space", s, c, []) for c in alg.chunks(r, 400)]
        if len(alg.model(s).labels) <= 12:
            few = r[::max(1, len(r) // (40 if quick else 120))]
            ts += [("space", s, [], c) for c in alg.chunks(itertools.product(few, few), 400)]
    f = [("free", t, False) for t in free()]
    ts += [("free", c) for c in alg.chunks(f, 60)]
    rep.explore(work, ts)
    rep.extra["requests"] = nreq + len(f)
    rep.extra["spaces"] = len(sp)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "every kind of request without a meaning in every position of every operation of the listed spaces, each followed by a question the model answers; all ordered pairs of a subset in the smaller spaces"
    return rep.finish()
