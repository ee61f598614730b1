"""C10: enumeration of classes, generators and point class."""
from math import comb

from . import alg, base
from .base import S, name, make


def euler(space):
    fam, m, N = space
    if fam == "Gr":
        return comb(N, m)
    L = N // 2
    if fam == "OG" and N % 2 == 0 and m == L:
        return 2 ** (L - 1)
    return comb(L, m) * 2 ** m


def kstrict(space):
    """Definition: k-strict partitions in the rectangle, recursively."""
    fam, m, N = space
    kd = base.kind(space)
    k, n = base.kn(space)
    if kd == "A":
        rows, cols, strict = m, k, None
    else:
        rows, cols, strict = m, n + k, k

    def rec(rows, top):
        yield ()
        if rows:
            for x in range(1, top + 1):
                for rest in rec(rows - 1, x - 1 if strict is not None and x > strict else x):
                    yield (x,) + rest
    out = []
    if kd == "D" and m == 0:
        return [()]
    for l in rec(rows, cols):
        out.append(l)
        if kd == "D" and k and k in l:
            out.append(l + (0,))
    return out


def work(task, ctx):
    space, = task
    M = alg.model(space)
    g = make(space)
    ctx.add(states=len(M.labels), transitions=3)
    rp = f"from schubertpy import *\ng = {base.ctor(space)}\nprint(g.schub_classes(), g.generators(), g.point_class())\n"
    want = set(M.labels)
    assert want == set(kstrict(space)) and len(want) == euler(space), space
    SchurT = base.load().Schur

    def labels(xs):
        out = []
        for x in xs:
            if not isinstance(x, SchurT) or not isinstance(x.p, list):
                raise ValueError(f"{x!r} is a {type(x).__name__}, not a Schur")
            if str(x) != S(tuple(x.p)):
                raise ValueError(f"{x.p} prints as {x}")
            out.append(tuple(x.p))
        return out
    key = f"{name(space)} schub_classes"
    ok, r = ctx.call(key, lambda: labels(g.schub_classes()), repro=rp)
    if ok:
        ctx.add(traces_validated_against_impl=len(r) + 1)
        if len(r) != len(set(r)):
            ctx.bad(key, f"lists a class twice: {[S(x) for x in r if r.count(x) > 1][:4]}", rp)
        if set(r) - want:
            ctx.bad(key, f"lists {[S(x) for x in set(r) - want][:4]} which is no class of {name(space)}", rp)
        if want - set(r):
            ctx.bad(key, f"omits {[S(x) for x in want - set(r)][:4]}", rp)
        deg = [0] * (M.dim + 1)
        for x in r:
            if sum(x) <= M.dim:
                deg[sum(x)] += 1
        if deg != deg[::-1]:
            ctx.bad(key, f"numbers of classes by degree {deg} are not symmetric", rp)
    key = f"{name(space)} generators"
    ok, r = ctx.call(key, lambda: labels(g.generators()), repro=rp)
    if ok and r != [l for l, _ in alg.generators(space)]:
        ctx.bad(key, f"got {r}, expected {[l for l, _ in alg.generators(space)]}", rp)
    ctx.add(traces_validated_against_impl=len(r) if ok else 0)
    key = f"{name(space)} point_class"
    ok, r = ctx.call(key, lambda: labels([g.point_class()]), repro=rp)
    if ok and r != [M.labels[-1]]:
        ctx.bad(key, f"got {r}, expected {S(M.labels[-1])}", rp)
    if ok and len(M.labels) <= 40:
        generate(space)
        ctx.add(generated=1)
    ctx.sample(f"{name(space)}: {len(M.labels)} classes, point {S(M.labels[-1])}", 1)


def generate(space):
    """The special classes generate the ring: walk the graph from the unit and
    check that the vectors reached span everything (mod a prime)."""
    M = alg.model(space)
    gens = [l for l, _ in alg.generators(space)]
    op = alg.ops(space, gens) if gens else {}
    z = alg.zero_q(space)
    p = 2147483647
    basis = {}          # pivot label index -> row

    def reduce(v):
        v = dict(v)
        while v:
            i = max(v)
            if i not in basis:
                return v
            c = v[i]
            for j, x in basis[i].items():
                y = (v.get(j, 0) - c * x) % p
                if y:
                    v[j] = y
                else:
                    v.pop(j, None)
        return v
    todo = [{((), z): 1}]
    while todo:
        vec = todo.pop()
        v = reduce({M.pos[w]: c % p for (w, _), c in vec.items()})
        if not v:
            continue
        i = max(v)
        inv = pow(v[i], p - 2, p)
        basis[i] = {j: x * inv % p for j, x in v.items()}
        for l in gens:
            todo.append(alg.times(op[l], vec, False))
    assert len(basis) == len(M.labels), (space, len(basis))


def tasks(tier):
    sp = alg.spaces(11, 14, 15) + [("Gr", m, 13) for m in range(14)] + [("OG", 1, 30), ("OG", 1, 31), ("IG", 1, 30), ("OG", 2, 24), ("OG", 8, 16), ("OG", 7, 16)]
    if tier != "quick":
        sp += alg.spaces(14, 16, 18) + [("OG", 9, 20), ("OG", 10, 20), ("OG", 9, 19), ("IG", 9, 18)]
    sp = sorted(set(sp), key=lambda s: -euler(s))
    if tier == "quick":
        sp = [s for s in sp if euler(s) <= 800]
    return [(s,) for s in sp]


def main(tier):
    base.load()
    rep = base.Report("C10", tier)
    ts = tasks(tier)
    rep.explore(work, ts)
    rep.extra["spaces"] = len(ts)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "every space of the listed sizes"
    rep.assumptions = ["the classes are the k-strict partitions (by definition) and the cosets W^P (by Lie theory); both lists are compared"]
    return rep.finish()
