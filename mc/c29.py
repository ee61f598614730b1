"""C29: Schur objects behave as values."""
import itertools

from . import alg, base
from .base import S, make, name
from .c27 import partitions

RP = "from schubertpy import *\nimport sympy as sp\n"


def forms(l):
    """Expressions that make a Schur object of the class with these parts."""
    t = S(l)
    l = list(l)
    return [f"Schur({l})", f"Schur(Schur({l}))", f"Schur('{t}')", f"Schur(Schur({l}).symbol())", f"Schur(str(Schur({l})))", f"Schur(LinearCombination('{t}').expr)"]


def work(task, ctx):
    lib = base.load()
    from schubertpy.schur import unique_schur_list, toSchur, isSchur
    what = task[0]
    env = {"Schur": lib.Schur, "LinearCombination": lib.LinearCombination}
    if what == "pairs":
        _, chunk, everything, alln = task
        objs = {}
        for l in everything:
            objs[l] = [eval(f, env) for f in (forms(l) if l in alln else forms(l)[:2])]
        for a in chunk:
            xs = objs[a]
            for x, f in zip(xs, forms(a)):
                for nm, got, want in (("str", str(x).replace(" ", ""), S(a)), ("repr", repr(x).replace(" ", ""), S(a)),
                                      ("partition()", list(x.partition()), list(a)), ("isSchur", isSchur(x.symbol()), True),
                                      ("toSchur", list(toSchur(x.symbol()).p), list(a)), ("toSchur of text", list(toSchur(str(x)).p), list(a)),
                                      ("has_part_zero_padding()", x.has_part_zero_padding(), bool(a) and a[-1] == 0)):
                    ctx.add(traces_validated_against_impl=1)
                    if got != want:
                        ctx.bad(f"{f} {nm}", f"is {got!r}, expected {want!r}", RP + f"print({f})")
                for y in (None, 1, str(a), list(a), S(a), 1.5):
                    ctx.add(traces_validated_against_impl=1)
                    if x == y or not x != y:
                        ctx.bad(f"{f} == {y!r}", "a Schur object is equal to something else", RP + f"print({f} == {y!r})")
            for b in everything:
                same = a == b
                for x, fx in zip(xs, forms(a)):
                    for y, fy in zip(objs[b], forms(b)):
                        got = (x == y, x != y, x < y, y > x, hash(x) == hash(y) or not same, x in [y], x in {y}, {y: 1}.get(x) == 1, x.symbol() == y.symbol())
                        want = (same, not same, list(a) < list(b), list(a) < list(b), True, same, same, same, same)
                        ctx.add(traces_validated_against_impl=9)
                        if got != want:
                            ctx.bad(f"{fx} and {fy}", f"(==, !=, <, reflected >, equal hash, in list, in set, in dict, symbols equal) is {got}, expected {want}",
                                    RP + f"x, y = {fx}, {fy}\nprint(x == y, x != y, x < y, y > x, hash(x) == hash(y), x in [y], x in {{y}}, {{y: 1}}.get(x), x.symbol() == y.symbol())")
                        if ctx.full:
                            return
                ctx.add(transitions=1)
            ctx.add(states=1)
        return
    if what == "lists":
        for chunk in task[1]:
            ls = [lib.Schur(list(l)) for l in chunk]
            want = [list(l) for l in sorted(chunk)]
            ctx.add(traces_validated_against_impl=4, transitions=1)
            for nm, got in (("sorted", [x.p for x in sorted(ls)]), ("sorted from the back", [x.p for x in sorted(reversed(ls))])):
                if got != want:
                    ctx.bad(f"{nm} {[S(l) for l in chunk]}", f"is {got}", RP + f"print({nm.split()[0]}({[list(l) for l in chunk]}, key=Schur))")
            want = [list(l) for l in sorted(set(chunk))]
            for nm, got in (("unique_schur_list", [x.p for x in unique_schur_list(ls)]), ("set", sorted(x.p for x in set(ls)))):
                if got != want:
                    ctx.bad(f"{nm} of {[S(l) for l in chunk]}", f"is {got}, expected {want}",
                            "from schubertpy.schur import *\n" + f"print({nm}([Schur(l) for l in {[list(l) for l in chunk]}]))")
            if ctx.full:
                return
        return
    # tables: the entry found by any two classes is their product
    _, space = task
    g = make(space)
    op = alg.ops(space)
    for cls, q in (("MultTable", False), ("QMultTable", True)):
        ok, t = ctx.call(f"{cls}({name(space)})", getattr(lib, cls), g)
        if not ok:
            continue
        for a in op:
            for b in op:
                key = f"{cls}({name(space)}).df.loc[{S(a)}, {S(b)}]"
                rp = RP + f"print({cls}({base.ctor(space)}).df.loc[Schur({list(a)}), Schur({list(b)})])"
                want = op[a][b] if q else alg.classical(op[a][b])
                ok, r = ctx.call(key, lambda: t.df.loc[lib.Schur(list(a)), lib.Schur(list(b))], repro=rp)
                ctx.add(traces_validated_against_impl=1)
                if ok:
                    alg.compare(ctx, space, key, r, want, rp)
        ctx.add(states=len(op) ** 2)


def main(tier):
    base.load()
    rep = base.Report("C29", tier)
    quick = tier == "quick"
    small = sorted(l for l in partitions(3, 3 if quick else 4) if not l or l[-1] > 0)
    small += [l + (0,) for l in small if l]
    # parts which read the same without the commas, or sort differently as text
    small += [(11,), (1, 1, 1, 1), (12, 1), (1, 2), (11, 1), (111,), (1, 11), (10,), (10, 0), (10, 1), (9,), (9, 10), (10, 9), (2, 10), (21, 0), (2, 1, 0), (21,), (100,), (12,)]
    small = list(dict.fromkeys(small))
    big = list(dict.fromkeys(small + sorted(l for l in partitions(4, 5 if quick else 7) if not l or l[-1] > 0)))
    far = list(partitions(5, 3)) + list(partitions(8, 2)) + list(partitions(2, 12))[::3] + [(1,) * n for n in range(5, 14)] + \
        [(n,) * i for n in (9, 10, 11) for i in (1, 2, 3)] + [tuple(range(n, 0, -1)) for n in range(4, 13)] + [tuple(range(n, -1, -1)) for n in range(3, 13)] + \
        [(n, 1, 0) for n in range(1, 13)] + [(2, 1, 1, 1, 1, 1, 0), (300, 20, 1), (300, 2, 1), (255,), (256,), (257,), (1000,), (999,)]
    big = list(dict.fromkeys(big + [l if l and l[-1] else l for l in far]))
    alln = set(small[::3] if quick else small)
    ts = [("pairs", c, big, alln) for c in alg.chunks(big, 4)]
    lists = [c for n in (1, 2, 3) for c in itertools.product(small[::2 if quick else 1], repeat=n)]
    ts += [("lists", c) for c in alg.chunks(lists, 1500)]
    # longer lists: all classes of larger spaces, in several orders, twice over
    for s in (("Gr", 3, 7), ("Gr", 1, 15), ("Gr", 2, 12), ("OG", 3, 8), ("OG", 1, 12), ("OG", 5, 12), ("IG", 4, 10), ("OG", 6, 13)):
        ls = list(alg.model(s).labels)
        ts.append(("lists", [tuple(ls), tuple(ls[::-1]), tuple(ls + ls), tuple(ls[::2] + ls[::-3] + ls[1::2])]))
    sp = [s for s in alg.spaces(4, 4, 6) + [("Gr", 1, 12), ("IG", 1, 12), ("OG", 1, 12)] if alg.generators(s)]
    ts += [("table", s) for s in sp]
    rep.explore(work, ts)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = f"all ordered pairs of {len(big)} classes, made in {len(forms(()))} ways; all lists of up to three of {len(small[::2 if quick else 1])} classes; all entries of the tables of {len(sp)} spaces"
    return rep.finish()
