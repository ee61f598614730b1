"""C27: partition utilities against their definitions."""
import itertools

from . import base


def lists(maxlen, lo, hi):
    for n in range(maxlen + 1):
        yield from itertools.product(range(lo, hi + 1), repeat=n)


def noninc(t):
    return all(a >= b for a, b in zip(t, t[1:]))


def partitions(maxlen, top):
    """Non-increasing tuples of positive numbers."""
    yield ()
    if maxlen:
        for x in range(top, 0, -1):
            for rest in partitions(maxlen - 1, x):
                yield (x,) + rest


def wide():
    """Shapes with up to three different parts, long rows and many rows."""
    sizes, rows = (1, 2, 9, 11, 33, 65, 130), (1, 2, 12, 33)
    for n in (1, 2, 3):
        for ps in itertools.combinations(sizes[::-1], n):
            for rs in itertools.product(rows, repeat=n):
                if sum(rs) <= 50:
                    yield tuple(p for p, r in zip(ps, rs) for _ in range(r))


def clip(t):
    t = list(t)
    while t and t[-1] == 0:
        t.pop()
    return t


def cells(t):
    return {(i, j) for i, x in enumerate(t) for j in range(x)}


class Odd(int):
    pass


def call(ctx, key, imp, expr, ns, want):
    """Evaluate and compare; want may be an exception class."""
    rp = f"{imp}\nprint({expr}, 'expected', {want!r})\n"
    try:
        r = eval(expr, ns)
    except Exception as e:
        if isinstance(want, type) and isinstance(e, want):
            return
        ctx.bad(key, f"raised {type(e).__name__}: {e}, expected {want!r}", rp)
        return
    if isinstance(want, type) and issubclass(want, Exception):
        ctx.bad(key, f"gives {r!r}, expected {want.__name__}", rp)
        return
    if want is True or want is False:
        good = r is want
    else:
        good = type(r) is type(want) and r == want
    if not good:
        ctx.bad(key, f"gives {r!r}, expected {want!r}", rp)


IMP = ("import sys, copy\nfrom schubertpy.partition import *\nfrom schubertpy.qcalc import part_clip, part_conj, part_gen, part_itr\n"
       "from schubertpy.utils.kstrict import all_kstrict\nfrom schubertpy.partition import Partition, is_valid_part, skew_partition_height")


def work(task, ctx):
    base.load()
    ns = {}
    exec(IMP, ns)
    what = task[0]

    def check(expr, want):
        ctx.add(traces_validated_against_impl=1)
        ctx.ncall += 1
        if ctx.ncall in (1, 500):
            ctx.sample(f"{expr} -> {want}")
        call(ctx, expr, IMP, expr, ns, want)
        return ctx.full

    if what == "clip":
        for t in task[1]:
            l = list(t)
            if check(f"part_clip({l})", clip(l)):
                return
            ok = noninc(t) and all(x >= 0 for x in t)
            if check(f"is_valid_part({l})", ok):
                return
            if ok:
                check(f"Partition({l}).partition", l)
                check(f"str(Partition({l}))", str(l))
                c = clip(l)
                conj = [sum(1 for x in c if x > j) for j in range(c[0] if c else 0)]
                check(f"part_conj({l})", conj)
                check(f"part_conj(part_conj({l}))", c)
                around = [range(0, task[2] + 1)] * 2 if task[2] else [sorted({x + d for d in (-1, 0, 1) for x in (n, 0) if x + d >= 0}) for n in (len(c), c[0] if c else 0)]
                for r in around[0]:
                    for k in around[1]:
                        inside = all(i < r and j < k for i, j in cells(l))
                        check(f"Partition({l}).is_in_range({r}, {k})", inside)
                check(f"Partition({l}).is_in_range(-1, 2)", ValueError)
                check(f"Partition({l}).is_in_range(2, -1)", ValueError)
            else:
                check(f"Partition({l})", ValueError)
            ctx.add(states=1)
            if ctx.full:
                return
    elif what == "kinds":
        for x in ["(2, 1)", "None", "'21'", "[2, 1.0]", "[2.0]", "['2']", "[[2], [1]]", "[None]", "{2: 1}", "range(2)", "5", "[1, '0']", "[2, None]"]:
            check(f"is_valid_part({x})", False)
            check(f"Partition({x})", ValueError)
    elif what == "gen":
        for t in task[1]:
            l = list(t)
            inside = [list(p) for p in partitions(len(l), l[0] if l else 0) if all(a <= b for a, b in zip(p, l))]
            e = f"part_gen({l})"
            ok, r = ctx.call(e, ns["part_gen"], l, repro=f"{IMP}\nprint({e})\n")
            if not ok:
                continue
            ctx.add(traces_validated_against_impl=1, states=1, transitions=len(inside))
            if sorted(map(list, r)) != sorted(inside):
                ctx.bad(e, f"gives {r}, expected each of {inside} once", f"{IMP}\nprint({e})\n")
            # the iterator visits the shapes below in decreasing order, each once
            seen, mu = [], list(l)
            while mu is not None and len(seen) <= len(inside) + 2:
                seen.append(clip(mu))
                mu = ns["part_itr"](mu)
            if sorted(seen) != sorted(inside):
                ctx.bad(f"part_itr from {l}", f"visits {seen}, expected each of {inside} once", f"{IMP}\nmu={l}\nwhile mu is not None:\n    print(mu); mu = part_itr(mu)\n")
            if ctx.full:
                return
    elif what == "kstrict":
        _, k, rows, top = task
        for cols in range(0, top + 1):
            want = sorted(list(p) for p in partitions(rows, cols) if all(a > b for a, b in zip(p, p[1:]) if a > k))
            e = f"all_kstrict({k}, {rows}, {cols})"
            ok, r = ctx.call(e, ns["all_kstrict"], k, rows, cols, repro=f"{IMP}\nprint({e})\n")
            ctx.add(traces_validated_against_impl=1, states=1, transitions=len(want))
            if ok and (not isinstance(r, list) or sorted(map(list, r)) != want):
                ctx.bad(e, f"gives {r}, expected each of {want} once", f"{IMP}\nprint({e})\n")
                if ctx.full:
                    return
    elif what == "kstrict one":
        _, k, rows, cols = task
        want = sorted(list(p) for p in partitions(rows, cols) if all(a > b for a, b in zip(p, p[1:]) if a > k))
        e = f"all_kstrict({k}, {rows}, {cols})"
        ok, r = ctx.call(e, ns["all_kstrict"], k, rows, cols, repro=f"{IMP}\nprint({e})\n")
        ctx.add(traces_validated_against_impl=1, states=1, transitions=len(want))
        if ok and (not isinstance(r, list) or sorted(map(list, r)) != want):
            ctx.bad(e, f"gives {len(r)} partitions, expected {len(want)}; missing {[p for p in want if p not in r][:5]}, additional {[p for p in r if p not in want][:5]}", f"{IMP}\nprint({e})\n")
    elif what == "skew":
        _, lams, mus = task
        for la in lams:
            for mu in mus:
                a, b = cells(la), cells(mu)
                want = len({i for i, j in b - a}) if a <= b else ValueError
                if check(f"skew_partition_height({list(la)}, {list(mu)})", want):
                    return
                ctx.add(states=1)


def main(tier):
    base.load()
    rep = base.Report("C27", tier)
    quick = tier == "quick"
    ts = [("kinds",)]
    L = list(lists(5, -1, 4) if quick else itertools.chain(lists(6, -1, 4), lists(4, -2, 8)))
    ts += [("clip", L[i::40], 5) for i in range(40)]
    W = [t + (0,) * (i % 4 * 5) for i, t in enumerate(wide())]
    # increasing somewhere, far out
    W += [t + (t[-1] + 1,) for t in W[::7] if t[-1]] + [t + (-1,) for t in W[::9]] + [(0,) * n for n in (7, 20, 40)] + [(0,) * 9 + (1,)]
    ts += [("clip", W[i::16], 0) for i in range(16)]
    gr = 6 if quick else 8
    G = [(c,) * r for r in range(1, gr + 1) for c in range(0, gr + 1)]
    G += [(1,) * 30, (40,), (20, 20), (12, 12, 12), (2,) * 14, (3,) * 9] + ([(8,) * 7, (7,) * 8] if quick else [])
    ts += [("gen", G[i::40]) for i in range(40)]
    m = (6, 6, 8) if quick else (10, 8, 10)
    ts += [("kstrict one", k, rows, cols) for k in (0, 1, 2, 3, 7, 11, 20, 40) for rows, cols in ((1, 40), (2, 30), (3, 18), (12, 3), (20, 2), (30, 1), (5, 11), (4, 14), (7, 7), (9, 6), (6, 12))]
    ts += [("kstrict", k, rows, m[2]) for k in range(m[0] + 1) for rows in range(m[1] + 1)]
    P = [t for t in lists(4, 0, 4) if noninc(t)] if quick else [t for t in lists(5, 0, 5) if noninc(t)]
    ts += [("skew", P[i::40], P) for i in range(40)]
    Q = [t for t in W if noninc(t) and min(t) >= 0]
    Q = Q[::3] + [t[:-1] for t in Q[::5]] + [(t[0] + 1,) + t[1:] for t in Q[::7]]
    ts += [("skew", Q[i::24], Q[::9 if quick else 2]) for i in range(24)]
    rep.explore(work, ts)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = (f"{len(L)} lists of small integers, {len(G)} rectangles, k-strict partitions for k <= {m[0]} in rectangles up to {m[1]}x{m[2]}, "
                          f"{len(P)}^2 pairs of shapes")
    rep.assumptions = ["reference: the definitions, by enumeration of cells"]
    return rep.finish()
