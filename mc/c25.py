"""C25: arguments and earlier results are never modified, and changing them
afterwards does not change later answers."""
import copy

from . import alg, base, hist
from .base import S

IMP = ("from schubertpy import *\nfrom schubertpy.schur import Schur\nfrom schubertpy.lc import LinearCombination\n"
       "from schubertpy.partition import *\nimport schubertpy.qcalc as qcalc\nimport io, contextlib\n"
       # helpers that are not part of the public interface may be absent
       "for m in ('schur', 'utils.mix', 'utils.kstrict'):\n    exec('from schubertpy.' + m + ' import *')\n"
       "def quiet(f, *a):\n    with contextlib.redirect_stdout(io.StringIO()) as s:\n        f(*a)\n    return s.getvalue()\n")

TRUTH = {}


def cases(space):
    """(expression, names of its mutable arguments) and the setup making them."""
    kd = base.kind(space)
    k, n = base.kn(space)
    a, b, p = hist.pick(space)
    setup = f"g = {base.ctor(space)}\n"
    names = []
    for nm, l in (("a", a), ("b", b), ("p", p)):
        setup += f"l{nm} = {list(l)}\ns{nm} = Schur({list(l)})\nc{nm} = LinearCombination('{S(l)}')\n"
        names += ["l" + nm, "s" + nm, "c" + nm]
    setup += f"cc = LinearCombination('{S(a)} + 2*q*{S(p)} - {S(b)}')\n"
    i = alg.generators(space)[-1][1]
    out = []
    for x in ("l", "s", "c"):
        out += [f"g.{m}({x}b, {x}p)" for m in ("mult", "qmult")]
        out += [f"g.{m}({x}b)" for m in ("giambelli", "qgiambelli", "toS", "qtoS", "dualize", "part2index", "miami_swap")]
        out += [f"g.type_swap({x}b, {k})", f"g.pieri({i}, {x}b)", f"g.qpieri({i}, {x}p)", f"g.pieri({alg.generators(space)[0][1]}, {x}a)"]
        if kd == "A":
            out += [f"g.qmult_rh({x}b, {x}p)"]
        else:
            out += [f"g.part2pair({x}b)", f"g.part2pair({x}p)"]
        if kd == "D" and x != "c":
            out += [f"g.schub_type({x}b)", f"g.schub_type({x}p)"]
    setup += "ix = [int(t) for t in str(g.part2index(lb))[2:-1].split(',')]\n"
    out += ["g.index2part(ix)"]
    if kd != "A":
        setup += "pr = [list(t) for t in g.part2pair(list(lb)).p]\npp = [list(t) for t in g.part2pair(list(lp)).p]\n"
        out += ["g.pair2part(pr)", "g.pair2part(pp)"]
    for f in ("giambelli", "qgiambelli", "toS", "qtoS", "dualize", "part2index"):
        out.append(f"g.{f}(cc)")
    out += ["g.mult(cc, sp)", "g.qmult(la, cc)", "g.qact(sa, cp)", "g.act(sa, lb)", "g.schub_classes()", "g.generators()", "g.point_class()",
            "g.get_type_data()", "g.clone().qmult(sb, sp)", "str(g)", "cc.schur_expansion()", "cb.schur_expansion()", "cc.list_schur_oprands()",
            "cc + cb", "cc - sb", "sb + cc", "cc * 2", "sb * sp", "sb + sp", "cc ** 2", "len(cc)", "cc.is_valid()", "cc.has_part_zero_padding()",
            "quiet(cc.draw_ascii_partition)", "unique_schur_list([sp, sb, sa, sb])", "LinearCombination(cc)", "LinearCombination(lb)", "Schur(sb)",
            "g._pieri(%d, lb, %d, %d)" % (i, k, n), "g._qpieri(%d, lp, %d, %d)" % (i, k, n)]
    if kd != "A":
        d = 1 if kd == "D" else 0
        out += [f"qcalc.pieri_set({abs(i)}, lb, {k}, {n}, {d})", f"qcalc.count_comps(la, lb, True, {k}, {d})"]
    return setup, out


def pure():
    setup = ("t1 = [4, 2, 2, 1]\nt2 = [3, 1, 0, 0]\nt3 = []\nt4 = [5, 3, 2]\nt5 = [2, 2]\nP1 = Partition([5, 4, 2])\nP2 = Partition([3, 1])\nS1 = Schur([3, 1])\n"
             "S2 = Schur([2, 1, 0])\n")
    out = []
    for t in ("t1", "t2", "t3", "t5"):
        out += [f"qcalc.part_clip({t})", f"qcalc.part_conj({t})", f"qcalc.part_gen({t})", f"qcalc.part_itr({t})", f"qcalc.part_len({t})",
                f"is_valid_part({t})", f"Partition({t}).is_in_range(3, 4)", f"Schur({t}).to_polinomial_str(3)", f"SchurPol(3, {t})", f"padding_right({t}, 0, 2)",
                f"Schur({t}).latex()", f"quiet(Schur({t}).print_partition)", f"quiet(yd, {t})", f"quiet(Partition({t}).draw)", f"partition_to_ascii({t})",
                f"embed_partition({t}, 5, 5)", f"Schur({t}).symbol()", f"str(Schur({t}))", f"hash(Schur({t}))", f"Schur({t}).has_part_zero_padding()",
                f"itr_kstrict({t}, 1)", f"skew_partition_height({t}, t1)", f"LinearCombination({t})", f"Schur({t}) < Schur(t1)",
                f"qcalc.part2pair_inner({t}, 2)", f"qcalc.type_swap_inner({t}, 2)", f"qcalc.part_star({t}, 4)", f"qcalc.part_tilde({t}, 2, 4)"]
    out += ["skew_partition_height(t5, t4)", "P1.remove_rim_hooks(5, (3, 3))", "P1.remove_rim_hooks(3, (2, 3))", "P2.remove_rim_hooks(9, (1, 1))",
            "P1.is_in_range(3, 5)", "str(P1)", "S1.latex_standalone()", "S1.plot_partition()[0].clear()", "S1.to_polinomial_str(2)", "S1.to_polinomial_str(3)",
            "S2.has_part_zero_padding()", "qcalc.pieri_fillA(t4, t4, [6, 5, 3], 0, 2)", "qcalc.part_itr_between([5, 3], [2, 1], [5, 4])",
            "qcalc.part2indexA_inner(t4, 5, 9)", "all_kstrict(1, 2, 3)"]
    return setup, out


ORDER = ["pure"] + [("Gr", 2, 4), ("IG", 2, 6), ("OG", 2, 7), ("OG", 3, 8), ("OG", 2, 8), ("OG", 3, 7), ("OG", 4, 8)]


def setup_of(what):
    return pure() if what == "pure" else cases(what)


def snap(x, depth=0):
    """Structure of an object, attribute by attribute."""
    t = type(x)
    if t in (int, str, bool, float, type(None)):
        return x
    if isinstance(x, (list, tuple)):
        return [t.__name__] + [snap(y) for y in x]
    if isinstance(x, dict):
        return [t.__name__] + [(repr(k), snap(v)) for k, v in x.items()]
    if t.__module__.startswith("schubertpy") and hasattr(x, "__dict__"):
        return [t.__name__] + [(k, snap(v)) for k, v in sorted(x.__dict__.items()) if not callable(v) and not k.startswith("__")]
    if t.__module__.startswith("sympy"):
        return str(x)
    return t.__name__


def spoil(x):
    """Change every list inside an argument or a result."""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        if x and isinstance(x[0], int):
            x[0] += 3
        x.append(11)
        return True
    if isinstance(x, tuple):
        return any([spoil(y) for y in x])
    if type(x).__name__ == "Schur":
        return spoil(x.p)
    if type(x).__name__ == "Partition":
        return spoil(x.partition)
    return False


def build(what):
    setup, exprs = setup_of(what)
    ns = {}
    exec(IMP + setup, ns)
    mutable = [n for n, v in ns.items() if isinstance(v, list) or type(v).__name__ in ("Schur", "LinearCombination", "Partition", "Grassmannian",
               "IsotropicGrassmannian", "OrthogonalGrassmannian")]
    return ns, exprs, mutable


def state(ns, mutable):
    # parameters of a Grassmannian as it reports them; its private attributes are its own affair
    out = {}
    for n in mutable:
        v = ns[n]
        if hasattr(v, "get_type_data"):
            out[n] = [str(v), list(v.get_type_data())]
        else:
            out[n] = snap(v)
    return out


def probes(what, expr, exprs):
    return list(dict.fromkeys([expr] + [e for e in exprs if any(x in e for x in (".qmult(l", "qpieri(", ".dualize(s", "classes()", "generators()", "point_class",
               "part_conj(t1", "SchurPol(3, t2", "symbol()", "g.giambelli(l", "part2index(l", "type_data", "all_kstrict"))][:12]))


def work(task, ctx):
    mode, what = task[:2]
    base.load()
    if mode == "truth":
        for e in task[2]:
            log = hist.Log()

            def alone(e=e):
                ns, _, _ = build(what)
                log.put(r=hist.run(e, ns))
            st = hist.fork(alone)
            out = log.take()
            ctx.samples.append(((what, e), out[0]["r"] if out and not st else ["no answer", st]))
        return
    hist.warm()
    log = hist.Log()
    if mode == "one":
        for e in task[2]:
            def child(e=e):
                ns, exprs, mutable = build(what)
                before = state(ns, mutable)
                try:
                    r = eval(e, ns)
                except Exception as ex:
                    r = ex
                after = state(ns, mutable)
                for n in mutable:
                    if before[n] != after[n]:
                        log.put(v=[e, f"changes its argument {n} from {before[n]} to {after[n]}"])
                # change what went in and what came out, ask again
                used = [n for n in mutable if n in e.replace("(", " ").replace(")", " ").replace(",", " ").replace(".", " ").split()]
                for n in used:
                    spoil(ns[n])
                spoil(r)
                keep = ns.get("g")
                setup, _ = setup_of(what)
                ns2 = dict(ns)
                exec(setup, ns2)
                if keep is not None:
                    ns2["g"] = keep
                for pr in probes(what, e, exprs):
                    x = hist.run(pr, ns2)
                    if x != TRUTH[(what, pr)]:
                        log.put(v=[e, f"after changing its arguments {used} and its result, {pr} gives {x}, should be {TRUTH[(what, pr)]}"])
                        break
                log.put(n=len(mutable) + len(probes(what, e, exprs)), e=e)
            st = hist.fork(child)
            if st:
                log.put(v=[e, f"the process ended with status {st}"])
    else:
        def root():
            ns, exprs, mutable = build(what)
            before = state(ns, mutable)
            results = []
            seq = exprs if mode == "forward" else exprs[::-1]
            for e in seq + seq:
                try:
                    r = eval(e, ns)
                except Exception as ex:
                    continue
                now = state(ns, mutable)
                if now != before:
                    d = [n for n in mutable if now[n] != before[n]]
                    log.put(v=[e, f"changes {d}: {[before[n] for n in d]} -> {[now[n] for n in d]}"])
                    return
                for e0, r0, s0 in results:
                    if snap(r0) != s0:
                        log.put(v=[e, f"changes the earlier result of {e0} from {s0} to {snap(r0)}"])
                        return
                results.append((e, r, snap(r)))
                log.put(n=len(mutable) + len(results), e=e)
        st = hist.fork(root)
        if st:
            log.put(v=[mode, f"the process ended with status {st}"])
    for x in log.take():
        if "n" in x:
            ctx.add(traces_validated_against_impl=x["n"], transitions=1)
            ctx.distinct((what, mode, x["e"]))
            ctx.sample(f"{what} {mode}: {x['e']}, {x['n']} objects and answers compared afterwards", 1)
        else:
            e, msg = x["v"]
            ctx.bad(f"{what} {mode} {e}", msg[:700], IMP + setup_of(what)[0] + f"# {msg[:300]}\nprint({e})\n")


def main(tier):
    base.load()
    rep = base.Report("C25", tier)
    order = list(ORDER)
    if tier != "quick":
        order += [("Gr", 3, 6), ("Gr", 1, 4), ("IG", 1, 4), ("IG", 3, 8), ("OG", 2, 9), ("OG", 4, 10), ("OG", 3, 10), ("OG", 1, 6), ("OG", 2, 6)]
    coll = base.Report("C25", tier)
    tt, ts = [], []
    for w in order:
        _, exprs = setup_of(w)
        exprs = list(dict.fromkeys(exprs))
        tt += [("truth", w, exprs[i::4]) for i in range(4)]
        ts += [("forward", w), ("backward", w)]
        ts += [("one", w, exprs[i::4]) for i in range(4)]
    coll.explore(work, tt)
    for k, r in coll.samples:
        TRUTH[k] = r
    fails = {k: r for k, r in TRUTH.items() if r[0] in ("raised", "no answer")}
    rep.extra["operations"] = len(TRUTH)
    rep.extra["operations_that_refuse"] = len(fails)
    rep.explore(work, ts)
    rep.extra["states"] = rep.nseen
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = "every operation with every kind of argument on the listed spaces; arguments and all earlier results compared after every operation; all lists spoiled, then 12 questions"
    rep.assumptions = ["Schur and Partition objects hold the list they are made from, as documented in the property"]
    if __import__("os").environ.get("MC_DEBUG"):
        print(fails)
    return rep.finish()
