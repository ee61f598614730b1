"""C13: every history of operations up to a depth, each in its own process."""
import json
import os
import subprocess
import sys

from . import alg, base, hist


def alphabet(tier, small):
    """Operations of the histories: (operations with an answer, failing ones)."""
    out = []
    quick = tier == "quick"
    for n, s in hist.names_of().items():
        extra = n in hist.EXTRA
        o = hist.ops_of(n, s, True)
        if small:
            if n in ("gr24", "gr27", "ig26", "og27", "og38", "og38c", "og28") or not quick and not extra:
                out += [x for x in hist.ops_of(n, s, False) if "schub_classes" not in x and "dualize" not in x][:1 if quick and extra else 2 if quick else 4]
                if not extra and base.kind(s) in "AD":
                    out.append(hist.ops_of(n, s, False)[-1])
        elif not quick:
            out += o
        elif n in ("gr24", "og38"):
            out += o
        elif extra:
            out += o[:4]
        else:
            out += o[:7]
    bad = hist.BAD if not small else hist.BAD[:2]
    return list(dict.fromkeys(out)), bad


def class_ops(n, space, c):
    """Questions about one class, whose answers go through the same code with
    other parameters."""
    gens = alg.generators(space)
    p, one = base.S(alg.model(space).labels[-1]), base.S(gens[0][0])
    x = base.S(c)
    la = list(c)
    o = [f"{n}.giambelli('{x}')", f"{n}.qgiambelli('{x}')", f"{n}.toS('{x}*{one}')", f"{n}.qtoS('{x}*{one}')",
         f"{n}.mult('{x}', '{one}')", f"{n}.qmult('{x}', '{p}')", f"{n}.dualize('{x}')", f"{n}.part2index('{x}')",
         f"{n}.act('{base.S(gens[-1][0])}', '{x}')", f"{n}.qact('{base.S(gens[-1][0])}', '{x}')"]
    for g, i in gens[:1] + gens[-1:]:
        o += [f"{n}.pieri({i}, '{x}')", f"{n}.qpieri({i}, '{x}')"]
    k = base.kind(space)
    if k == "A":
        o += [f"{n}.qmult_rh('{x}', '{p}')"]
    else:
        o += [f"{n}.part2pair('{x}')"]
    if k == "D":
        o += [f"{n}.miami_swap('{x}')", f"{n}.type_swap('{x}', {base.kn(space)[0]})", f"{n}.schub_type({la})"]
    return list(dict.fromkeys(o))


def twin_ops(space):
    """Questions to a new object for this space, one or two of every kind."""
    c = base.ctor(space)
    m = alg.model(space)
    gens = alg.generators(space)
    pt, mid = base.S(m.labels[-1]), base.S(m.labels[len(m.labels) // 2])
    (a, i), (b, j) = gens[0], gens[-1]
    o = [f"str({c})", f"{c}.get_type_data()", f"{c}.degree_q()", f"{c}.schub_classes()", f"{c}.generators()", f"{c}.point_class()",
         f"{c}.clone().get_type_data()", f"{c}.part2index('{pt}')", f"{c}.dualize('{mid}')", f"{c}.pieri({i}, '{mid}')",
         f"{c}.qpieri({j}, '{pt}')", f"{c}.qpieri({i}, '{mid}')", f"{c}.qgiambelli('{mid}')", f"{c}.qmult('{base.S(a)}', '{pt}')",
         f"{c}.miami_swap('{mid}')", f"{c}.type_swap('{mid}', {base.kn(space)[0]})"]
    if base.kind(space) == "A":
        o.append(f"{c}.qmult_rh('{pt}', '{mid}')")
    else:
        o.append(f"{c}.part2pair('{mid}')")
    return o


def twin_spaces(tier):
    """One space of every type for each k and n."""
    out = []
    for n in range(1, 5 if tier == "quick" else 6):
        for k in range(0, n + 1):
            out += [s for s in (("Gr", n - k, n), ("IG", n - k, 2 * n), ("OG", n - k, 2 * n + 1), ("OG", n + 1 - k, 2 * n + 2))
                    if alg.generators(s) and len(alg.model(s).labels) <= (40 if tier == "quick" else 90)]
    return out


CLASS_SPACES = {"quick": ["gr24", "ig26", "og27", "og38"], "thorough": list(hist.SPACES)}

TRUTH = {}


def step(ns, h, op, log, ctx_key=None):
    r = hist.run(op, ns)
    want = TRUTH.get(op)
    if want is not None and r != want:
        log.put(v=[list(h), op, r, want])
    return r


def extend(ns, h, ops, bad, depth, log, last=None):
    """All continuations of the history h (already executed in ns)."""
    n = 0
    for op in ops + bad if depth > 1 else last or ops:
        def child(op=op):
            step(ns, h, op, log)
            if depth > 1:
                extend(ns, h + [op], ops, bad, depth - 1, log, last)
        st = hist.fork(child, 900 if depth > 1 else None)
        n += 1
        if st:
            log.put(v=[list(h), op, ["no answer", st], TRUTH.get(op)])
    log.put(n=n)


def replay(h, op, want):
    out = [hist.decl()]
    for x in h:
        out.append(f"try:\n    {x}\nexcept BaseException:\n    pass")
    out.append(f"print('got     ', {op})\nprint('expected (fresh process)', {want!r})")
    return "\n".join(out)


def work(task, ctx):
    what = task[0]
    if what == "truth":
        for op in task[1]:
            ctx.samples.append((op, hist.fresh(op)))
        return
    if what == "seed":
        env = dict(os.environ, PYTHONHASHSEED=str(task[1]), MC_REPO=base.REPO)
        p = subprocess.run([sys.executable, "-B", "-m", "mc.c13", "dump"], input=json.dumps(task[2]), text=True,
                           capture_output=True, env=env, cwd=base.VERIF)
        if p.returncode:
            raise RuntimeError(p.stderr[-800:])
        for op, r in json.loads(p.stdout).items():
            ctx.add(traces_validated_against_impl=1)
            if r != TRUTH[op]:
                ctx.bad(f"hash seed {task[1]}: {op}", f"gives {r}, with seed 0 {TRUTH[op]}",
                        f"# PYTHONHASHSEED={task[1]}\n" + hist.decl() + f"print({op})")
        return
    if what == "class":
        # every ordered pair of questions about one class
        log = hist.Log()
        ns = hist.namespace()
        for first in task[1]:
            def root(first=first):
                step(ns, [], first, log)
                extend(ns, [first], task[1], [], 1, log)
            if hist.fork(root, base.TASK_LIMIT):
                log.put(v=[[], first, ["no answer"], TRUTH.get(first)])
        collect(log.take(), f"class {task[1][0]}", ctx)
        return
    if what == "twins":
        # all questions about one space, then all questions about another
        log = hist.Log()
        ns = hist.namespace()
        _, x, spaces = task

        def root():
            h = twin_ops(x)
            for op in h:
                step(ns, [], op, log)
            for y in spaces:
                def child(y=y):
                    for op in twin_ops(y):
                        step(ns, h, op, log)
                    log.put(n=len(twin_ops(y)))
                if hist.fork(child, 900):
                    log.put(v=[h, str(y), ["no answer"], None])
        if hist.fork(root, base.TASK_LIMIT):
            log.put(v=[[], str(x), ["no answer"], None])
        collect(log.take(), f"twins of {x}", ctx)
        return
    _, first, ops, bad, depth, last = task
    log = hist.Log()
    ns = hist.namespace()
    if what == "tree":
        def root():
            step(ns, [], first, log)
            extend(ns, [first], ops, bad, depth - 1, log, last)
        st = hist.fork(root, base.TASK_LIMIT)
    else:
        # one long history: all operations in order, starting at `first`,
        # twice over (the second time everything is a repetition)
        def root():
            i = (ops + bad).index(first)
            seq = (ops + bad)[i:] + (ops + bad)[:i]
            if what == "reverse":
                seq.reverse()
            h = []
            for op in seq + seq:
                if op in TRUTH:
                    step(ns, h, op, log)
                else:
                    hist.run(op, ns)
                h.append(op)
            log.put(n=len(h))
        st = hist.fork(root, base.TASK_LIMIT)
    if st:
        ctx.bad(f"history {what} {first}", f"the process ended with status {st}")
    collect(log.take(), f"{what}: histories starting with {first}", ctx)


def collect(out, name, ctx):
    for e in out:
        if "n" in e:
            ctx.add(traces_validated_against_impl=e["n"], transitions=e["n"], states=1)
            ctx.sample(f"{name}, {e['n']} answers equal those of a fresh process", 1)
        else:
            h, op, r, want = e["v"]
            show = h if len(h) < 6 else h[:2] + ["..."] + h[-3:]
            ctx.bad("; ".join(h[-8:]) + f" => {op}", f"after {show}: {op} gives {r}, in a fresh process {want}", replay(h, op, want))


def main(tier):
    base.load()
    rep = base.Report("C13", tier)
    big, bad = alphabet(tier, False)
    small, sbad = alphabet(tier, True)
    groups = [class_ops(n, hist.SPACES[n], c) for n in CLASS_SPACES[tier] for c in alg.model(hist.SPACES[n]).labels
              if tier != "quick" or n != "og38" or sum(c) % 3 == 1]
    # the same questions to short-lived objects of different types with the
    # same parameters (one may get the address of another)
    for names in ((("ig26", "og27", "og38"),) if tier == "quick" else (("ig26", "og27", "og38"), ("ig36", "og37", "og48"), ("og28", "ig16"), ("gr24", "gr25", "gr23"))):
        temp = []
        for n in names:
            s = hist.SPACES[n]
            for c in [x for x in alg.model(s).labels if x in ((2,), (3, 1), (3,), (2, 1), (1, 1), (1,))][1:3 if tier == "quick" else None]:
                temp += class_ops(base.ctor(s), s, c)[:14:2 if tier == "quick" else 1] + [f"{base.ctor(s)}.qpieri(1, '{base.S(c)}')"]
        groups.append([f"collected({o})" for o in dict.fromkeys(temp)])
    per_class = [o for g in groups for o in g]
    twins = twin_spaces(tier)
    allops = list(dict.fromkeys(big + small + per_class + [o for s in twins for o in twin_ops(s)]))
    # oracle: every operation alone in a fresh process
    coll = base.Report("C13", tier)
    coll.explore(work, [("truth", c) for c in [allops[i::24] for i in range(24)]])
    for op, r in coll.samples:
        TRUTH[op] = r
        if r[0] in ("raised", "no answer", "no value"):
            rep.viol.append((op, f"fails in a fresh process: {r}", hist.decl() + f"print({op})"))
    ts = []
    last = big
    if tier == "quick":
        # questions asked at the end: those whose answers go through caches and parameters
        last = [o for o in big if any(x in o for x in (".qmult(", ".qpieri(", ".pieri(", ".qmult_rh(", ".dualize(", ".mult(", "type_data"))
                and (o.split(".")[0] not in hist.EXTRA or ".qmult(" in o)]
    for s in (["0", "1", "2", "77"] if tier == "quick" else [str(i) for i in range(24)]):
        ts.append(("seed", s, allops))
    for first in big + bad:
        ts.append(("tree", first, big, bad, 2, last))
    for first in (small + sbad):
        ts.append(("tree", first, small, sbad, 3, None))
    for g in groups:
        ts.append(("class", g))
    for x in twins:
        ts.append(("twins", x, twins))
    # the questions about classes in one long history: class by class, and
    # question by question
    turned = sorted(per_class, key=lambda o: o.replace(", ", ",").rsplit(".", 1)[1].split("(")[0])
    for order in (per_class, turned):
        for first in order[::320 if tier == "quick" else 12]:
            ts.append(("sweep", first, order, [], 0, None))
            ts.append(("reverse", first, order, [], 0, None))
    for first in (big + bad)[::16 if tier == "quick" else 1]:
        ts.append(("sweep", first, big, bad, 0, None))
        ts.append(("reverse", first, big, bad, 0, None))
    rep.explore(work, ts)
    rep.extra["operations"] = len(big) + len(bad)
    rep.extra["histories_depth2"] = (len(big) + len(bad)) * len(last)
    rep.extra["histories_depth2_one_class"] = sum(len(g) ** 2 for g in groups)
    rep.extra["ordered_pairs_of_spaces"] = len(twins) ** 2
    rep.extra["histories_depth3"] = (len(small) + len(sbad)) ** 2 * len(small)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = (f"all histories of length 2 over {len(big)}+{len(bad)} operations on {len(hist.names_of())} objects, "
                          f"ending in {len(last)} of them, of length 3 over {len(small)}+{len(sbad)}, over all questions about each class of {', '.join(CLASS_SPACES[tier])}, all questions about one space and then about another for all ordered pairs of {len(twins)} spaces, rotations of all operations twice; several hash seeds")
    rep.assumptions = ["the answer in a fresh process is the reference; its correctness is the subject of the other checks"]
    return rep.finish()


if __name__ == "__main__":
    base.load()
    ns = hist.namespace()
    print(json.dumps({op: hist.run(op, ns) for op in json.load(sys.stdin)}))
