"""C14: threads on shared objects under a controlled scheduler.

Every thread is traced; only the thread that holds the turn runs, and the turn
changes hands exactly at the points of the schedule.  Every schedule with one
preemption (at each execution point of the first thread) is run, schedules with
two preemptions over reduced sets of points, each in its own process."""
import itertools
import json
import sys
import threading
import time

from . import alg, base, hist, tracer

TRUTH = {}
STALL = 0.3       # seconds without progress before a waiting thread is let go as well
HANG = 90.0


class Scheduler:
    """schedule: list of (thread, number of points it may pass); afterwards the
    unfinished threads run to completion in order."""

    def __init__(self, ops, ns, schedule):
        self.ops, self.ns = ops, ns
        self.schedule = list(schedule)
        self.turn = [threading.Semaphore(0) for _ in ops]
        self.done = [False] * len(ops)
        self.out = [None] * len(ops)
        self.free = False
        self.progress = 0
        self.current = None
        self.left = None
        self.switches = 0
        self.finished = threading.Event()

    def next(self):
        """Give the turn to the next thread of the schedule."""
        while self.schedule:
            t, n = self.schedule.pop(0)
            if not self.done[t]:
                self.current, self.left = t, n
                self.switches += 1
                self.turn[t].release()
                return
        for t, d in enumerate(self.done):
            if not d:
                self.current, self.left = t, None
                self.turn[t].release()
                return
        self.finished.set()

    def point(self, me):
        self.progress += 1
        if self.free or me != self.current:
            return
        if self.left is not None:
            if self.left == 0:
                self.next()
                self.turn[me].acquire()
                if self.free or self.left is None:
                    return
            self.left -= 1

    def body(self, me):
        self.turn[me].acquire()
        sys.settrace(tracer.tracer(lambda k, c, w: self.point(me)))
        try:
            r = eval(self.ops[me], self.ns)
        except BaseException as e:
            sys.settrace(None)
            self.out[me] = ["raised", type(e).__name__, str(e)[:100]]
        else:
            sys.settrace(None)
            self.out[me] = ("value", r)
        self.done[me] = True
        self.progress += 1
        if self.current == me or self.free:
            self.next()

    def run(self):
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.ops))]
        for t in ths:
            t.start()
        self.next()
        seen, since, start = self.progress, time.time(), time.time()
        while not self.finished.wait(0.1):
            now = time.time()
            if self.progress != seen:
                seen, since = self.progress, now
            elif not self.free and now - since > STALL:
                # the running thread waits for one that is held back (a lock):
                # let everybody run
                self.free = True
                for t in self.turn:
                    t.release()
                since = now
            if now - since > HANG:
                return None
            if self.free and all(self.done):
                break
        res = []
        for o in self.out:
            res.append(hist.canon(o[1]) if isinstance(o, tuple) else o)
        return res


def probes(ops):
    nm = hist.names_of()
    out = list(dict.fromkeys(ops))
    for o in dict.fromkeys(x.split(".")[0].split("(")[-1] for x in ops):
        if o in nm:
            out += hist.ops_of(o, nm[o], False)[2:3] + [f"{o}.get_type_data()"]
    return list(dict.fromkeys(out))


def work(task, ctx):
    what, ops = task[:2]
    if what == "truth":
        for o in ops:
            ctx.samples.append((o, hist.fresh(o)))
        return
    ops, schedules, before = task[1:]
    ns = hist.namespace()
    log = hist.Log()
    pr = probes(ops)
    for sch in schedules:
        def child(sch=sch):
            for b in before:
                hist.run(b, ns)
            s = Scheduler(ops, ns, sch)
            res = s.run()
            log.put(n=len(ops) + len(pr), sw=s.switches, free=int(s.free), st=s.progress)
            if res is None:
                log.put(v=["deadlock", "the threads never finish", ""], s=sch)
                return
            for o, r in zip(ops, res):
                if r != TRUTH[o]:
                    log.put(v=[o, r, TRUTH[o]], s=sch)
                    return
            for o in pr:
                r = hist.run(o, ns)
                if r != TRUTH[o]:
                    log.put(v=["afterwards " + o, r, TRUTH[o]], s=sch)
                    return
        st = hist.fork(child, 240)
        if st:
            log.put(v=["the process", f"ended with status {st}", ""], s=sch)
    for e in log.take():
        if "n" in e:
            ctx.add(schedules=1, states=e["st"], transitions=e["sw"], released_after_blocking=e["free"], traces_validated_against_impl=e["n"])
            ctx.sample(f"threads {ops}, after {before}: schedules {schedules[:2]} give the answers of a single thread", 1)
        else:
            rp = hist.decl() + "import sys\nsys.path.insert(0, '/verif')\nfrom mc import c14\n" + \
                f"# each (t, n) lets thread t pass n execution points\nprint(c14.Scheduler({ops!r}, globals(), {e['s']!r}).run())\n"
            ctx.bad(f"threads {ops} schedule {e['s']}", f"{e['v'][0]}: gives {e['v'][1]}, alone {e['v'][2]}", rp)


PAIRS = [
    # the same question on the same object
    ["gr24.qmult('S[2]', 'S[2,2]')"] * 2,
    ["gr24.qmult_rh('S[2]', 'S[2,2]')", "gr24.qmult('S[2]', 'S[2,2]')"],
    ["gr24.qmult_rh('S[2]', 'S[2,2]')", "gr24.qmult_rh('S[1]', 'S[2,1]')"],
    ["gr24.qpieri(2, 'S[2,2]')", "gr24.dualize('S[2]')"],
    ["og38.qpieri(1, 'S[4,3,2]')", "og38.qpieri(-1, 'S[4,3,2]')"],
    # same parameters in different types
    ["og38.qpieri(4, 'S[4,3,2]')", "og27.qpieri(4, 'S[4,3]')"],
    ["ig26.qpieri(4, 'S[4,3]')", "og27.qpieri(4, 'S[4,3]')"],
    ["ig26.schub_classes()", "og38.schub_classes()"],
    ["og38.part2pair('S[3,1,1]')", "og38.pair2part('S[[2],[2]]')"],
    ["og48.qpieri(3, 'S[3,2,1]')", "og37.qpieri(3, 'S[3,2,1]')"],
    ["og28.qpieri(2, 'S[5,4]')", "og28.type_swap('S[3,2]', 2)"],
    # an object and its clone; creation of objects
    ["gr24.clone().qmult('S[2]', 'S[2,1]')", "gr24.qmult('S[2]', 'S[2,1]')"],
    ["OrthogonalGrassmannian(3, 8).qpieri(2, 'S[3,2]')", "IsotropicGrassmannian(2, 6).pieri(2, 'S[3,2]')"],
    ["og38.qgiambelli('S[2,1]')", "og38.giambelli('S[2,1]')"],
    # pure data types
    ["LinearCombination('2*S[2,1] - q*S[1]').schur_expansion()", "LinearCombination('S[1]') * LinearCombination('S[2]')"],
    ["Schur([2, 1]).to_polinomial_str(2)", "Schur([2]).to_polinomial_str(3)"],
]
TRIPLES = [
    ["gr24.qpieri(2, 'S[2,2]')", "gr24.qmult_rh('S[2]', 'S[1]')", "gr24.pieri(1, [2])"],
    ["og38.qpieri(1, 'S[4,3,2]')", "og27.qpieri(4, 'S[4,3]')", "ig26.qpieri(4, 'S[4,3]')"],
]
MORE = [
    ["og38.qmult('S[3,1,1]', 'S[4,3,2]')", "og38.qmult('S[4,3,2]', 'S[3,1,1]')"],
    ["ig26.qmult('S[3,1]', 'S[4,3]')", "og27.qmult('S[3,1]', 'S[4,3]')"],
    ["og28.qmult('S[3,2]', 'S[3]')", "og28.qmult('S[2]', 'S[3,2]')"],
    ["gr24.toS('S[1]*S[2]')", "gr24.qtoS('S[1]*S[2]')"],
    ["gr25.qmult_rh('S[3]', 'S[3,3]')", "gr25b.qmult('S[3]', 'S[3,3]')"],
    ["og38c.qmult('S[2]', 'S[2,1]')", "og38.qmult('S[2]', 'S[2,1]')"],
    ["MultTable(gr23).to_matrix()", "QMultTable(gr23).to_matrix()"],
    ["og37.qmult('S[3]', 'S[3,2,1]')", "ig36.qmult('S[3]', 'S[3,2,1]')"],
    ["og410.qpieri(5, 'S[5,4,3,2]')", "og410.qpieri(-1, 'S[5,4,3,2]')"],
]


def kinds(n):
    """One question of each kind to the object called n, about classes for which
    the classical and the quantum answers differ."""
    sp = hist.names_of()[n]
    M = alg.model(sp)
    g = [l for l, _ in alg.generators(sp)]
    i = dict(alg.generators(sp))
    p, m, t = base.S(M.labels[-1]), base.S(M.labels[-2]), base.S(g[-1])
    o = [f"{n}.pieri({i[g[-1]]}, '{m}')", f"{n}.qpieri({i[g[-1]]}, '{m}')", f"{n}.act('{t}', '{p}')", f"{n}.qact('{t}', '{p}')",
         f"{n}.giambelli('{p}')", f"{n}.qgiambelli('{p}')", f"{n}.mult('{m}', '{t}')", f"{n}.qmult('{m}', '{t}')",
         f"{n}.toS('{t}*{t}')", f"{n}.qtoS('{t}*{t}')", f"{n}.dualize('{m}')", f"{n}.part2index('{p}')"]
    k = base.kind(sp)
    o.append(f"{n}.qmult_rh('{m}', '{t}')" if k == "A" else f"{n}.part2pair('{m}')")
    return o


def kind_pairs(tier):
    out = [list(c) for c in itertools.combinations(kinds("gr24"), 2)]
    for n in ("ig26", "og38") if tier == "quick" else ("ig26", "og27", "og38", "og28", "og48", "gr25"):
        ks = kinds(n)
        if tier == "quick":
            # each kind against the other version of it and against products
            out += [[ks[2 * j], ks[2 * j + 1]] for j in range(5)] + [[ks[7], ks[0]], [ks[6], ks[5]], [ks[10], ks[11]], [ks[12], ks[11]]]
        else:
            out += [list(c) for c in itertools.combinations(ks, 2)]
    out += [[a, b] for a, b in zip(kinds("ig26")[:8:1], kinds("og27")[:8])]
    return out


def main(tier):
    base.load()
    rep = base.Report("C14", tier)
    quick = tier == "quick"
    sets = PAIRS + TRIPLES + ([] if quick else MORE)
    kp = kind_pairs(tier)
    allops = list(dict.fromkeys(o for s in sets + kp for p in [probes(s)] for o in s + p))
    coll = base.Report("C14", tier)
    coll.explore(work, [("truth", allops[i::16]) for i in range(16)])
    for o, r in coll.samples:
        TRUTH[o] = r
        if r[0] in ("raised", "no answer", "no value"):
            rep.viol.append((o, f"fails alone: {r}", hist.decl() + f"print({o})"))
    ns = hist.namespace()
    points = {}
    for o in dict.fromkeys(x for s in sets + kp for x in s):
        log = hist.Log()

        def rec():
            with open(log.path, "w") as f:
                json.dump(tracer.record(o, ns), f)
        hist.fork(rec)
        with open(log.path) as f:
            points[o] = [tuple(x) for x in json.load(f)]
        log.take2()
    ts, n1, n2 = [], 0, 0

    def put(ops, sch, before=()):
        for c in base_chunks(sch, 30):
            ts.append(("run", ops, c, list(before)))

    INF = None
    for ops in sets:
        # one preemption: thread t stops at a point, the other one runs through
        order = [(a, b) for a in range(len(ops)) for b in range(len(ops)) if a != b]
        if len(ops) == 2 and ops[0] == ops[1]:
            order = order[:1]
        for a, b in order:
            if quick and len(ops) == 3 and b != (a + 1) % 3:
                continue
            at = tracer.choose(points[ops[a]], *((1, 0) if quick else (None, 0) if len(points[ops[a]]) < 3000 else (4, 2)))
            if quick:
                at = [i for i in at if points[ops[a]][i][0] != "return"]
                if len(ops) == 3:
                    at = reduced(points[ops[a]], 40)
            sch = [[(a, i), (b, INF)] for i in at]
            n1 += len(sch)
            put(ops, sch)
            if not quick and len(ops) == 2:
                put(ops, [[(a, i), (b, INF)] for i in tracer.choose(points[ops[a]], 1, 0)], [x for x in probes(ops) if x not in ops][:2])
            # two preemptions: a stops, b stops, a runs through, b goes on
            pa = reduced(points[ops[a]], 9 if quick else 60)
            pb = reduced(points[ops[b]], 9 if quick else 60)
            sch = [[(a, i), (b, j), (a, INF)] for i in pa for j in pb]
            if len(ops) == 3:
                c = 3 - a - b
                sch = [[(a, i), (b, j), (c, INF)] for i in pa[::2] for j in pb[::2]]
            n2 += len(sch)
            put(ops, sch)
    nk = 0
    for ops in kp:
        for a, b in ((0, 1), (1, 0)):
            at = shared(points[ops[a]], 8 if quick else 60)
            sch = [[(a, i), (b, INF)] for i in at]
            nk += len(sch)
            put(ops, sch)
    rep.explore(work, ts)
    rep.extra["pairs_of_kinds"] = len(kp)
    rep.extra["schedules_pairs_of_kinds"] = nk
    rep.extra["thread_sets"] = len(sets)
    rep.extra["schedules_one_preemption"] = n1
    rep.extra["schedules_two_preemptions"] = n2
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = ("one preemption at " + ("the first occurrence of every line, call and store" if quick else "every execution point (operations over 3000 points: first 4 and last 2 occurrences of each)") +
                          " of either thread; two preemptions over all pairs from a reduced set of points; three threads likewise; "
                           "one preemption after the stores and at calls for all pairs of kinds of questions to one object")
    rep.assumptions = ["a thread can lose control between lines, at calls, returns and stores to shared state in the library's files; sympy itself runs uninterrupted"]
    return rep.finish()


def reduced(pts, n):
    """At most n points: stores and calls first, spread over the execution."""
    first = tracer.choose(pts, 1, 0)
    good = [i for i in first if pts[i][0] == "store"] + [i for i in first if pts[i][0] == "call"]
    if len(good) > n:
        good = [good[i * len(good) // n] for i in range(n)]
    return sorted(good)


def shared(pts, n):
    """Points after each store (first and last occurrence) and n calls."""
    first = tracer.choose(pts, 1, 1)
    st = [min(i + 1, len(pts) - 1) for i in first if pts[i][0] == "store" and not pts[i][1].endswith("__init__")]
    if len(st) > 2 * n:
        st = [st[i * len(st) // (2 * n)] for i in range(2 * n)]
    ca = [i for i in tracer.choose(pts, 1, 0) if pts[i][0] == "call"]
    if len(ca) > n:
        ca = [ca[i * len(ca) // n] for i in range(n)]
    return sorted(set(st + ca))


def base_chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]
