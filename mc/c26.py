"""C26: an exception raised at every execution point of every operation, each
in its own process, followed by the same question and others."""
import json
import sys

from . import base, hist, tracer

KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "RecursionError": RecursionError, "MemoryError": MemoryError}
TRUTH = {}


def interrupted(op, ns, at, exc):
    """Run op and raise exc at its point number `at`.
    Returns (struck, what came out)."""
    n = [0]

    def point(kind, code, where):
        n[0] += 1
        if n[0] == at + 1:
            raise exc("injected")
    struck = False
    try:
        sys.settrace(tracer.tracer(point))
        try:
            r = eval(op, ns)
        finally:
            sys.settrace(None)
        out = ["returned", hist.canon(r)]
    except exc as e:
        out = ["raised", str(e)]
    except BaseException as e:
        out = ["raised other", type(e).__name__ + ": " + str(e)[:80]]
    return n[0] > at, out


def probes(op):
    """Questions asked after the interruption: the same one, the same object,
    its clones, objects with the same parameters."""
    obj = op.split(".")[0]
    out = [op]
    nm = hist.names_of()
    sp = nm[obj]
    same = [n for n in nm if n != obj and (nm[n] == sp or base.kn(nm[n]) == base.kn(sp))]
    out += hist.ops_of(obj, sp, False)
    out += [f"{obj}.clone().qmult({', '.join(repr(hist.S(x)) for x in hist.pick(sp)[1:])})", f"{obj}.get_type_data()"]
    if base.kind(sp) == "D":
        out += [o for o in hist.ops_of(obj, sp, True) if "qpieri(" in o]
    for n in same[:2]:
        out += hist.ops_of(n, nm[n], False)[:1]
    return list(dict.fromkeys(out))


def work(task, ctx):
    what, op = task[:2]
    if what == "truth":
        for o in op:
            ctx.samples.append((o, hist.fresh(o)))
        return
    pts, chunk, exc, before = task[2:]
    ns = hist.namespace()
    log = hist.Log()
    pr = probes(op)
    for at in chunk:
        def child(at=at):
            for b in before:
                hist.run(b, ns)
            struck, out = interrupted(op, ns, at, KINDS[exc])
            if not struck:
                log.put(miss=1)
                return
            if out != ["raised", "injected"]:
                log.put(v=["the exception", f"does not reach the caller: {out}"], at=at)
            for o in pr:
                r = hist.run(o, ns)
                if r != TRUTH[o]:
                    log.put(v=[o, f"gives {r}, should be {TRUTH[o]}"], at=at)
                    break
            log.put(n=len(pr), at=at)
        st = hist.fork(child)
        if st:
            log.put(v=["the process", f"ends with status {st} while or after being interrupted"], at=at)
    for e in log.take():
        if "n" in e:
            ctx.add(evaluations=e["n"])
            ctx.distinct((op, e["at"], exc, str(before)))
            ctx.sample(f"{exc} at {pts[e['at']]} of {op}: {e['n']} questions asked afterwards", 1)
        elif "miss" in e:
            ctx.add(points_not_reached=1)
        else:
            k, f, w = pts[e["at"]] if e["at"] < len(pts) else ("?", "?", 0)
            rp = hist.decl() + ("".join(f"{b}\n" for b in before)) + \
                f"# {exc} is raised at point {e['at']} of the next call: {k} in {f}, {w}\n" + REPLAY % (tracer.DIRS, e["at"] + 1, exc, op, e["v"][0])
            ctx.bad(f"{op} {exc} at {k} {f}:{w}", f"then {e['v'][0]} {e['v'][1]}", rp)


REPLAY = '''import sys
sys.path.insert(0, '/verif')
from mc import c26   # library in %s
AT, EXC, OP = %s, %s, %r
print(c26.interrupted(OP, globals(), AT - 1, EXC))
print(%s)
'''


def operations(tier):
    nm = hist.names_of()
    out = []
    for n, s in nm.items():
        if n in hist.EXTRA:
            continue
        if tier == "quick":
            sel = {"gr24": 99, "og38": 0, "ig26": 0, "og28": 0, "og27": 0, "og37": 0}.get(n)
            if sel is None:
                continue
            o = hist.ops_of(n, s, True)
            if n == "gr24":
                out += [x for x in o if not any(y in x for y in ("mult(", "toS", "get_type", "str(", "giambelli('")) or "qmult_rh" in x or ".qmult('S[2]', 'S[2,2]'" in x]
            else:
                out += [x for x in o if ".qpieri(" in x or ".dualize" in x or ".schub_classes" in x][:4]
                out += [o[0]] if n == "og37" else []
        else:
            out += hist.ops_of(n, s, True)
    return list(dict.fromkeys(out))


def main(tier):
    base.load()
    rep = base.Report("C26", tier, level="fault_enumeration")
    ops = operations(tier)
    allops = list(dict.fromkeys(ops + [p for o in ops for p in probes(o)]))
    coll = base.Report("C26", tier)
    coll.explore(work, [("truth", allops[i::24]) for i in range(24)])
    for o, r in coll.samples:
        TRUTH[o] = r
    # points of every operation
    ns = hist.namespace()
    ts, total, chosen = [], 0, 0
    for op in ops:
        log = hist.Log()

        def rec():
            p = tracer.record(op, ns)
            with open(log.path, "w") as f:
                json.dump(p, f)
        hist.fork(rec)
        with open(log.path) as f:
            pts = [tuple(x) for x in json.load(f)]
        log.take2()
        total += len(pts)
        runs = []
        if tier == "quick":
            runs.append(("KeyboardInterrupt", tracer.choose(pts, 1, 1), []))
            runs.append(("RecursionError", [i for i in tracer.choose(pts, 1, 1) if pts[i][0] == "call"], []))
        else:
            runs.append(("KeyboardInterrupt", tracer.choose(pts, None if len(pts) < 4000 else 6, 3), []))
            runs.append(("RecursionError", [i for i in tracer.choose(pts, 12, 6) if pts[i][0] == "call"], []))
            runs.append(("MemoryError", tracer.choose(pts, 1, 1), []))
            warm = [p for p in probes(op)[1:4]]
            runs.append(("KeyboardInterrupt", tracer.choose(pts, 2, 1), warm))
        for exc, at, before in runs:
            chosen += len(at)
            for i in range(0, len(at), 40):
                ts.append(("point", op, pts, at[i:i + 40], exc, before))
    rep.explore(work, ts)
    rep.extra["operations"] = len(ops)
    rep.extra["points_of_the_operations"] = total
    rep.extra["distinct_nontrivial"] = rep.nseen
    rep.extra["rule"] = "one operation interrupted at one execution point by one exception; non-trivial if the point was reached and the exception struck; evaluations counts the questions asked after the interruptions"
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = ("KeyboardInterrupt at the first and last occurrence of every line, call, return and store; RecursionError at every kind of call"
                          if tier == "quick" else
                          "KeyboardInterrupt at every point (operations with more than 4000 points: first 6 and last 3 occurrences of each line), "
                          "RecursionError at calls, MemoryError at every line, and again after earlier questions")
    rep.assumptions = ["an interruption strikes between bytecode lines of the library, at calls, returns, or at stores; not inside sympy"]
    return rep.finish()
