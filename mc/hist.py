"""Operations as text over a fixed set of live objects, their canonical results,
and fork-based exploration of histories.  Shared by C13, C14, C25, C26."""
import gc
import json
import os
import signal
import sys
import tempfile
import time

from . import alg, base, poly
from .base import S

# Objects that share (k, n) across types, share it with the larger Grassmannian
# used inside qmult_rh, or are equal to one another.
SPACES = {
    "gr24": ("Gr", 2, 4),     # qmult_rh works in Gr(2,7)
    "gr27": ("Gr", 2, 7),
    "gr23": ("Gr", 2, 3),     # (k,n) = (1,3)
    "gr25": ("Gr", 2, 5),
    "ig26": ("IG", 2, 6),     # (1,3)
    "og27": ("OG", 2, 7),     # (1,3)
    "og38": ("OG", 3, 8),     # (1,3)
    "og37": ("OG", 3, 7),     # (0,3)
    "og48": ("OG", 4, 8),     # (0,3)
    "ig36": ("IG", 3, 6),     # (0,3)
    "og28": ("OG", 2, 8),     # (2,3)
    "ig16": ("IG", 1, 6),     # (2,3)
    "og410": ("OG", 4, 10),   # (1,4)
}


def decl(names=None):
    """Python source creating the objects."""
    out = ["import gc\ndef collected(r):\n    gc.collect()\n    return r",
           "from schubertpy import *", "from schubertpy.schur import Schur", "from schubertpy.lc import LinearCombination"]
    for n, s in SPACES.items():
        if names is None or n in names:
            out.append(f"{n} = {base.ctor(s)}")
    for n, (o, how) in EXTRA.items():
        if names is None or n in names:
            out.append(f"{n} = {how}")
    return "\n".join(out) + "\n"


EXTRA = {
    "gr25b": ("gr25", "Grassmannian(2, 5)"),
    "og38b": ("og38", "OrthogonalGrassmannian(3, 8)"),
    "og38c": ("og38", "og38.clone()"),
    "gr24c": ("gr24", "gr24.clone()"),
}


def names_of():
    out = dict(SPACES)
    for n, (o, _) in EXTRA.items():
        out[n] = SPACES[o]
    return out


def pick(space):
    """A special class, a class in the middle and the class of a point."""
    M = alg.model(space)
    L = M.labels
    return L[1], L[len(L) // 2], L[-1]


def ops_of(n, space, rich=True):
    """Expressions over the object called n."""
    kd = base.kind(space)
    a, b, p = map(S, pick(space))
    la, lb, lp = (list(x) for x in pick(space))
    gens = alg.generators(space)
    i = gens[-1][1]
    i2 = gens[0][1]
    o = [f"{n}.qmult('{b}', '{p}')", f"{n}.mult('{b}', '{a}')", f"{n}.qpieri({i}, '{p}')", f"{n}.pieri({i2}, {lb})",
         f"{n}.dualize('{b}')", f"{n}.schub_classes()"]
    if kd == "A":
        o += [f"{n}.qmult_rh('{b}', '{p}')"]
    if kd == "D":
        o += [f"{n}.type_swap('{b}', {base.kn(space)[0]})"]
    if rich:
        o += [f"{n}.qtoS('{a}*{b}')", f"{n}.toS('{a}*{b}')", f"{n}.qgiambelli('{p}')", f"{n}.giambelli('{b} + {a}')",
              f"{n}.qact('{S(gens[-1][0])}', '{p}')", f"{n}.act('{S(gens[0][0])}*{S(gens[0][0])}', '{a}')",
              f"{n}.part2index('{b}')", f"{n}.part2index({lp})", f"{n}.index2part({n}.part2index('{p}'))",
              f"{n}.generators()", f"{n}.point_class()",
              f"str({n})", f"{n}.get_type_data()", f"{n}.clone().qmult('{p}', '{b}')",
              f"{n}.qmult('2*{a} - q*{b}', '{a} + {b}')",
              f"{n}.miami_swap('{b} + {p}')"]
        if kd != "A":
            o += [f"{n}.part2pair('{b}')", f"{n}.part2pair({lp})", f"{n}.pair2part({n}.part2pair('{b} + {p}'))"]
        if kd == "D":
            o += [f"{n}.schub_type({lb})", f"{n}.miami_swap({lb})"]
            for g, j in gens:
                if j < 0:
                    o += [f"{n}.qpieri({j}, '{p}')", f"{n}.qpieri({-j}, '{p}')", f"{n}.pieri({j}, '{b}')"]
    return o


# operations that fail, or that are outside the domain; only their effect on
# later answers matters
BAD = ["gr24.mult('S[2,0]', 'S[1]')", "gr24.part2pair('S[1]')", "Grassmannian(5, 3)", "IsotropicGrassmannian(2, 5)",
       "OrthogonalGrassmannian(5, 8)", "gr25.qmult('S[2,', 'S[1]')", "og38.qmult('S[1]', None)",
       "gr25.qmult_rh('S[1]', None)", "gr24.act('S[]', 'S[1]')", "gr24.qact('S[2,1]', 'S[1]')", "ig26.schub_type([1])",
       "gr25.pieri('1', [2, 1])", "gr25.qpieri(2, 'x')", "og38.dualize('S[9,9]')", "ig26.qmult('S[1]*', 'S[1]')",
       "og38.type_swap(None, 1)", "Schur('S[1,')", "LinearCombination(None)", "gr24.index2part('S[]')"]


def canon(r):
    """Value of a result; equal results written differently are the same."""
    t = type(r).__name__
    if t == "LinearCombination":
        return ["LC", pitems(r)]
    if t == "Schur":
        return ["Schur", plist(r.p)]
    if isinstance(r, (list, tuple)):
        return [t] + [canon(x) for x in r]
    if isinstance(r, (int, str, bool, type(None), float)):
        return [t, r]
    if hasattr(r, "free_symbols"):
        return ["expr", pitems(r)]
    if t in ("MultTable", "QMultTable"):
        return [t, [str(x) for x in r.df.index], canon(r.to_matrix())]
    return [t, str(r)]


def plist(p):
    return [plist(x) if isinstance(x, (list, tuple)) else int(x) for x in p]


def pitems(r):
    from schubertpy.schur import translate_schur
    s = str(r) if type(r).__name__ == "LinearCombination" else translate_schur(r).replace("**", "^")
    try:
        return sorted([repr(m), str(c)] for m, c in poly.parse(s).items())
    except poly.Malformed as e:
        return ["malformed", str(e)]


def run(text, ns):
    """Canonical outcome of an operation."""
    try:
        r = eval(text, ns)
    except Exception as e:
        return ["raised", type(e).__name__]
    try:
        return canon(r)
    except Exception as e:
        return ["no value", type(e).__name__, str(e)[:80]]


_warm = False


def warm():
    """Let sympy do its lazy imports once (no library code runs)."""
    global _warm
    if _warm:
        return
    _warm = True
    import sympy as sp
    x, y, q = sp.symbols("x y q")
    e = sp.expand((x + q * y) ** 2 - q / 2 * x)
    e.subs(x, 0)
    sp.expand((e - e.subs(x, 0)) / x)
    sp.expand(e / 2).func(*e.args)
    str(sp.parse_expr("q*x**2/2 + 3*y - x"))


def namespace(names=None):
    warm()
    gc.collect()
    gc.freeze()
    ns = {}
    exec(decl(names), ns)
    return ns


class Log:
    """Results of forked descendants, collected through an append-only file."""

    def __init__(self):
        fd, self.path = tempfile.mkstemp(prefix="mc-hist-")
        os.close(fd)
        self.fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)

    def put(self, **kw):
        os.write(self.fd, (json.dumps(kw) + "\n").encode())

    def take(self):
        with open(self.path) as f:
            out = [json.loads(l) for l in f]
        os.close(self.fd)
        os.unlink(self.path)
        return out


    def take2(self):
        os.close(self.fd)
        os.unlink(self.path)


CHILD_LIMIT = 150


def fork(fn, limit=None):
    """Run fn in a forked child and return its wait status."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            gc.disable()
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit or CHILD_LIMIT)
            fn()
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    while True:
        try:
            return os.waitpid(pid, 0)[1]
        except InterruptedError:
            pass


def fresh(text, names=None):
    """Outcome of an operation in a fork of a process that has done nothing."""
    log = Log()
    st = fork(lambda: log.put(r=run(text, namespace(names))))
    out = log.take()
    if st or not out:
        return ["no answer", st]
    return out[0]["r"]
