"""Common parts of the checks that compare ring operations with the model."""
import itertools

from . import base, poly
from .base import S, ctor, make, name
from .lie import Space

_cache = {}


def model(space):
    if space not in _cache:
        _cache[space] = Space(*space)
    return _cache[space]


_ops = {}


def ops(space, which=None):
    """Multiplication operators of the model for the given labels."""
    key = (space, None if which is None else tuple(which))
    if key not in _ops:
        _ops[key] = model(space).operators(which)
    return _ops[key]


def classical(d):
    return {k: c for k, c in d.items() if not any(k[1])}


def zero_q(space):
    return (0,) * model(space).npic


def qv(space):
    """Names of the quantum parameters as the library prints them."""
    return {0: (), 1: ("q",), 2: ("q1", "q2")}[model(space).npic]


def times(op, vec, keep_q=True):
    """Apply an operator {v: {(w, q): c}} to a vector {(v, q): c}."""
    out = {}
    for (v, q), c in vec.items():
        for (w, d), e in op[v].items():
            if not keep_q and any(d):
                continue
            k = (w, tuple(a + b for a, b in zip(q, d)))
            x = out.get(k, 0) + c * e
            if x:
                out[k] = x
            else:
                out.pop(k, None)
    return out


def add(a, b, s=1):
    out = dict(a)
    for k, c in b.items():
        x = out.get(k, 0) + s * c
        if x:
            out[k] = x
        else:
            out.pop(k, None)
    return out


def scale(a, s, qd=None):
    if not s:
        return {}
    return {(w, tuple(x + y for x, y in zip(q, qd)) if qd else q): c * s for (w, q), c in a.items()}


def text(space, vec):
    """A vector as text."""
    if not vec:
        return "0"
    out = []
    for (w, q), c in vec.items():
        fs = [f"({c})"] if c != 1 else []
        for x, e in zip(qv(space), q):
            if e:
                fs.append(x if e == 1 else f"{x}^{e}")
        out.append("*".join(fs + [S(w)]))
    return " + ".join(out)


def read(space, result):
    """The library's result as a vector; Malformed if it is not one."""
    cls = type(result).__name__
    if cls != "LinearCombination":
        raise poly.Malformed(f"result is a {cls}, not a LinearCombination: {result}")
    return poly.classes(str(result), qv(space))


def compare(ctx, space, key, result, want, repro):
    try:
        got = read(space, result)
    except poly.Malformed as e:
        ctx.bad(key, f"malformed result: {e}", repro)
        return False
    if got != want:
        ctx.bad(key, f"got {result}, expected {text(space, want)}", repro)
        return False
    return True


def repro(space, expr, want):
    return (f"from schubertpy import *\ng = {ctor(space)}\n"
            f"got = {expr}\nprint('got     ', got)\nprint('expected', {want!r})\n")


def spaces(gr, ig, og, lo=0, og_even_zero=False):
    out = []
    for N in range(lo, gr + 1):
        out += [("Gr", m, N) for m in range(0, N + 1)]
    for N in range(max(lo, 2), ig + 1):
        if N % 2 == 0:
            out += [("IG", m, N) for m in range(0, N // 2 + 1)]
    for N in range(max(lo, 3), og + 1):
        out += [("OG", m, N) for m in range(0, N // 2 + 1) if m or N % 2 or og_even_zero]
    return out


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def long_sums(labels, top=20, qs=()):
    """Sums of three and more different labels, one of every length up to
    `top` with plain terms and one with coefficients: [(coefficient, power of
    the first q, label)]."""
    labels = list(labels)
    for n in range(3, min(len(labels), top) + 1):
        off = n % (len(labels) - n + 1)
        ls = labels[off:off + n]
        yield [(1, 0, l) for l in ls]
        yield [((2, -1, 1, -3, 12)[i % 5], (0, 1, 0, 2)[i % 4] if qs else 0, l) for i, l in enumerate(ls[::-1])]


def sum_text(terms, qs=()):
    out = []
    for c, e, l in terms:
        fs = [str(c)] if c != 1 else []
        if e:
            fs.append(qs[0] + (f"^{e}" if e > 1 else ""))
        out.append("*".join(fs + [S(l)]))
    return " + ".join(out)


def sum_image(terms, f, z):
    """The sum with every label replaced by f(label)."""
    out = {}
    for c, e, l in terms:
        d = (e,) + z[1:] if z else z
        out = add(out, {(f(l), d): c})
    return out


def generators(space):
    """Special classes of the model: labels, in the library's order, with the
    number used by the library for each."""
    k, n = base.kn(space)
    kd = base.kind(space)
    if kd == "A":
        if k == 0 or k == n:
            return []
        return [((i,), i) for i in range(1, k + 1)]
    if model(space).npic == 0:
        return []
    out = []
    for i in range(1, n + k + 1):
        out.append(((i,), i))
        if kd == "D" and i == k:
            out.append(((i, 0), -i))
    return out


def special(label):
    """Number of a special class as the library counts it (-k for the second)."""
    return -label[0] if len(label) > 1 else label[0]
