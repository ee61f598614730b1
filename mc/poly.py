"""Parser for the text that schubertpy prints, independent of sympy.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of
(atom, exponent); an atom is the name of a variable ('q', 'q1', 'q2', 'x1') or
('S', partition) for a Schubert/Schur class, the partition being a (possibly
nested) tuple.  Coefficients are ints or Fractions; a decimal number is a
`Malformed` result because every ring in the library is defined over the
integers or rationals.
"""
import re
from fractions import Fraction
from functools import lru_cache


class Malformed(Exception):
    pass


TOK = re.compile(r"\s*(?:(S\s*\[)|([A-Za-z_][A-Za-z_0-9]*)|(\d+\.\d*(?:e[+-]?\d+)?|\d+)|(\*\*|[-+*/^()]))")


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = _norm(r.get(m, 0) + s * c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                d = dict(m1)
                for x, e in m2:
                    d[x] = d.get(x, 0) + e
                m = tuple(sorted(((x, e) for x, e in d.items() if e), key=_key))
            v = _norm(r.get(m, 0) + c1 * c2)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _key(t):
    return (isinstance(t[0], tuple), repr(t[0]), t[1])


def ppow(a, n):
    r = {(): 1}
    for _ in range(n):
        r = pmul(r, a)
    return r


def const(c):
    c = _norm(c)
    return {(): c} if c else {}


def atom(x):
    return {((x, 1),): 1}


def S(label):
    return atom(("S", tuple(label)))


class _P:
    def __init__(self, s):
        self.s, self.i = s, 0
        self.next()

    def next(self):
        s, i = self.s, self.i
        if i >= len(s) or not s[i:].strip():
            self.t, self.k = None, None
            self.i = len(s)
            return
        m = TOK.match(s, i)
        if not m:
            raise Malformed(f"cannot read {s!r} at {i}")
        if m.group(1):
            j = m.end()
            depth = 1
            while j < len(s) and depth:
                depth += {"[": 1, "]": -1}.get(s[j], 0)
                j += 1
            if depth:
                raise Malformed(s)
            self.k, self.t, self.i = "S", s[m.end() - 1:j], j
            return
        self.i = m.end()
        for g, k in ((2, "V"), (3, "N"), (4, "O")):
            if m.group(g):
                self.t, self.k = m.group(g), k
                return

    def expr(self):
        neg = False
        while self.k == "O" and self.t in "+-":
            neg ^= self.t == "-"
            self.next()
        r = self.term()
        if neg:
            r = pmul(const(-1), r)
        while self.k == "O" and self.t in "+-":
            s = 1 if self.t == "+" else -1
            self.next()
            r = padd(r, self.term(), s)
        return r

    def term(self):
        r = self.factor()
        while self.k == "O" and self.t in ("*", "/"):
            op = self.t
            self.next()
            f = self.factor()
            if op == "/":
                if len(f) != 1 or () not in f:
                    raise Malformed(f"division in {self.s!r}")
                f = const(Fraction(1) / f[()])
            r = pmul(r, f)
        return r

    def factor(self):
        if self.k == "O" and self.t in "+-":
            s = -1 if self.t == "-" else 1
            self.next()
            return pmul(const(s), self.factor())
        r = self.primary()
        if self.k == "O" and self.t in ("^", "**"):
            self.next()
            par = self.k == "O" and self.t == "("
            e = self.primary() if not par else self.primary()
            if any(m for m in e) or (e and not isinstance(e[()], int)) or (e and e[()] < 0):
                raise Malformed(f"exponent in {self.s!r}")
            r = ppow(r, e.get((), 0))
        return r

    def primary(self):
        k, t = self.k, self.t
        if k is None:
            raise Malformed(self.s)
        self.next()
        if k == "N":
            if "." in t:
                raise Malformed(f"decimal number in {self.s!r}")
            return const(int(t))
        if k == "V":
            return atom(t)
        if k == "S":
            return S(_part(t))
        if t == "(":
            r = self.expr()
            if not (self.k == "O" and self.t == ")"):
                raise Malformed(self.s)
            self.next()
            return r
        raise Malformed(self.s)


@lru_cache(maxsize=None)
def _part(t):
    import ast
    try:
        v = ast.literal_eval(t)
    except Exception:
        raise Malformed(t)

    def tup(x):
        if isinstance(x, list):
            return tuple(tup(y) for y in x)
        if isinstance(x, bool) or not isinstance(x, int):
            raise Malformed(t)
        return x
    return tup(v)


@lru_cache(maxsize=200000)
def _simple(t):
    p = _P(t)
    r = p.expr()
    if p.k is not None:
        raise Malformed(t)
    return r


def parse(text):
    """Polynomial of a printed expression."""
    if not isinstance(text, str):
        raise Malformed(f"not text: {text!r}")
    if "(" in text or "[[" in text:
        return dict(_simple(text))
    r = {}
    # top-level sums print with ' + ' and ' - '; terms repeat a lot
    for piece in text.replace(" - ", " + -").split(" + "):
        for m, c in _simple(piece).items():
            v = _norm(r.get(m, 0) + c)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def classes(text, qvars=("q",)):
    """{(partition, qdegree): coefficient} of a linear combination of classes."""
    out = {}
    for m, c in parse(text).items():
        lab = None
        deg = [0] * len(qvars)
        for x, e in m:
            if isinstance(x, tuple):
                if lab is not None or e != 1:
                    raise Malformed(f"not a linear combination: {text}")
                lab = x[1]
            elif x in qvars:
                deg[qvars.index(x)] = e
            else:
                raise Malformed(f"unexpected variable {x} in {text}")
        if lab is None:
            raise Malformed(f"term without a class in {text}")
        out[(lab, tuple(deg))] = c
    return out


def show(p):
    """Text of a polynomial, in a form schubertpy reads."""
    def at(x):
        if isinstance(x, tuple):
            return "S" + str([list(y) if isinstance(y, tuple) else y for y in x[1]]).replace(" ", "")
        return x
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=repr):
        fs = [] if c == 1 and m else [f"({c})" if c < 0 or isinstance(c, Fraction) else str(c)]
        fs += [at(x) + (f"^{e}" if e != 1 else "") for x, e in m]
        out.append("*".join(fs))
    return " + ".join(out)
