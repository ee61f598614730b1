"""Reference model of the (quantum) cohomology rings, built from Lie theory only.

Nothing here reads schubertpy.  A homogeneous space G/P of classical type is
modelled as an explicit-state graph:

  states       the minimal coset representatives W^P of the Weyl group, which
               index the Schubert classes;
  transitions  the quantum Chevalley formula (Fulton-Woodward), i.e. the
               multiplication by the Schubert divisor(s).

Multiplication by every other Schubert class is *determined* by that graph: in
the equivariant quantum ring (numeric torus weights, mod a prime) the divisor
has a cyclic vector, so T_lam = K_lam K^-1 with K = [1, T1.1, T1^2.1, ...] and
K_lam = [lam, T1.lam, T1^2.lam, ...].  The non-equivariant structure constants
are the degree-0 part in the torus weights, extracted exactly by interpolating
along t -> s*t.

Labels: partitions in schubertpy's notation are attached to Weyl group elements
by the k-Grassmannian bijection (Tamvakis / Buch-Kresch-Tamvakis), not by the
index-set formulas that the library itself uses.
"""
import itertools
import random

import numpy as np

PRIME = 134217689          # < 2^27, so int64 matmuls with N < 512 cannot overflow


class Space:
    """kind 'A' (Gr(m,N)), 'C' (IG(m,N)), 'B'/'D' (OG(m,N))."""

    def __init__(self, fam, m, N):
        self.fam, self.m, self.N = fam, m, N
        if fam == "Gr":
            self.kind, self.k, self.n, self.L = "A", N - m, N, N
        elif fam == "IG":
            self.kind, self.k, self.n, self.L = "C", N // 2 - m, N // 2, N // 2
        elif N % 2:
            self.kind, self.n = "B", (N - 1) // 2
            self.k, self.L = self.n - m, self.n
        else:
            self.kind, self.n = "D", N // 2 - 1
            self.k, self.L = self.n + 1 - m, self.n + 1
        self._build()

    # -- Weyl group ---------------------------------------------------------
    def length(self, w):
        L = len(w)
        inv = sum(1 for i in range(L) for j in range(i + 1, L) if w[i] > w[j])
        if self.kind == "A":
            return inv
        if self.kind == "D":
            return inv + sum(1 for i in range(L) for j in range(i + 1, L) if w[i] + w[j] < 0)
        return inv + sum(1 for i in range(L) for j in range(i, L) if w[i] + w[j] < 0)

    def minrep(self, w):
        """Minimal length representative of w W_P."""
        w = list(w)
        if self.kind == "A":
            m = self.m
            return tuple(sorted(w[:m]) + sorted(w[m:]))
        k = self.k
        head, tail = w[:k], sorted(w[k:])
        if self.kind in "BC":
            head = sorted(abs(x) for x in head)
        elif k >= 1:
            neg = sum(1 for x in head if x < 0) % 2
            head = sorted(abs(x) for x in head)
            if neg:
                head[0] = -head[0]
        return tuple(head + tail)

    def reps(self):
        L, k = self.L, self.k
        if self.kind == "A":
            for c in itertools.combinations(range(1, L + 1), self.m):
                s = set(c)
                yield tuple(c) + tuple(x for x in range(1, L + 1) if x not in s)
            return
        for c in itertools.combinations(range(1, L + 1), L - k):
            rest = [x for x in range(1, L + 1) if x not in c]
            for signs in itertools.product((1, -1), repeat=L - k):
                tail = sorted(a * b for a, b in zip(c, signs))
                if self.kind == "D":
                    neg = sum(1 for x in tail if x < 0) % 2
                    head = list(rest)
                    if neg:
                        if k == 0:
                            continue
                        head[0] = -head[0]
                    yield tuple(head + tail)
                else:
                    yield tuple(rest + tail)

    def label(self, w):
        """Partition (list with schubertpy's trailing 0 for type 2) of a rep."""
        k = self.k
        if self.kind == "A":
            m = self.m
            lam = [w[m - 1 - i] - (m - i) for i in range(m)]
        elif self.kind in "BC":
            lam = [k - x if x < 0 else sum(1 for p in w[:k] if p > x) for x in w[k:]]
        else:
            lam = [k - 1 - x if x < 0 else sum(1 for p in w[:k] if abs(p) > x) for x in w[k:]]
        while lam and lam[-1] == 0:
            lam.pop()
        if self.kind == "D" and k >= 1 and w[0] < -1:
            lam.append(0)
        return tuple(lam)

    # -- roots --------------------------------------------------------------
    def reflections(self):
        """(apply(w) -> w s_alpha, root vector, coroot vector) for alpha > 0."""
        L = self.L

        def swap(w, i, j, s):
            w = list(w)
            w[i], w[j] = s * w[j], s * w[i]
            return tuple(w)

        for i in range(L):
            for j in range(i + 1, L):
                v = [0] * L
                v[i], v[j] = -1, 1
                yield (lambda w, i=i, j=j: swap(w, i, j, 1)), v, v
                if self.kind != "A":
                    v = [0] * L
                    v[i] = v[j] = 1
                    yield (lambda w, i=i, j=j: swap(w, i, j, -1)), v, v
        if self.kind in "BC":
            for i in range(L):
                r, c = [0] * L, [0] * L
                r[i], c[i] = (1, 2) if self.kind == "B" else (2, 1)
                yield (lambda w, i=i: w[:i] + (-w[i],) + w[i + 1:]), r, c

    def weights(self):
        """Fundamental weights (doubled) of the omitted nodes."""
        L, k = self.L, self.k
        if self.kind == "A":
            return [[0] * self.m + [2] * (L - self.m)] if 0 < self.m < L else []
        if self.m == 0 or (self.kind == "D" and L == 1):
            return []
        if self.kind == "D" and k == 0:
            return [[1] * L]
        if self.kind == "D" and k == 1:
            return [[-1] + [1] * (L - 1), [1] * L]
        if self.kind == "B" and k == 0:
            return [[1] * L]
        return [[0] * k + [2] * (L - k)]

    # -- the graph ----------------------------------------------------------
    def _build(self):
        reps = list(self.reps())
        lab = {w: self.label(w) for w in reps}
        reps.sort(key=lambda w: (self.length(w), lab[w]))
        self.w = reps
        self.idx = {w: i for i, w in enumerate(reps)}
        self.labels = [lab[w] for w in reps]
        self.pos = {l: i for i, l in enumerate(self.labels)}
        assert len(self.pos) == len(reps)
        self.len = [self.length(w) for w in reps]
        self.dim = max(self.len)
        oms = self.weights()
        self.npic = len(oms)
        # 2rho - 2rho_P = sum of the positive roots outside the Levi
        two = [0] * self.L
        roots = []
        for ap, r, c in self.reflections():
            pair = [sum(a * b for a, b in zip(om, c)) // 2 for om in oms]
            assert all(sum(a * b for a, b in zip(om, c)) % 2 == 0 for om in oms)
            if any(pair):
                two = [a + b for a, b in zip(two, r)]
                roots.append((ap, c, pair))
        self.edges = [[] for _ in range(self.npic)]   # (w, w', mult, qdeg tuple)
        self.qdeg = None
        for ap, c, pair in roots:
            na = sum(a * b for a, b in zip(two, c))
            for i, w in enumerate(reps):
                v = ap(w)
                j = self.idx[self.minrep(v)]
                if self.len[j] == self.len[i] + 1 and self.idx.get(v) == j:
                    q = (0,) * self.npic
                elif self.len[j] == self.len[i] + 1 - na:
                    q = tuple(pair)
                else:
                    continue
                for b in range(self.npic):
                    if pair[b]:
                        self.edges[b].append((i, j, pair[b], q))
        # deg q_b = n_alpha for the simple root alpha_b, i.e. sum(d_b*deg q_b)=n_alpha
        self.degq = self._degq(roots, two)

    def _degq(self, roots, two):
        out = []
        for b in range(self.npic):
            unit = [1 if x == b else 0 for x in range(self.npic)]
            vals = [sum(a * c for a, c in zip(two, co)) for ap, co, pair in roots if pair == unit]
            out.append(min(vals))
            assert len(set(vals)) == 1 or self.kind in "BC", vals
        return out

    def chevalley(self, b=0):
        """label -> {(label, qdeg): mult} for the divisor b."""
        out = {l: {} for l in self.labels}
        for i, j, c, q in self.edges[b]:
            d = out[self.labels[i]]
            key = (self.labels[j], q)
            d[key] = d.get(key, 0) + c
        return out

    # -- all products -------------------------------------------------------
    def operators(self, which=None, seed=7):
        """{label: {label_v: {(label_w, qdeg): coeff}}} for the given labels."""
        N = len(self.w)
        which = list(range(N)) if which is None else [self.pos[l] for l in which]
        if self.npic == 0:
            return {(): {(): {((), ()): 1}}}
        p = PRIME
        rng = random.Random(seed)
        t = [rng.randrange(1, p) for _ in range(self.L)]
        half = pow(2, p - 2, p)
        oms = self.weights()
        coef = [1] if self.npic == 1 else [rng.randrange(1, p) for _ in oms]
        diag = np.zeros(N, dtype=np.int64)
        for b, om in enumerate(oms):
            for i, w in enumerate(self.w):
                wo = [0] * self.L
                for a, x in zip(om, w):
                    wo[abs(x) - 1] += a if x > 0 else -a
                val = sum((a - c) * tt for a, c, tt in zip(om, wo, t)) * half % p
                diag[i] = (diag[i] + coef[b] * val) % p
        top = max(self.len[i] for i in which)
        # values of q1 needed to separate (q1, q2) degrees; q2 = 1 throughout
        D = (top + self.dim) // self.degq[0] if self.npic == 2 else 0
        xs = list(range(2, D + 3)) if self.npic == 2 else [1]
        V = inverse(np.array([[pow(x, e, p) for e in range(D + 1)] for x in xs], dtype=np.int64), p)
        coeffs = {i: [np.zeros((N, N), dtype=np.int64) for _ in range(D + 1)] for i in which}
        for xi, x in enumerate(xs):
            base = np.zeros((N, N), dtype=np.int64)
            for b in range(self.npic):
                for i, j, c, q in self.edges[b]:
                    base[j, i] = (base[j, i] + coef[b] * c % p * pow(x, q[0], p)) % p
            mats = self._at(base, diag, which, top)
            for i in which:
                for e in range(D + 1):
                    coeffs[i][e] = (coeffs[i][e] + int(V[e, xi]) * mats[i]) % p
        res = {}
        for i in which:
            out = {}
            for v in range(N):
                d = {}
                for e in range(D + 1):
                    A = coeffs[i][e]
                    for w in np.nonzero(A[:, v])[0]:
                        w = int(w)
                        tot, rem = divmod(self.len[i] + self.len[v] - self.len[w], self.degq[0])
                        assert rem == 0 and tot >= e, (self.labels[i], self.labels[v], self.labels[w])
                        c = int(A[w, v])
                        assert c < 10 ** 6, c
                        d[(self.labels[w], (tot,) if self.npic == 1 else (e, tot - e))] = c
                out[self.labels[v]] = d
            res[self.labels[i]] = out
        return res

    def _at(self, base, diag, which, top):
        """Operators at numeric q, non-equivariant limit, as matrices mod p."""
        p = PRIME
        N = len(diag)
        r = np.arange(N)
        try:
            # the divisor is already cyclic without torus weights
            Ki = inverse(krylov(base, 0, p), p)
            return {i: krylov(base, i, p) @ Ki % p for i in which}
        except ZeroDivisionError:
            pass
        # entries have degree <= top in the scale of the torus weights
        pts = list(range(1, top + 2))
        acc = {i: np.zeros((N, N), dtype=np.int64) for i in which}
        for a in pts:
            num = den = 1
            for b in pts:
                if b != a:
                    num = num * (-b) % p
                    den = den * (a - b) % p
            wt = num * pow(den, p - 2, p) % p
            T = base.copy()
            T[r, r] = (T[r, r] + a * diag) % p
            Ki = inverse(krylov(T, 0, p), p)
            for i in which:
                acc[i] = (acc[i] + wt * (krylov(T, i, p) @ Ki % p)) % p
        return acc


def krylov(T, start, p):
    N = T.shape[0]
    v = np.zeros(N, dtype=np.int64)
    v[start] = 1
    cols = np.empty((N, N), dtype=np.int64)
    for j in range(N):
        cols[:, j] = v
        v = T @ v % p
    return cols


def inverse(M, p):
    N = M.shape[0]
    A = np.concatenate([M % p, np.eye(N, dtype=np.int64)], axis=1)
    for c in range(N):
        nz = np.nonzero(A[c:, c])[0]
        if len(nz) == 0:
            raise ZeroDivisionError("singular")
        r = c + int(nz[0])
        if r != c:
            A[[c, r]] = A[[r, c]]
        A[c] = A[c] * pow(int(A[c, c]), p - 2, p) % p
        f = A[:, c].copy()
        f[c] = 0
        A = (A - f[:, None] * A[c][None, :]) % p
    return A[:, N:]
