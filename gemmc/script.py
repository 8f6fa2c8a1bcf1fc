"""Scripted random numbers: every draw of a component becomes a choice point of an exhaustive enumeration.

explore(fn) calls fn(tape) once for every combination of draw outcomes of the lattice (depth first, by replay).
Components get their generators from numpy.random.default_rng, which is replaced while fn runs.
"""
import contextlib

import numpy as np

TOP = 1.0 - 2.0 ** -53


class Tape:
    def __init__(self, prefix, levels, limit):
        self.prefix = prefix
        self.choices = []
        self.levels = levels
        self.limit = limit
        self.draws = []

    def choose(self, n):
        k = len(self.choices)
        if k >= self.limit:
            return n // 2
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.choices.append((c, n))
        return c


class Scripted(np.random.Generator):
    def __new__(cls, tape):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, tape):
        super().__init__(np.random.PCG64(0))
        self.tape = tape

    def _u(self):
        lv = self.tape.levels["u"]
        return lv[self.tape.choose(len(lv))]

    def _fill(self, size, one, many):
        if size is None:
            return one()
        n = int(np.prod(size))
        if n == 1:
            return np.full(size, one())
        return np.asarray(many(n), dtype=float).reshape(size)

    def _us(self, size):
        return self._fill(size, self._u, lambda n: np.array([self._u() for _ in range(min(n, self.tape.levels.get("nu", 3)))] + [0.5] * max(0, n - self.tape.levels.get("nu", 3))))

    def _zs(self, size):
        """standardised symmetric draws: a value of the lattice for single draws, a pattern for arrays"""
        lv = self.tape.levels["z"]
        one = lambda: lv[self.tape.choose(len(lv))]

        def many(n):
            pats = [np.full(n, lv[0]), np.full(n, lv[-1]), np.where(np.arange(n) % 2 == 0, lv[0], lv[-1]), np.zeros(n)]
            return pats[self.tape.choose(len(pats))]

        return self._fill(size, one, many)

    def _note(self, kind, args, val):
        self.tape.draws.append((kind, args, val))
        return val

    def random(self, size=None, *a, **k):
        return self._note("random", (), self._us(size))

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._note("uniform", (low, high), low + (np.asarray(high) - low) * self._us(size) if size is not None else
                          (float(low + (high - low) * self._u()) if np.ndim(low) == 0 and np.ndim(high) == 0 else low + (np.asarray(high) - low) * self._u()))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._note("normal", (loc, scale), loc + scale * self._zs(size))

    def standard_normal(self, size=None, *a, **k):
        return self._note("normal", (0, 1), self._zs(size))

    def laplace(self, loc=0.0, scale=1.0, size=None):
        return self._note("laplace", (loc, scale), loc + scale * self._zs(size))

    def triangular(self, left, mode, right, size=None):
        return self._note("triangular", (left, mode, right), left + (right - left) * self._us(size))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        hi = int(high) - (0 if endpoint else 1)
        low = int(low)
        opts = sorted({low, (low + hi) // 2, hi})
        return self._note("integers", (low, high), opts[self.tape.choose(len(opts))])

    def choice(self, a, size=None, replace=True, p=None, **k):
        seq = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        idx = [i for i in range(len(seq)) if p is None or p[i] > 0]
        return self._note("choice", (), seq[idx[self.tape.choose(len(idx))]])


@contextlib.contextmanager
def patched(tape):
    real = np.random.default_rng
    np.random.default_rng = lambda *a, **k: Scripted(tape)
    try:
        yield
    finally:
        np.random.default_rng = real


def explore(fn, u=(0.0, 0.5, TOP), z=(-3.0, 0.0, 3.0), limit=8, nu=3):
    """Calls fn(tape) for every outcome of the first `limit` draws (later draws take the middle outcome); returns the number of executions."""
    prefix = []
    n = 0
    while True:
        tape = Tape(prefix, dict(u=u, z=z, nu=nu), limit)
        with patched(tape):
            fn(tape)
        n += 1
        ch = tape.choices
        k = len(ch) - 1
        while k >= 0 and ch[k][0] == ch[k][1] - 1:
            k -= 1
        if k < 0:
            return n
        prefix = [c for c, _ in ch[:k]] + [ch[k][0] + 1]
