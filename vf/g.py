"""Small helper around Hypothesis' draw() for writing grammar generators.

All choices are made with bounded integers (0 is always the simplest alternative), so cases shrink.
"""
import functools
from fractions import Fraction          # noqa: F401

from hypothesis import strategies as st


@functools.lru_cache(None)
def _ints(a, b):
    return st.integers(a, b)


class G:
    def __init__(self, draw, budget=60):
        self.draw = draw
        self.budget = budget

    def int(self, a, b):
        return a if a >= b else self.draw(_ints(a, b))

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def chance(self, percent):
        """True in about percent % of the cases; shrinks to False."""
        return self.int(0, 99) >= 100 - percent

    def many(self, fn, lo, hi):
        """A list of results of fn(); uses fewer when the budget is gone."""
        if self.budget <= 0:
            hi = lo
        n = self.int(lo, hi)
        if n == 0 and lo < hi and self.chance(60):
            n = 1
        return [fn() for _ in range(n)]

    def subset(self, seq, percent=50):
        return [x for x in seq if self.chance(percent)]

    def weighted(self, pairs):
        """pairs: (weight, value)..."""
        total = sum(w for w, _ in pairs)
        n = self.int(0, total - 1)
        for w, v in pairs:
            if n < w:
                return v
            n -= w
        raise AssertionError


def strategy(fn, budget=60):
    """Make a strategy of a function fn(g)."""
    @st.composite
    def comp(draw):
        return fn(G(draw, budget))
    return comp()


def g_data(fn):
    return lambda: strategy(fn)
