"""Thin wrapper around a Hypothesis draw function (all randomness of the harness goes through it)."""
from functools import lru_cache
from hypothesis import strategies as st


@lru_cache(maxsize=4096)
def _ints(a, b):
    return st.integers(a, b)


@lru_cache(maxsize=256)
def _text(alpha, lo, hi):
    return st.text(alphabet=alpha, min_size=lo, max_size=hi)


class D:
    """Random decisions; everything shrinks towards the first/smallest/False alternative."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, a, b):
        return a if a == b else self.draw(_ints(a, b))

    def p(self, percent):
        """True with about the given probability (in percent); shrinks to False."""
        return self.draw(_ints(0, 99)) >= 100 - percent

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)...]; shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        k = self.int(0, tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def text(self, alphabet, lo=0, hi=6):
        return self.draw(_text(alphabet, lo, hi))

    def subset(self, seq, percent=50):
        return [x for x in seq if self.p(percent)]

    def shuffle(self, seq):
        """Random permutation; shrinks to the identity."""
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.int(0, len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


def case(fn):
    """Turn gen(d: D) -> JSON case into a strategy factory."""
    @st.composite
    def comp(draw):
        return fn(D(draw))
    return comp
