"""Common strategy helpers."""

from hypothesis import strategies as st


def sizes(lo=1, hi=40):
    """small sizes, biased to the corners"""
    corners = [v for v in (lo, lo + 1, lo + 2, hi) if lo <= v <= hi]
    return st.one_of(st.sampled_from(corners), st.integers(lo, hi), st.integers(lo, min(hi, lo + 8)))


def seeds():
    """content seed"""
    return st.integers(0, 2**16)


def weighted(*pairs):
    """(weight, strategy)..."""
    opts = []
    for w, s in pairs:
        opts += [s] * w
    return st.one_of(*opts)


class Picks:
    """Decisions from a list of generated ints (consumed in order); all 0 is the simplest case."""

    def __init__(self, ints):
        self.ints = list(ints)
        self.pos = 0

    def _next(self):
        v = self.ints[self.pos % len(self.ints)] if self.ints else 0
        self.pos += 1
        return v

    def choice(self, opts):
        return opts[self._next() % len(opts)]

    def int(self, lo, hi):
        if hi <= lo:
            return lo
        return lo + self._next() % (hi - lo + 1)

    def bool(self):
        return bool(self._next() % 2)

    def subset(self, opts, *, at_least=0):
        res = [o for o in opts if self.bool()]
        for o in opts:
            if len(res) >= at_least:
                break
            if o not in res:
                res.append(o)
        return [o for o in opts if o in res]


def picks(n=12):
    return st.lists(st.integers(0, 59), min_size=n, max_size=n)
