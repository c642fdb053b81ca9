"""The choice-source seam: one seeded PRNG decides every Hypothesis choice."""
import math
import random

from hypothesis.internal.conjecture.providers import PrimitiveProvider

from .provider_modes import MODES  # noqa: F401


class SimProvider(PrimitiveProvider):
    """Swarm-varied distributions; everything derives from one seed."""

    avoid_realization = False

    def __init__(self, conjecturedata, /, *, seed=0, mode='typical'):
        super().__init__(conjecturedata)
        self.rng = random.Random(f'choices:{seed}')
        self.mode = mode
        self.past = []
        self.n = 0
        self.long = self.rng.choice((0, 0, 0, .3)) if mode != 'typical' else 0

    def draw_boolean(self, p=0.5):
        self.n += 1
        if p <= 0:
            return False
        if p >= 1:
            return True
        if self.mode == 'alternate':
            return bool(self.n % 2) if .05 < p < .95 else self.rng.random() < p
        if self.mode == 'small' and p < .97:
            p = p * .5
        elif self.long and .5 < p < .97:
            p = p + (1 - p) * self.long
        return self.rng.random() < p

    def _integer(self, lo, hi):
        r, m = self.rng, self.mode
        if lo is None and hi is None:
            k = r.choice((2, 4, 8, 16, 40)) if m != 'small' else r.choice((1, 3))
            return r.randint(-2 ** k, 2 ** k)
        if lo is None:
            return hi - r.getrandbits(r.choice((1, 3, 8, 20)) if m != 'small' else 2)
        if hi is None:
            return lo + r.getrandbits(r.choice((1, 3, 8, 20)) if m != 'small' else 2)
        if m == 'edges':
            t = r.random()
            if t < .25:
                return lo
            if t < .5:
                return hi
            if hi - lo > 16:
                return r.choice((lo + r.randrange(8), hi - r.randrange(8)))
        elif m == 'small':
            return min(hi, lo + min(r.getrandbits(2), r.getrandbits(3)))
        elif m == 'alternate' and hi > lo:
            step = max(1, (hi - lo) // 7)
            return lo + (self.n * step) % (hi - lo + 1)
        elif m == 'typical' and hi - lo > 127 and r.random() < .2:
            return r.choice((lo, hi, lo + r.randrange(16), hi - r.randrange(16)))
        return r.randint(lo, hi)

    def draw_integer(self, min_value=None, max_value=None, *, weights=None,
                     shrink_towards=0):
        self.n += 1
        lo, hi = min_value, max_value
        if self.mode == 'repeat' and self.past and self.rng.random() < .35:
            v = self.rng.choice(self.past)
            if (lo is None or lo <= v) and (hi is None or v <= hi):
                return v
        v = self._integer(lo, hi)
        if len(self.past) < 64:
            self.past.append(v)
        return v

    def draw_float(self, *, min_value=-math.inf, max_value=math.inf,
                   allow_nan=True, smallest_nonzero_magnitude=5e-324):
        self.n += 1
        lo, hi = max(min_value, -1e6), min(max_value, 1e6)
        t = self.rng.random()
        if t < .1:
            return lo
        if t < .4:
            return float(min(hi, max(lo, round(self.rng.uniform(lo, hi)))))
        return self.rng.uniform(lo, hi)

    def draw_string(self, intervals, *, min_size=0, max_size=10):
        self.n += 1
        return ''.join(chr(intervals[0]) for _ in range(min_size))

    def draw_bytes(self, min_size=0, max_size=10):
        self.n += 1
        return self.rng.randbytes(min_size)
