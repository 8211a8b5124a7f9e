"""Randomness as enumerated choice: numpy's global random functions replaced by choice points.

`outcomes(fn)` runs fn once for every combination of the values that the random calls inside it may return:
integers exhaustively, reals in [0, 1) over a fixed grid that includes both ends, normal deviates over a grid of
multiples of the standard deviation."""
import contextlib
import random as pyrandom

import numpy as np

UNIT = [0.0, 0.25, 0.5, 0.75, 1 - 2 ** -53]
NORMAL = [0.0, -1.0, 1.0, 4.0, -4.0]


class Chooser:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []          # (index, number of options)

    def pick(self, n):
        k = len(self.taken)
        i = self.prefix[k] if k < len(self.prefix) else 0
        self.taken.append((i, n))
        return i

    def from_list(self, options):
        return options[self.pick(len(options))]


def _fill(size, one):
    if size is None:
        return one()
    shape = (size,) if np.isscalar(size) else tuple(size)
    out = np.empty(shape)
    for idx in np.ndindex(*shape):
        out[idx] = one()
    return out


@contextlib.contextmanager
def control(ch, unit=UNIT, normal=NORMAL):
    def randint(low, high=None, size=None, dtype=int, **kw):
        lo, hi = (0, low) if high is None else (low, high)
        if int(hi) - int(lo) <= 0:
            raise ValueError('low >= high')
        r = _fill(size, lambda: int(lo) + ch.pick(int(hi) - int(lo)))
        return int(r) if size is None else r.astype(int)

    def integers(low, high=None, size=None, endpoint=False, **kw):
        lo, hi = (0, low) if high is None else (low, high)
        return randint(lo, hi + int(bool(endpoint)), size)

    def rand(*shape):
        return _fill(shape or None, lambda: ch.from_list(unit))

    def random(size=None, **kw):
        return _fill(size, lambda: ch.from_list(unit))

    def uniform(low=0.0, high=1.0, size=None):
        return low + (high - low) * random(size)

    def gauss(loc=0.0, scale=1.0, size=None):
        if size is None:
            shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
            size = shape if shape else None
        else:                       # as numpy: the parameters must broadcast to exactly this size
            np.broadcast_to(loc, (size,) if np.isscalar(size) else tuple(size))
            np.broadcast_to(scale, (size,) if np.isscalar(size) else tuple(size))
        return loc + scale * _fill(size, lambda: ch.from_list(normal))

    def randn(*shape):
        return gauss(0.0, 1.0, shape or None)

    def standard_normal(size=None, **kw):
        return gauss(0.0, 1.0, size)

    def choice(a, size=None, replace=True, p=None, **kw):
        opts = list(range(a)) if np.isscalar(a) else list(a)
        if size is None:
            return ch.from_list(opts)
        return np.array([ch.from_list(opts) for _ in range(int(np.prod(size)))]).reshape(size)

    class Gen:
        pass

    for name, f in dict(integers=integers, random=random, uniform=uniform, normal=gauss, choice=choice,
                        standard_normal=standard_normal).items():
        setattr(Gen, name, staticmethod(f))
    fakes = {np.random: dict(randint=randint, rand=rand, random=random, random_sample=random, ranf=random, uniform=uniform,
                             normal=gauss, randn=randn, standard_normal=standard_normal, choice=choice,
                             default_rng=lambda *a, **k: Gen()),
             pyrandom: dict(random=lambda: random(), randint=lambda a, b: randint(a, b + 1), randrange=lambda a, b=None: randint(a, b),
                            uniform=lambda a, b: uniform(a, b), choice=choice, gauss=lambda m=0.0, s=1.0: gauss(m, s))}
    saved = {mod: {n: getattr(mod, n) for n in fs} for mod, fs in fakes.items()}
    try:
        for mod, fs in fakes.items():
            for n, f in fs.items():
                setattr(mod, n, f)
        yield
    finally:
        for mod, fs in saved.items():
            for n, f in fs.items():
                setattr(mod, n, f)


def outcomes(fn, unit=UNIT, normal=NORMAL, limit=100000):
    """fn() under every combination of random outcomes; yields (choices, result)."""
    stack, n = [()], 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        with control(ch, unit, normal):
            res = fn()
        n += 1
        if n > limit:
            raise RuntimeError('too many random outcomes')
        yield [i for i, _ in ch.taken], res
        for k in range(len(ch.taken) - 1, len(prefix) - 1, -1):
            i, m = ch.taken[k]
            base = tuple(x for x, _ in ch.taken[:k])
            for j in range(1, m):
                stack.append(base + (j,))
