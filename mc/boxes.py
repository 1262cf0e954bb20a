"""
Exact (rational) reference for boxes with open or periodic boundaries, and the
grids of limits and positions used by the checks of the geometry.
"""
import itertools
import math
from fractions import Fraction

EPS = 2.**-52

LIMITS_1D = [
    (0., 1.), (-1., 1.), (-0.3, 1.1), (2., 5.), (1000., 1000.5), (-7.1, -3.3), (0., 1e-3), (-math.pi, math.pi), (1., 0.), (0, 3), (0.7, -0.2),
]

# fractions of the size; the special ones are at or next to the boundaries
FRACTIONS = [0., 0.1, 0.25, 1. / 3, 0.5, 0.6, 0.75, 0.9, 1., -0.1, -0.5, -1., 1.3, 2., -2.75, 17.2]
SMALL = [0., 0.2, 0.5, 0.95, 1., -0.3, 1.6]


class ExactBox:
    def __init__(self, limits, periodic):
        self.limits = [tuple(sorted((Fraction(a), Fraction(b)))) for a, b in limits]
        self.periodic = periodic
        self.size = [b - a for a, b in self.limits]
        self.dim = len(limits)

    def delta(self, p, q):
        """Shortest vector from p to an image of q (ties: any)."""
        res = []
        for x, y, s in zip(p, q, self.size):
            d = Fraction(y) - Fraction(x)
            if self.periodic:
                d -= s * round(d / s)
            res.append(d)
        return res

    def distance(self, p, q):
        return math.sqrt(float(sum(d * d for d in self.delta(p, q))))

    def distances(self, p, q):
        """All lengths which come from images next to the closest one."""
        raise NotImplementedError

    def same(self, p, q, tol):
        """Whether the positions are images of each other."""
        return all(abs(d) <= tol for d in self.delta(p, q)) if self.periodic else all(abs(x - y) <= tol for x, y in zip(p, q))

    def scale(self, *positions):
        return max([1.] + [abs(float(x)) for lim in self.limits for x in lim] + [abs(float(x)) for p in positions for x in p])


def points_1d(lim, special=True, fractions=None):
    """Positions for one dimension."""
    a, b = sorted(float(x) for x in lim)
    res = [a + f * (b - a) for f in (FRACTIONS if fractions is None else fractions)]
    if special:
        res += [math.nextafter(a, math.inf), math.nextafter(a, -math.inf), math.nextafter(b, -math.inf), math.nextafter(b, math.inf),
                a - 1e-17, b - 1e-17, a + 1e-13 * (b - a), a - 1e-13 * (b - a)]
    return sorted(set(res))


def points(limits, special=True, fractions=None):
    return list(itertools.product(*[points_1d(lim, special, fractions) for lim in limits]))
