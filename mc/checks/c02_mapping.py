"""
C02: mapping into the box, fractional coordinates and averages against exact
rational arithmetic.
"""
import itertools
import math
from fractions import Fraction

import numpy as np

from nodefinder.coordinate_system import CoordinateSystem

from ..boxes import ExactBox, LIMITS_1D, FRACTIONS, SMALL, points
from ..core import require

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of positions, and of lists of positions with their orders and periodic images (bounded input space), on the real code, against an exact rational oracle'
RULE = 'An input is nontrivial if it differs in the box or in the positions (as a sequence, including the choice of images).'
BOUNDS = {
    'quick': '11 boxes in dimension 1, 55 in dimension 2, 24 in dimension 3, positions at boundaries, next to them and boxes away; averages of up to 3 positions with all orders and images -1, 0, 2',
    'thorough': 'averages of up to 4 positions (dimension 1) and 3 (dimensions 2, 3), more centers and spreads, all boxes in dimension 3',
}
ASSUMPTIONS = ['results are compared with tolerance 1e-11 times the largest coordinate involved', 'averages: the positions are within less than half of the box of each other']


def cases(tier):
    big = tier == 'thorough'
    for periodic in (True, False):
        for lim in LIMITS_1D:
            yield dict(kind='map', limits=[list(lim)], periodic=periodic, fractions=FRACTIONS + [k / 64 for k in range(-64, 129)] + [k / 10 for k in range(-30, 40)], special=True)
        for lims in itertools.combinations(LIMITS_1D, 2):
            yield dict(kind='map', limits=[list(x) for x in lims], periodic=periodic, fractions=SMALL, special=True)
        for lims in list(itertools.combinations(LIMITS_1D, 3))[::1 if big else 7]:
            yield dict(kind='map', limits=[list(x) for x in lims], periodic=periodic, fractions=SMALL[:4], special=False)
        for lims in [[[0, 3]], [[-2, 2], [7, 0]], [[0, 1], [0, 2], [-3, 4]]]:
            yield dict(kind='whole', limits=lims, periodic=periodic)
        for lims in [[[0., 1.]], [[-1., 3.], [2., 2.5]], [[0., 1.], [0., 2.], [-3., 4.]]]:
            for num in (5, 17, 100, 300, 1500) + ((10000, ) if big else ()):
                yield dict(kind='many', limits=lims, periodic=periodic, num=num)
        centers = [0., 0.03, 0.25, 0.5, 0.97, 0.999] + ([0.1, 0.7, 0.4, 0.9, 0.49, 1e-9] if big else [])
        for dim, boxes in ((1, [(x, ) for x in LIMITS_1D]), (2, list(itertools.combinations(LIMITS_1D, 2))[::3 if big else 9]), (3, list(itertools.combinations(LIMITS_1D, 3))[::20 if big else 60])):
            for lims in boxes:
                for center in centers if dim == 1 else centers[::2]:
                    for spread in (0.02, 0.22) + ((0.1, 0.16, 1e-6, 0.) if big else (0., )):
                        yield dict(kind='average', limits=[list(x) for x in lims], periodic=periodic, center=center, spread=spread, num=4 if big and dim == 1 else 3)


def run(case, stats):
    stats.sample(case, limit=1)
    box = ExactBox(case['limits'], case['periodic'])
    cs = CoordinateSystem(limits=[tuple(x) for x in case['limits']], periodic=case['periodic'])
    if case['kind'] == 'map':
        run_map(case, stats, box, cs)
    elif case['kind'] == 'whole':
        run_map(case, stats, box, cs, list(itertools.product(*[range(min(x) - 7, max(x) + 8, 1 if box.dim == 1 else 3) for x in case['limits']])))
    elif case['kind'] == 'many':
        run_many(case, stats, box, cs)
    else:
        run_average(case, stats, box, cs)


def inside(box, pos):
    return all(float(a) <= x <= float(b) for x, (a, b) in zip(pos, box.limits))


def run_many(case, stats, box, cs):
    """The average of many positions, and mapping them at once."""
    size = np.array([float(s) for s in box.size])
    num = case['num']
    lower = np.array([float(a) for a, _ in box.limits])
    spread = (np.arange(num)[:, np.newaxis] * np.sqrt([2., 3., 5.][:box.dim]) % 1)
    for center in (0., 0.3, 0.9):
        pts = lower + (center + 0.4 * spread) * size
        want = np.mean(pts, axis=0)
        if box.periodic:
            pts[::3] += size
            pts[1::5] -= 2 * size
        for given in (pts, pts[::-1], list(pts)):
            found = np.asarray(cs.average(given)).tolist()
            require(len(found) == box.dim and box.same(found, want, 1e-9), 'average {} instead of {}'.format(found, want.tolist()), num=num, limits=case['limits'])
            if box.periodic:
                require(inside(box, found), 'average {} outside of the limits'.format(found), num=num)
        stats.evaluation(num)
        stats.nontrivial((case['limits'], case['periodic'], num, center))


def run_map(case, stats, box, cs, given=None):
    for p in points(case['limits'], case['special'], case['fractions']) if given is None else given:
        arr = np.array(p)
        tol = 1e-11 * box.scale(p)
        where = dict(p=p, limits=case['limits'], periodic=case['periodic'])
        res = np.array(cs.normalize_position(arr)).tolist()
        require(len(res) == len(p), 'mapped to {}'.format(res), **where)
        if case['periodic']:
            require(inside(box, res), 'mapped to {}, outside of the limits'.format(res), **where)
            require(box.same(res, p, tol), 'mapped to {}, which is not an image'.format(res), **where)
            again = np.array(cs.normalize_position(np.array(res))).tolist()
            require(again == res, 'mapped to {} and then to {}'.format(res, again), **where)
        else:
            require(res == list(p), 'mapped to {} in an open box'.format(res), **where)
        frac = np.array(cs.get_frac(arr))
        for f, x, (a, b) in zip(frac.tolist(), p, box.limits):
            exact = (Fraction(x) - a) / (b - a)
            diff = Fraction(f) - exact
            if case['periodic']:
                require(0 <= f <= 1, 'fractional coordinate {}'.format(f), **where)
                diff -= round(diff)
            require(abs(diff) <= 1e-11 * max(1, abs(exact)) * float(max(abs(a), abs(b), b - a) / (b - a)), 'fractional coordinate {} instead of {}'.format(f, float(exact)), **where)
        back = np.array(cs.get_pos(frac)).tolist()
        require(box.same(back, p, tol), 'there and back gives {}'.format(back), **where)
        direct = np.array(cs.get_pos(arr)).tolist()
        for y, f, (a, b) in zip(direct, p, box.limits):
            require(abs(Fraction(y) - (a + Fraction(f) * (b - a))) <= 1e-11 * max(1, abs(f)) * float(max(abs(a), abs(b), b - a)), 'position {} for the fractional coordinates'.format(direct), **where)
        require(arr.tolist() == list(p), 'the position was modified')
        stats.evaluation()
        stats.nontrivial((case['limits'], case['periodic'], p))


def run_average(case, stats, box, cs):
    dim = box.dim
    size = [float(s) for s in box.size]
    lower = [float(a) for a, _ in box.limits]
    base = [a + case['center'] * s for a, s in zip(lower, size)]
    # offsets in units of the spread, different in each dimension
    patterns = [(-1., ) * dim, tuple(1. - 0.5 * i for i in range(dim)), (0.25, ) * dim, tuple(-0.5 + 0.75 * i for i in range(dim))]
    images = [(0, ) * dim, (-1, ) + (2, ) * (dim - 1), (2, ) + (0, ) * (dim - 1)] if case['periodic'] else [(0, ) * dim]
    for num in range(1, case['num'] + 1):
        for pats in itertools.permutations(patterns, num):
            close = [[x + case['spread'] * s * o for x, s, o in zip(base, size, pat)] for pat in pats]
            for shifts in itertools.product(images, repeat=num):
                pos = [tuple(x + n * s for x, n, s in zip(p, shift, size)) for p, shift in zip(close, shifts)]
                exact = [sum(Fraction(p[i]) - n[i] * box.size[i] for p, n in zip(pos, shifts)) / num for i in range(dim)]
                tol = 1e-11 * box.scale(*pos)
                for given in ([np.array(p) for p in pos], np.array(pos)):
                    found = np.array(cs.average(given)).tolist()
                    where = dict(positions=pos, limits=case['limits'], periodic=case['periodic'])
                    require(len(found) == dim and box.same(found, exact, tol), 'average {} instead of {}'.format(found, [float(x) for x in exact]), **where)
                    if case['periodic']:
                        require(inside(box, found), 'average {} outside of the limits'.format(found), **where)
                    require(np.array_equal(given, pos), 'the positions were modified')
                stats.evaluation()
                stats.nontrivial((case['limits'], case['periodic'], pos))


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 10000
