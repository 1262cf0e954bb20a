"""
C01: distances and connecting vectors against exact rational arithmetic, for all
pairs of positions of a grid which contains the boundaries, their neighbouring
floating point numbers and positions several boxes away.
"""
import itertools
import math

import numpy as np

from nodefinder.coordinate_system import CoordinateSystem

from ..boxes import ExactBox, LIMITS_1D, FRACTIONS, SMALL, points
from ..core import require

ID = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all pairs of positions on a grid with boundary cases (bounded input space) on the real code, against an exact rational oracle'
RULE = 'A pair is nontrivial if it differs in the box, the positions or the boundary condition; for each, single and batched distance, symmetry, shifts and the connecting vector are compared with exact arithmetic.'
BOUNDS = {
    'quick': 'dimension 1: 11 boxes, all pairs of 24 positions, and 14 boxes with limits up to 1e12, positions up to 1e10 boxes away; dimension 2: 6 boxes, all pairs of 49 positions; dimension 3: 3 boxes, all pairs of 27 positions; shifts by all combinations of -3, 0, 2 box sizes',
    'thorough': 'dimension 2: 15 boxes, all pairs of 15 x 15 positions; dimension 3: 8 boxes, all pairs of 125 positions',
}
ASSUMPTIONS = ['results are compared with tolerance 1e-11 times the largest coordinate involved']

# limits for which an ulp is larger than 1e-8
LARGE = [(1e8, 1e8 + 1), (-1e9 - 3, -1e9), (1e12, 1e12 + 64)]
FAR = [0., 0.25, 0.5, 1., -2.75, 1e6 + 0.2, -1e10 - 0.4]
MORE = [(0., 0.1), (-1e5, 1e5), (3., 3.25), (-0.5, 0.5)]


def cases(tier):
    big = tier == 'thorough'
    for periodic in (True, False):
        for lim in LIMITS_1D + (MORE if big else []):
            yield dict(limits=[list(lim)], periodic=periodic, fractions=FRACTIONS, special=True)
        for lim in LARGE + LIMITS_1D:
            yield dict(limits=[list(lim)], periodic=periodic, fractions=FAR, special=False)
        yield dict(limits=[list(LARGE[0]), [-1., 1.]], periodic=periodic, fractions=[0., 0.25, 0.75, 1e6 + 0.4], special=False)
        boxes2 = list(itertools.combinations(LIMITS_1D, 2))
        for lims in (boxes2[::4] if big else boxes2[::10]):
            if big:
                yield dict(limits=[list(x) for x in lims], periodic=periodic, fractions=SMALL, special=True)
            else:
                yield dict(limits=[list(x) for x in lims], periodic=periodic, fractions=SMALL, special=False)
        boxes3 = list(itertools.combinations(LIMITS_1D, 3))
        for lims in (boxes3[::21] if big else boxes3[::60]):
            yield dict(limits=[list(x) for x in lims], periodic=periodic, fractions=[0., 0.4, 0.95] + ([-0.3, 1.6] if big else []), special=False)
    for lims in [[[0., 1.]], [[-1., 3.], [2., 2.5]], [[0., 1.], [0., 2.], [-3., 4.]]]:
        for periodic in (True, False):
            for num in (1, 2, 300, 3000) + ((20000, ) if big else ()):
                yield dict(kind='many', limits=lims, periodic=periodic, num=num)
    for lims in [[[0, 3]], [[-2, 2], [7, 0]], [[0, 1], [0, 2], [-3, 4]]]:
        for periodic in (True, False):
            yield dict(kind='whole', limits=lims, periodic=periodic)
    for lims in boxes2[1::20]:
        yield dict(limits=[list(x) for x in lims], periodic=True, fractions=[0., 0.5, 0.9], special=True)


def reference(box, p, q):
    size = np.array([float(s) for s in box.size])
    delta = np.abs(q - p)
    if box.periodic:
        delta = delta - size * np.floor(delta / size)
        delta = np.where(delta > size - delta, size - delta, delta)
    return np.sqrt(np.sum(delta**2, axis=-1))


def run_many(case, stats):
    """Long arrays of positions."""
    box = ExactBox(case['limits'], case['periodic'])
    cs = CoordinateSystem(limits=[tuple(x) for x in case['limits']], periodic=case['periodic'])
    size = np.array([float(s) for s in box.size])
    steps = (np.arange(case['num'])[:, np.newaxis] * np.sqrt([2., 3., 5.][:box.dim]) % 3) - 1
    pts = np.array([float(a) for a, _ in box.limits]) + steps * size
    for p in (pts[0], pts[-1], pts[case['num'] // 2] + 5 * size):
        want = reference(box, p, pts)
        for found in (np.asarray(cs.distance(p, pts)), np.asarray(cs.distance(pts, p))):
            require(found.shape == want.shape and np.allclose(found, want, rtol=0, atol=1e-9), 'wrong distances', num=case['num'], limits=case['limits'])
        vec = np.asarray(cs.connecting_vector(p, pts))
        require(vec.shape == pts.shape and np.allclose(np.sqrt(np.sum(vec**2, axis=-1)), want, rtol=0, atol=1e-9), 'wrong connecting vectors', num=case['num'], limits=case['limits'])
        require(np.allclose(reference(box, p + vec, pts), 0, rtol=0, atol=1e-9), 'the connecting vectors do not lead to the positions', num=case['num'])
        stats.evaluation(len(pts))
    for i in range(min(case['num'], 50)):
        stats.nontrivial((case['limits'], case['periodic'], case['num'], i))


def run_whole(case, stats):
    """Arrays of integers are positions as well."""
    lims = [tuple(x) for x in case['limits']]
    box = ExactBox(lims, case['periodic'])
    grid = list(itertools.product(*[range(min(x) - 3, max(x) + 4, 2 if len(lims) > 2 else 1) for x in lims]))
    everything = np.array(grid)
    for given in (lims, [tuple(float(y) for y in x) for x in lims]):
        cs = CoordinateSystem(limits=given, periodic=case['periodic'])
        for p in grid[::3]:
            for one in (np.array(p), np.array(p, dtype=float) + 0.5):
                want = [box.distance([float(x) for x in one], [float(x) for x in q]) for q in grid]
                vec = np.asarray(cs.connecting_vector(one, everything))
                lengths = np.sqrt(np.sum(vec.astype(float)**2, axis=-1))
                found = (cs.distance(one, everything), cs.distance(everything, one), lengths, [cs.distance(one, q) for q in everything])
                for vals in found:
                    require(np.allclose(np.asarray(vals, dtype=float), want, rtol=0, atol=1e-11), 'wrong distances of integer positions', p=one.tolist(), limits=case['limits'], periodic=case['periodic'])
                for q, v in zip(grid, vec.tolist()):
                    end = [float(x) + y for x, y in zip(one, v)]
                    require(box.same(end, [float(x) for x in q], 1e-11), 'the connecting vector {} leads to {}'.format(v, end), p=one.tolist(), q=q)
                stats.evaluation(len(grid))
                stats.nontrivial((lims, case['periodic'], one.tolist()))


def run(case, stats):
    stats.sample(case, limit=1)
    if case.get('kind'):
        return {'many': run_many, 'whole': run_whole}[case['kind']](case, stats)
    limits = case['limits']
    box = ExactBox(limits, case['periodic'])
    cs = CoordinateSystem(limits=[tuple(x) for x in limits], periodic=case['periodic'])
    mirrored = CoordinateSystem(limits=[tuple(x)[::-1] for x in limits], periodic=case['periodic'])
    require(cs.dim == len(limits), 'wrong dimension {}'.format(cs.dim))
    for got, (a, b), s in zip(np.asarray(cs.limits).tolist(), box.limits, np.asarray(cs.size).tolist()):
        require(got == [float(a), float(b)], 'limits {} instead of {}'.format(got, [float(a), float(b)]))
        require(abs(s - float(b - a)) <= 1e-15 * max(abs(a), abs(b)), 'size {}'.format(s))
    pts = points(limits, case['special'], case['fractions'])
    arrays = [np.array(p) for p in pts]
    everything = np.array(pts)
    size = np.array([float(s) for s in box.size])
    shifts = [n for n in itertools.product((-3, 0, 2), repeat=len(limits)) if any(n)]
    if len(shifts) > 8:
        shifts = shifts[::4]
    for i, (p, parr) in enumerate(zip(pts, arrays)):
        batch = np.asarray(cs.distance(parr, everything))
        vectors = np.asarray(cs.connecting_vector(parr, everything))
        require(batch.shape == (len(pts), ), 'distances of shape {}'.format(batch.shape))
        require(vectors.shape == everything.shape, 'connecting vectors of shape {}'.format(vectors.shape))
        back = np.asarray(cs.distance(everything, parr))
        mirror = np.asarray(mirrored.distance(parr, everything))
        if case['periodic']:
            moved = [np.asarray(cs.distance(parr + size * n, everything)) for n in shifts]
        else:
            moved = []
        for j, q in enumerate(pts):
            exact = box.distance(p, q)
            tol = 1e-11 * box.scale(p, q)
            where = dict(p=p, q=q, limits=limits, periodic=case['periodic'])
            found = float(cs.distance(parr, arrays[j]))
            require(abs(found - exact) <= tol, 'distance {} instead of {}'.format(found, exact), **where)
            require(abs(batch[j] - exact) <= tol, 'distance {} instead of {} in a batch'.format(batch[j], exact), **where)
            require(abs(back[j] - exact) <= tol, 'distance {} instead of {} with the arguments exchanged'.format(back[j], exact), **where)
            require(abs(mirror[j] - exact) <= tol, 'distance {} instead of {} for reversed limits'.format(mirror[j], exact), **where)
            for n, vals in zip(shifts, moved):
                require(abs(vals[j] - exact) <= 4 * tol, 'distance {} instead of {} when shifted by {} box sizes'.format(vals[j], exact, n), **where)
            for vec in (vectors[j], np.asarray(cs.connecting_vector(parr, arrays[j]))):
                vec = vec.tolist()
                require(len(vec) == len(p) and abs(math.sqrt(sum(x * x for x in vec)) - exact) <= tol, 'connecting vector {} with distance {}'.format(vec, exact), **where)
                end = [x + v for x, v in zip(p, vec)]
                require(box.same(end, q, tol), 'the connecting vector {} leads to {}'.format(vec, end), **where)
            stats.nontrivial((limits, case['periodic'], p, q))
        stats.evaluation(len(pts))
        require(np.array_equal(parr, np.array(p)), 'the position was modified')
    require(np.array_equal(everything, np.array(pts)), 'the positions were modified')


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 10000
