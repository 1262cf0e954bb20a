"""
C03: neighbour queries against a brute-force search with exact distances.

'range': many stored positions, queried just inside the cutoff from each of them.
'pairs': every stored position with every query position, on grids with cell
boundaries, box boundaries, their neighbouring numbers and positions outside.
'sequences': all sequences of additions (nodes, rejected results, refined
positions) up to a depth, with all queries after each of them or only at the end,
and containers built in the constructor.
"""
import itertools
import math

import numpy as np

from ..boxes import ExactBox, LIMITS_1D, points, points_1d
from ..core import require
from ..impl import make_container, minimization_result

ID = 'C03'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of operation sequences (add node / rejected / refined, query) up to a depth and of all pairs of stored and queried positions on boundary grids, real container against brute force with exact distances'
RULE = 'An input is nontrivial if box, cutoff, boundary condition, sequence of additions or queried position differ.'
BOUNDS = {
    'quick': 'dimension 1: 11 boxes x 12 cutoffs x all pairs of >= 30 positions; dimension 2: 4 boxes x 6 cutoffs x all pairs of >= 36 positions; dimension 3: 2 boxes x 3 cutoffs x pairs of 27; sequences of up to 3 additions from 10-12 (position, kind)',
    'thorough': 'all pairs of >= 100 positions in dimension 2, 64 in dimension 3, more boxes; sequences of up to 4 additions',
}
ASSUMPTIONS = ['positions whose distance differs from the cutoff by less than 1e-9 of the box may count as in range or not']

CUTOFFS = [2., 1., 0.9, 0.5, 0.4, 1. / 3, 0.3, 0.25, 0.1, 0.011, 0.005, 0.]

# fractions of the size, so that the number of cells is rounded by all amounts
RATIOS = [0.97, 0.8, 0.67, 0.6, 0.56, 0.39, 0.37, 0.29, 0.27, 1 / 4.6, 1 / 5.99, 1 / 7.5, 1 / 11.7, 1 / 30.6, 1 / 99.9]


def cases(tier):
    big = tier == 'thorough'
    boxes2 = list(itertools.combinations(LIMITS_1D, 2))
    boxes3 = list(itertools.combinations(LIMITS_1D, 3))
    for periodic in (True, False):
        for lim in LIMITS_1D:
            for cutoff in CUTOFFS:
                yield dict(kind='pairs', limits=[list(lim)], periodic=periodic, cutoff=cutoff, density=2 if big else 1)
        for lims in boxes2[::4 if big else 15]:
            for cutoff in (2., 0.7, 0.5, 0.4, 0.3, 0.2) + ((1., 0.34, 0.26, 0.1) if big else ()):
                yield dict(kind='pairs', limits=[list(x) for x in lims], periodic=periodic, cutoff=cutoff, density=1 if big else 0)
        for lims in boxes3[::30 if big else 90]:
            for cutoff in (1., 0.45, 0.3) + ((0.7, 0.24) if big else ()):
                yield dict(kind='pairs', limits=[list(x) for x in lims], periodic=periodic, cutoff=cutoff, density=-1 if big else -2)
        # many positions, queried around the cutoff from each of them
        for dim, number, lims in ((1, 41, [(0., 1.)]), (1, 41, [(-3., 2.)]), (2, 9, [(0., 1.), (0., 1.)]), (2, 9, [(10., 12.), (-0.5, 0.25)]), (3, 4, [(0., 1.), (-1., 1.), (0., 3.)])):
            for cutoff in RATIOS if big or dim == 1 else RATIOS[1::3] if dim == 2 else RATIOS[2:9:5]:
                if dim < 3 or cutoff > 0.1:
                    yield dict(kind='range', limits=[list(x) for x in lims], periodic=periodic, cutoff=cutoff, number=number + (3 if big else 0))
        # histories with very many positions in few cells
        for lims in ([(0., 1.)], [(0., 1.), (-1., 1.)], [(0., 1.), (-1., 1.), (0., 3.)]):
            for cutoff in (0.9, 0.4, 0.26):
                yield dict(kind='many', limits=[list(x) for x in lims], periodic=periodic, cutoff=cutoff, number=20000 if big else 2600)
        # cells of very different shape
        for lims in ([(0., 1.), (0., 10.)], [(0., 0.01), (-1., 1.)]):
            for cutoff in (0.5, 0.12, 0.04):
                yield dict(kind='pairs', limits=[list(x) for x in lims], periodic=periodic, cutoff=cutoff, density=0, longest=True)
        for dim, lims in ((1, [(0., 1.)]), (1, [(0.7, -0.2)]), (2, [(-1., 1.), (2., 5.)])):
            for cutoff in (0.9, 0.45, 0.3, 0.2, 0.):
                for first in range(10 if dim == 1 else 12):
                    yield dict(kind='sequences', limits=[list(x) for x in lims], periodic=periodic, cutoff=cutoff, first=first, depth=3 if big else 2, query='each' if first % 2 or big else 'end')


def grid(case, box, cutoff):
    """Positions at cell boundaries and next to them, and outside of the box."""
    axes = []
    for lim, s in zip(case['limits'], box.size):
        a, b = sorted(float(x) for x in lim)
        size = b - a
        cells = 100 if cutoff == 0 else min(100, max(1, int(size / cutoff)))
        bounds = [a + size * k / cells for k in range(cells + 1)]
        if len(bounds) > 6:
            bounds = bounds[:3] + bounds[-3:]
        density = case['density']
        if density == -2:
            vals = [a, a + 0.3 * size, b - 0.1 * size]
        elif density == -1:
            vals = [a, a + 0.3 * size, b - 0.1 * size, b + 0.2 * size]
        else:
            vals = [a, a + 0.03 * size, a + 0.5 * size, b - 1e-12 * size, a - 0.02 * size, b + 0.4 * size]
            vals += bounds[1:3] + [bounds[-2]]
            if density == 0:
                vals = vals[:7]
        if density >= 1:
            vals += bounds + [a + cutoff, a + 0.999 * cutoff, b - cutoff, b - 0.999 * cutoff, b, a - cutoff, b + cutoff, a - 2.3 * size, a + 7.1 * size]
        if case['density'] >= 1 and box.dim == 1:
            vals += [math.nextafter(x, math.inf) for x in bounds] + [math.nextafter(x, -math.inf) for x in bounds]
            vals += [a - 1e-17, a + 0.77 * size, a + 0.21 * size]
        if density >= 2:
            vals += [a + size * k / 12 for k in range(-3, 16)]
        axes.append(sorted(set(vals)))
    if box.dim > 1 and case['density'] >= 1:
        axes = [x if len(x) <= 12 else x[::2] for x in axes]
    return list(itertools.product(*axes))


def run(case, stats):
    stats.sample(case, limit=1)
    box = ExactBox(case['limits'], case['periodic'])
    sizes = [float(s) for s in box.size]
    cutoff = case['cutoff'] * (max(sizes) if case.get('longest') else min(sizes))
    globals()['run_' + case['kind']](case, stats, box, cutoff)


def check_query(box, cutoff, tol, stored, found, what, **where):
    """Every position in range once, nothing but distances of stored ones."""
    found = sorted(float(x) for x in found)
    true = sorted(stored)
    rest = list(found)
    need = [d for d in true if d < cutoff - tol or d == cutoff == 0]
    for d in need:
        match = [x for x in rest if abs(x - d) <= tol]
        require(match, '{}: distance {} of a position in range (cutoff {}) is missing in {}'.format(what, d, cutoff, found), **where)
        rest.remove(min(match, key=lambda x: abs(x - d)))
    others = [d for d in true if d not in need] if len(need) < len(true) else []
    if len(need) < len(true):
        others = true[len(need):]
    for x in rest:
        match = [d for d in others if abs(x - d) <= tol]
        require(match, '{}: {} is no distance of another stored position, or is reported more than once: {}'.format(what, x, found), **where)
        others.remove(match[0])


def queries(container, arr):
    return [
        ('iterator', list(container.get_neighbour_distance_iterator(arr))),
        ('list', list(np.asarray(container.get_all_neighbour_distances(arr)).ravel())),
        ('refined', list(container.get_refined_neighbour_distance_iterator(arr)))
    ]


def run_pairs(case, stats, box, cutoff):
    pts = grid(case, box, cutoff)
    limits = [tuple(x) for x in case['limits']]
    for p in pts:
        container = make_container(limits, case['periodic'], cutoff)
        container.add_result(minimization_result(p, 0.))
        container.set_refined(np.array(p))
        for q in pts:
            tol = 1e-11 * box.scale(p, q)
            dist = box.distance(p, q)
            edge = max(tol, 1e-9 * float(min(box.size)))
            for name, found in queries(container, np.array(q)):
                found = [float(x) for x in found]
                inside = dist < cutoff - edge or dist == cutoff == 0
                if len(found) > 1 or inside and not found or any(abs(x - dist) > tol for x in found):
                    require(False, '{}: {} for a position at distance {} (cutoff {})'.format(name, found, dist, cutoff), stored=p, query=q, limits=limits, periodic=case['periodic'])
            stats.evaluation(3)
            stats.nontrivial((case['limits'], case['periodic'], cutoff, p, q))


def run_range(case, stats, box, cutoff):
    limits = [tuple(x) for x in case['limits']]
    number = case['number']
    pts = list(itertools.product(*[[a + (b - a) * k / number for k in range(number)] for a, b in limits]))
    container = make_container(limits, case['periodic'], cutoff, nodes=pts, refined=pts)
    stored = np.array(pts)
    sizes = np.array([float(s) for s in box.size])
    edge = 1e-9 * min(sizes)
    moves = [m for m in itertools.product((-0.999, 0., 0.999) if box.dim == 1 else (-0.7, 0., 0.7), repeat=box.dim)]
    moves += [tuple(f if i == axis else 0. for i in range(box.dim)) for axis in range(box.dim) for f in (-0.999, 0.999)] if box.dim > 1 else []
    for p in pts:
        for move in moves:
            q = np.array(p) + np.array(move) * cutoff
            delta = stored - q
            if case['periodic']:
                delta = delta - np.round(delta / sizes) * sizes
            dist = np.sort(np.sqrt(np.sum(delta**2, axis=1)))
            for name, found in queries(container, q):
                found = np.sort(np.array(found, dtype=float))
                require(len(found) <= len(dist), '{}: more distances than stored positions'.format(name), query=q, move=move, stored=len(pts), **case)
                # the smallest ones are compared one by one; the others have to belong to stored positions
                need = int(np.sum(dist < cutoff - edge))
                require(np.allclose(found[:need], dist[:need], rtol=0, atol=edge) and len(found) >= need, '{}: distances {}, but the positions in range (cutoff {}) have {}'.format(name, found[:need + 2], cutoff, dist[:need]), query=q, move=move, start=p, **case)
                near = np.clip(np.searchsorted(dist, found), 1, len(dist) - 1) if len(dist) > 1 else np.zeros(len(found), dtype=int)
                require(not len(found) or np.max(np.minimum(np.abs(dist[near] - found), np.abs(dist[near - 1] - found))) < edge, '{}: a distance of no stored position'.format(name), query=q, move=move, **case)
            stats.evaluation(3)
            stats.nontrivial((case['limits'], case['periodic'], cutoff, p, move))


def run_many(case, stats, box, cutoff):
    limits = [tuple(x) for x in case['limits']]
    lower = np.array([float(a) for a, _ in box.limits])
    sizes = np.array([float(s) for s in box.size])
    edge = 1e-9 * min(sizes)
    roots = np.sqrt([2., 3., 5.][:box.dim])
    container = make_container(limits, case['periodic'], cutoff)
    stored = [[], []]
    asked = [lower + sizes * (i * roots[::-1] % 1) * 1.1 for i in range(8)]
    for i in range(case['number']):
        pos = lower + sizes * (i * roots % 1)
        if i % 3 < 2:
            container.add_result(minimization_result(pos, 0.))
            stored[0].append(pos)
        if i % 3 > 0:
            container.set_refined(pos)
            stored[1].append(pos)
        if i % (case['number'] // 13) == 0 or i in (65, 130, 257, 513, 1025) or i == case['number'] - 1:
            for q in asked:
                for name, found in queries(container, q):
                    delta = np.array(stored[name == 'refined']).reshape(-1, box.dim) - q
                    if case['periodic']:
                        delta = delta - np.round(delta / sizes) * sizes
                    dist = np.sort(np.sqrt(np.sum(delta**2, axis=1)))
                    found = np.sort(np.array(found, dtype=float))
                    need = int(np.sum(dist < cutoff - edge))
                    require(len(dist) >= len(found) >= need and np.allclose(found[:need], dist[:need], rtol=0, atol=edge), '{}: {} distances, but {} positions are in range'.format(name, len(found), need), query=q, stored=i, **case)
                stats.evaluation(3)
                stats.nontrivial((case['limits'], case['periodic'], cutoff, i, q.tolist()))


def run_sequences(case, stats, box, cutoff):
    limits = [tuple(x) for x in case['limits']]
    a = [float(x) for x, _ in box.limits]
    s = [float(x) for x in box.size]
    dim = box.dim
    spots = [0., 0.02, 0.31, 0.93, 1.] if dim == 1 else [(0., 0.5), (0.02, 0.97), (0.98, 0.02), (0.4, 0.4), (0.4, -0.1), (0.7, 0.99)]
    spots = [(x, ) if dim == 1 else x for x in spots]
    pos = [tuple(l + f * w for l, f, w in zip(a, spot, s)) for spot in spots]
    ops = [(kind, p) for kind in ('node', 'refined') for p in pos] + [('rejected', pos[0])]
    ops_first = ops[:10 if dim == 1 else 12]
    asked = pos + [tuple(l + f * w for l, f, w in zip(a, (x, ) * dim, s)) for x in (-0.03, 0.25, 0.6, 1.3)]
    tol = 1e-10
    dist = {(p, q): box.distance(p, q) for p in pos for q in asked}
    arrays = {q: np.array(q) for q in asked}
    for length in range(case['depth'] + 1):
        for rest in itertools.product(ops, repeat=length):
            sequence = (ops_first[case['first']], ) + rest
            container = make_container(limits, case['periodic'], cutoff)
            nodes, refined = [], []

            def check(container):
                for q in asked:
                    for name, found in queries(container, arrays[q]):
                        stored = refined if name == 'refined' else nodes
                        check_query(box, cutoff, tol, [dist[p, q] for p in stored], found, name, sequence=sequence, query=q, limits=limits, periodic=case['periodic'], radius=cutoff)
                    stats.evaluation(3)

            for i, (kind, p) in enumerate(sequence):
                if case['query'] == 'each' and i < 2:
                    check(container)
                if kind == 'refined':
                    container.set_refined(np.array(p))
                    refined.append(p)
                else:
                    container.add_result(minimization_result(p, 0., success=kind == 'node'))
                    if kind == 'node':
                        nodes.append(p)
            check(container)
            require(len(list(container.refined_results)) == len(refined), 'wrong number of refined positions')
            if length == 1:
                # the same contents given to the constructor
                check(make_container(limits, case['periodic'], cutoff, nodes=nodes, refined=refined))
            stats.nontrivial((case['limits'], case['periodic'], cutoff, sequence))


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 50000
