"""
C19: dimension of clusters for enumerated outcomes of the random draws: never more
than what the (unwrapped) positions span, and as expected for well-sampled patches.
"""
import itertools
import math
from fractions import Fraction

from nodefinder import identify
from nodefinder.coordinate_system import CoordinateSystem

from ..boxes import ExactBox
from ..clusters import Grouper, quiet
from ..core import explore_case, require
from ..draws import Chosen, Policy, GOLDEN

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of configurations of positions and of the outcomes of the random draws (all of them within a number of deviations for small clusters, families of orders for large ones) on the real identification, against the exact rank of the connecting vectors'
RULE = 'A state is a cluster with the outcomes of the draws up to now; a transition is one identification; each is compared with the exact rank (upper bound) or the dimension of the patch.'
BOUNDS = {
    'quick': 'all subsets of up to 5 positions of 4x4 and 3x3x2 grids and of lines, 3 feature sizes, 5 orders of the draws each; all outcomes within 2 deviations for 24 small clusters; patches of 3-60 (line), 3x3-6x6, 3x3x3 positions, all starting points for the order of the positions, 3 families of samples',
    'thorough': 'subsets of up to 6 positions, within 3 deviations; patches up to 8x8 and 4x4x4, more families of samples',
}
ASSUMPTIONS = ['no two linked positions are exactly half the periodic box apart (the shortest vector is not unique there)', 'well-sampled: at least 3 positions per direction, feature size 1.1 to 2.6 times their distance', 'for the lower bound, samples follow low-discrepancy sequences instead of being chosen by an adversary']

GRIDS = {
    'line': (1, [(i / 16, ) for i in (0, 1, 2, 4, 5, 8, 11, 14, 15)], 0.0625),
    'plane': (2, [(i * 0.25, j * 0.25) for i in range(4) for j in range(4)], 0.25),
    'tilted': (2, [(0.0625 * i + 0.125 * j, 0.125 * i - 0.0625 * j) for i in range(5) for j in range(2)], 0.125),
    'space': (3, [(i * 0.125, j * 0.125, k * 0.25) for i in range(3) for j in range(3) for k in range(2)], 0.125),
    'diagonal': (3, [(0.125 * i, 0.125 * i, 0.125 * i + 0.0625 * j) for i in range(8) for j in range(2)], 0.125),
}
POLICIES = [(('sorted', 0), 0, 0), (('reversed', 0), -1, 0), (('stride', 1), GOLDEN, 0), (('stride', 2), 0.41, 3), (('rotate', 2), 0, 1)]


def cases(tier):
    big = tier == 'thorough'
    for name, (dim, pts, _) in GRIDS.items():
        for periodic in (True, False):
            for ratio in (1.5, 2.25, 4.):
                for first in range(len(pts)):
                    yield dict(kind='subsets', grid=name, periodic=periodic, ratio=ratio, first=first, size=(5 if len(pts) > 10 else 6) if big else (4 if len(pts) > 10 else 5))
    for name in GRIDS:
        for periodic in (True, False):
            for start in range(0, 6, 1):
                for num in (2, 3, 4, 5):
                    yield dict(kind='draws', grid=name, periodic=periodic, start=start, num=num, bound=(3 if num < 5 else 2) if big else (2 if num < 4 else 1))
    for dim in (1, 2, 3):
        for filled in range(1, dim + 1):
            for num in {1: (3, 4, 5, 8, 20, 60), 2: (3, 4, 6), 3: (3, )}[filled] + ({1: (13, 100), 2: (5, 8), 3: (4, )}[filled] if big else ()):
                for periodic in (True, False):
                    for box in range(3):
                        for ratio in (1.1, 1.5, 2.1, 2.6):
                            if not big and (filled == 3 and (ratio == 2.6 or box == 2) or (ratio in (1.1, 2.1)) == (box == 1)):
                                continue
                            yield dict(kind='patch', dim=dim, filled=filled, num=num, periodic=periodic, box=box, ratio=ratio, families=4 if big else 2)
        for periodic in (True, False):
            for box in range(3):
                yield dict(kind='tight', dim=dim, periodic=periodic, box=box)


def rank(vectors):
    """Exact rank of a list of vectors of fractions."""
    rows = [list(v) for v in vectors]
    res = 0
    for col in range(len(rows[0]) if rows else 0):
        pivot = next((r for r in rows if r[col] != 0), None)
        if pivot is None:
            continue
        rows.remove(pivot)
        rows = [[x - r[col] / pivot[col] * y for x, y in zip(r, pivot)] for r in rows]
        rows = [r for r in rows if any(r)]
        res += 1
    return res


def span(grouper, box, group):
    return rank([box.delta(p, q) for p, q in itertools.combinations(group, 2) if grouper.linked(p, q)])


def identified(policy, stats, positions, cs, fs):
    with policy.active():
        res, _ = quiet(identify.run_from_positions, positions, coordinate_system=cs, feature_size=fs, evaluate_line_method='ballistic')
    stats.transition()
    stats.evaluation()
    return res


def check_bound(res, grouper, box, **where):
    for obj in res:
        group = [tuple(float(x) for x in p) for p in obj.positions]
        if obj.dimension is None:
            continue
        if box.periodic and any(2 * abs(d) == s for p, q in itertools.combinations(group, 2) if grouper.linked(p, q) for d, s in zip(box.delta(p, q), box.size)):
            continue  # more than one shortest vector
        most = span(grouper, box, group)
        require(obj.dimension in (0, 1, 2, 3) and obj.dimension <= min(most, box.dim), 'dimension {} of positions which span {} dimensions'.format(obj.dimension, most), positions=group, **where)
        if len(group) == 1:
            require(obj.dimension == 0, 'single position of dimension {}'.format(obj.dimension), **where)


def run(case, stats):
    stats.sample(case, limit=1)
    globals()['run_' + case['kind']](case, stats)


def run_subsets(case, stats):
    dim, pts, unit = GRIDS[case['grid']]
    lims = [(0., 1.), (0., 1.), (0., 0.75)][:dim]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    fs = case['ratio'] * unit
    grouper = Grouper(box, fs)
    for size in range(case['size']):
        for number, rest in enumerate(itertools.combinations(pts[case['first'] + 1:], size)):
            positions = [pts[case['first']]] + list(rest)
            for i, (order, factor, offset) in enumerate(POLICIES):
                if size > 1 and (i + number) % 5 > 0:
                    continue
                res = identified(Policy(order, factor, offset), stats, positions, cs, fs)
                check_bound(res, grouper, box, all_positions=positions, feature_size=fs, periodic=case['periodic'], policy=(order, factor, offset))
                stats.outcome(tuple(sorted((str(o.dimension), len(o.positions)) for o in res)))
            stats.state((case['grid'], case['periodic'], case['ratio'], tuple(positions)))


def run_draws(case, stats):
    """All outcomes of the draws within some deviations from the first ones."""
    dim, pts, unit = GRIDS[case['grid']]
    lims = [(0., 1.), (0., 1.), (0., 0.75)][:dim]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    n = len(pts)
    positions = [pts[(case['start'] + i * (1 + case['start'] % 3)) % n] for i in range(case['num'])]
    fs = 3. * unit
    grouper = Grouper(box, fs)

    def one(chooser):
        res = identified(Chosen(chooser), stats, positions, cs, fs)
        check_bound(res, grouper, box, all_positions=positions, feature_size=fs, periodic=case['periodic'])
        stats.trace()
        stats.state(tuple(chooser.choices()) if callable(getattr(chooser, 'choices', None)) else repr(chooser))
        stats.outcome(tuple(sorted((str(o.dimension), len(o.positions)) for o in res)))

    explore_case(case, one, stats, bound=case['bound'])


BOX = [
    [(0., 1.), (0., 1.), (0., 1.)],
    [(-3., 2.), (10., 12.), (-0.5, 0.25)],
    [(100., 101.), (0., 8.), (2., 3.5)],
]


def run_patch(case, stats):
    dim, filled, num = case['dim'], case['filled'], case['num']
    lims = BOX[case['box']][:dim]
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    sizes = [b - a for a, b in lims]
    # at most half of the box is filled
    step = min(sizes) * 0.5 / num
    fs = case['ratio'] * step
    for axes in itertools.combinations(range(dim), filled):
        for place in (0.05, 0.31, 0.9) if case['periodic'] else (0.02, 0.45):
            if filled == 3 and place == 0.31:
                continue
            positions = []
            for idx in itertools.product(range(num), repeat=filled):
                pos = [a + place * s for (a, _), s in zip(lims, sizes)]
                for axis, i in zip(axes, idx):
                    pos[axis] += step * i
                if case['periodic']:
                    pos = [a + (x - a) % s for x, (a, _), s in zip(pos, lims, sizes)]
                positions.append(tuple(pos))
            n = len(positions)
            starts = range(n) if filled == 1 and n <= 8 else range(0, n, max(1, n // (7 if case['families'] > 2 else 4)))
            if filled == 3:
                starts = range(0, n, max(1, n // 3))
            factors = [(GOLDEN, 0), (math.sqrt(2) - 1, 1), (0.7236, 2), (math.sqrt(3) - 1, 5)][:case['families']]
            for start in starts:
                for kind in ('stride', 'rotate'):
                    for factor, offset in factors:
                        if filled == 1 and factor != GOLDEN or filled == 3 and kind == 'rotate' and factor != GOLDEN:
                            continue
                        res = identified(Policy((kind, start), factor, offset + start), stats, positions, cs, fs)
                        dims = [o.dimension for o in res]
                        require(dims == [filled], 'dimension {} of a patch of dimension {}'.format(dims, filled), case=case, axes=axes, place=place, policy=(kind, start, factor))
                        stats.trace()
                        stats.state((dim, axes, num, case['periodic'], case['box'], case['ratio'], place, kind, start, factor))


def run_tight(case, stats):
    """Groups which are much smaller than the feature size."""
    dim = case['dim']
    lims = BOX[case['box']][:dim]
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    smallest = min(b - a for a, b in lims)
    for fs in (0.3 * smallest, 0.05 * smallest):
        for num in range(1, 12):
            for place in (0.5, 0.999, 0.):
                for shape in range(3):
                    positions = []
                    for i in range(num):
                        shift = [(0.08 * (i / num)), 0.05 * (i * i % 7) / 7, 0.05 * (i % 2)][:dim]
                        if shape == 1:
                            shift = [shift[0]] + [0.] * (dim - 1)
                        elif shape == 2:
                            shift = [x * 1e-6 for x in shift]
                        pos = [a + place * (b - a) + fs * s / 2 for (a, b), s in zip(lims, shift)]
                        if case['periodic']:
                            pos = [a + (x - a) % (b - a) for x, (a, b) in zip(pos, lims)]
                        positions.append(tuple(pos))
                    for order, factor, offset in POLICIES:
                        res = identified(Policy(order, factor, offset), stats, positions, cs, fs)
                        dims = [o.dimension for o in res]
                        require(dims == [0], 'dimensions {} of a tight group'.format(dims), positions=positions, feature_size=fs)
                    stats.state((dim, case['box'], case['periodic'], fs, num, place, shape))


def finish(stats, tier):
    assert len(stats.sets['states']) > 10000
