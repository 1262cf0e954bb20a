"""
C18: clusters of all subsets of grids of positions, in different orders, with
repetitions and shifted boxes, against connected components with exact distances.
"""
import itertools
import random

import numpy as np

from nodefinder import identify
from nodefinder.coordinate_system import CoordinateSystem

from ..boxes import ExactBox
from ..clusters import Grouper, quiet
from ..core import require

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all subsets (and all orders and repetitions of the small ones) of grids of positions in boxes with open and periodic boundaries, real identification against connected components computed with exact distances'
RULE = 'An input is nontrivial if the box, feature size or sequence of positions differ.'
BOUNDS = {
    'quick': 'all subsets of up to 11 positions in dimension 1, 3x3 in dimension 2, 2x2x2 in dimension 3, for 4-6 feature sizes each (some exactly at a grid distance), 2-3 origins; all orders of subsets of up to 3 positions; two dense groups of 2-35 positions linked by single ones; lines, combs and pairs of up to 1500 positions',
    'thorough': 'all subsets of up to 14 positions in dimension 1, 4x3 in dimension 2, 3x2x2 in dimension 3; all orders of subsets of up to 4 positions, repeated positions',
}
ASSUMPTIONS = ['all coordinates are such that the distances are exact or differ clearly from the feature size']

# irregular positions in units of 1/16 of the box, with neighbours at equal distances
SPOTS_1D = [0, 1, 2, 4, 5, 7, 8, 10, 13, 15, 16, 3, 11, 20]


def cases(tier):
    big = tier == 'thorough'
    n1 = 14 if big else 11
    for periodic in (True, False):
        for shift in (0., -0.375, 5.5) if big else (0., -0.375):
            for fs in (1., 2., 3., 1.5, 0.5, 7., 0., 40.):
                # 1D: split by the subset of the first few positions
                for prefix in range(8 if big else 2):
                    yield dict(kind='subsets', grid='1d', num=n1, shift=shift, fs=fs, periodic=periodic, prefix=prefix, bits=3 if big else 1)
            for grid, sizes in (('2d', (1., 1.25, 2., 0.75, 2.5)), ('2d_edge', (4., 5., 3., 4.5)), ('3d', (2., 3., 1., 2.25))):
                for fs in sizes:
                    for prefix in range(8 if big else 1):
                        yield dict(kind='subsets', grid=grid, num=12 if big else {'3d': 8}.get(grid, 9), shift=shift, fs=fs, periodic=periodic, prefix=prefix, bits=3 if big else 0)
            for grid, fs in (('1d', 2.), ('1d', 3.), ('2d', 1.), ('2d_edge', 5.), ('3d', 2.)):
                yield dict(kind='orders', grid=grid, num=9 if big else 7, shift=shift, fs=fs, periodic=periodic, size=4 if big else 3)
            for dim in (1, 2, 3):
                for n in (2, 5, 9, 10, 12, 20, 35) + ((60, 90) if big else ()):
                    yield dict(kind='bridge', grid='2d', dim=dim, num=n, shift=shift, periodic=periodic, moves=24 if big else 8)
            for n in (12, 30, 64, 100) + ((150, 257) if big else ()):
                yield dict(kind='chains', grid='2d', num=n, shift=shift, fs=1., periodic=periodic)
            for n in (201, 600, 1500) + ((4000, ) if big else ()):
                for shape in ('line', 'comb', 'pairs'):
                    yield dict(kind='large', grid='2d', shape=shape, num=n, shift=shift, periodic=periodic)


def run_large(case, stats):
    """Hundreds of positions on a lattice, with the clusters known from the construction."""
    n, s, periodic = case['num'], case['shift'], case['periodic']
    lims = [(s, s + 2. * n), (s, s + 64.)]
    cs = CoordinateSystem(limits=lims, periodic=periodic)
    groups = []
    if case['shape'] == 'line':
        # two parallel lines, the second one has a gap
        groups = [[(s + i + 3., s + 1.) for i in range(n // 2)], [(s + i + 3., s + 5.) for i in range(n // 4)], [(s + i + 5., s + 5.) for i in range(n // 4, n // 2)]]
    elif case['shape'] == 'comb':
        # one line with teeth, and single positions between the tips of the teeth
        main = [(s + i + 3., s + 1.) for i in range(n // 2)]
        for i in range(0, n // 2, 4):
            main += [(s + i + 3., s + 1. + j) for j in range(1, 4)]
        groups = [main] + [[(s + i + 5., s + 4.)] for i in range(0, n // 2 - 4, 4)]
    else:
        groups = [[(s + 3. * i, s + 8.), (s + 3. * i + 1, s + 8.)] for i in range(n // 2)]
    want = frozenset(frozenset(g) for g in groups if g)
    pts = [p for g in groups for p in g]
    by_tooth = sorted(pts, key=lambda p: (p[1] * 7 + p[0] * 13) % 31)
    for given in (pts, pts[::-1], by_tooth, np.array(pts[1::2] + pts[::2])):
        random.seed(0)
        res, _ = quiet(identify.run_from_positions, given, coordinate_system=cs, feature_size=1.5, evaluate_line_method='ballistic')
        found = frozenset(frozenset(tuple(float(x) for x in p) for p in obj.positions) for obj in res)
        require(sum(len(obj.positions) for obj in res) == len(pts), 'positions are lost or repeated', case=case)
        require(len(res) == len(want), '{} clusters instead of {}'.format(len(res), len(want)), case=case)
        require(found == want, 'other clusters', case=case)
        stats.evaluation()
        stats.nontrivial((case['shape'], n, s, periodic, repr(given[:3])))


def run_chains(case, stats, order):
    """A line of many positions which is interrupted at two places."""
    n = case['num']
    s = case['shift']
    lims = [(s, s + n + 2.), (s, s + 3.)]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    for fs in (1., 1.5):
        grouper = Grouper(box, fs)
        for first in (0, 1, n // 2, n - 1):
            for gap in (0.25, 0.5, 0.75):
                pts = []
                x = s + n - 3.5
                for i in range(n):
                    pts.append((x if x < s + n + 2 or not case['periodic'] else x - n - 2, s + (i % 2) * 0.5))
                    x += 0.75 + (gap if i == first or i == n // 3 else 0)
                given = order(pts)
                check(cs, grouper, fs, pts, given, stats, limits=lims, periodic=case['periodic'], feature_size=fs)
                stats.nontrivial((lims, fs, case['periodic'], tuple(given)))


def run_bridge(case, stats):
    """
    Two dense groups, of which only the outermost positions are linked to a position in between,
    directly or not at all.
    """
    s, n, dim = case['shift'], case['num'], case['dim']
    lims = [(s, s + 8.)] + [(0., 4.)] * (dim - 1)
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    fs = 1.
    grouper = Grouper(box, fs)
    rest = (1.25, 3.5)[:dim - 1]
    for spacing in (1e-10, 1 / 1024, 1 / 3e3):
        for left, right in ((0.999, 0.999), (0.999, 1.001), (1.001, 1.001)):
            for i in range(case['moves']):
                x = s + (i * 8 / case['moves'] if case['periodic'] else i * 4 / case['moves'])
                first = [x + j * spacing for j in range(n)]
                mid = first[-1] + left
                second = [mid + right + j * spacing for j in range(n // 2 + 1)]
                pts = [(y if not case['periodic'] or i % 2 else s + (y - s) % 8., ) + rest for y in first + [mid] + second]
                given = list(pts) if i % 3 else pts[::-1]
                check(cs, grouper, fs, pts, given, stats, limits=lims, periodic=case['periodic'], feature_size=fs)
                stats.nontrivial((lims, case['periodic'], tuple(given)))


def grid(case):
    """Limits, positions and unit of length."""
    s = case['shift']
    if case['grid'] == '1d':
        unit = 0.25
        lims = [(s, s + 16 * unit)]
        pts = [(s + unit * i, ) for i in SPOTS_1D]
    elif case['grid'] == '2d':
        unit = 0.5
        lims = [(s, s + 4 * unit), (-2., -2. + 3 * unit)]
        rows = [0, 1, 2.75]
        pts = [(s + unit * i, -2. + unit * j) for i in (0, 1, 3) + ((2, ) if case['num'] > 9 else ()) for j in rows]
    elif case['grid'] == '2d_edge':
        # distances 3, 4, 5; some positions are at the upper limit or outside
        unit = 1.
        lims = [(s, s + 16.), (s, s + 14.)]
        pts = [(s + x, s + y) for x, y in [(0, 0), (3, 4), (3, 0), (0, 10), (13, 10), (16, 14), (16, 5), (8, 4), (-3, -4), (8, 7), (19, 0), (12, 1)]]
    else:
        unit = 0.5
        lims = [(s, s + 4 * unit), (0., 5 * unit), (s, s + 3 * unit)]
        pts = [(s + unit * i, unit * j, s + unit * k) for i in (0, 1, 3) for j in (0, 2) for k in (0, 2)]
        if case['num'] == 8:
            pts = pts[:4] + pts[8:]
    return lims, pts[:case['num']], unit


def check(cs, grouper, fs, positions, given, stats, **where):
    random.seed(0)
    res, _ = quiet(identify.run_from_positions, given, coordinate_system=cs, feature_size=fs, evaluate_line_method='ballistic')
    groups = [[tuple(float(x) for x in p) for p in obj.positions] for obj in res]
    require(len(res) == len(groups), 'wrong length of the result')
    flat = [p for g in groups for p in g]
    require(len(flat) == len(set(flat)), 'a position is in two clusters or twice in one: {}'.format(groups), positions=positions, **where)
    found = frozenset(frozenset(g) for g in groups)
    want = grouper.clusters(positions)
    if found != want:
        require(False, 'clusters {} instead of {}'.format(sorted(map(sorted, found)), sorted(map(sorted, want))), positions=positions, **where)
    stats.evaluation()


def run(case, stats):
    stats.sample(case, limit=1)
    if case['kind'] == 'chains':
        for order in (list, lambda x: x[::-1], lambda x: x[::2] + x[1::2], lambda x: x[len(x) // 2:] + x[:len(x) // 2]):
            run_chains(case, stats, order)
        return
    if case['kind'] == 'large':
        run_large(case, stats)
        return
    if case['kind'] == 'bridge':
        run_bridge(case, stats)
        return
    lims, pts, unit = grid(case)
    box = ExactBox(lims, case['periodic'])
    fs = case['fs'] * unit
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    grouper = Grouper(box, fs)
    where = dict(limits=lims, periodic=case['periodic'], feature_size=fs)
    for p, q in itertools.combinations(pts, 2):
        assert not grouper.doubtful(p, q, 1e-6)
    if case['kind'] == 'subsets':
        n = len(pts)
        bits = case['bits']
        for mask in range(1 << (n - bits)):
            full = (mask << bits) | case['prefix']
            if not full:
                continue
            chosen = [p for i, p in enumerate(pts) if full >> i & 1]
            if full % 3 == 1:
                chosen.reverse()
            if full % 5 == 1:
                given = np.array(chosen)
            elif full % 5 == 2:
                given = [np.array(p) for p in chosen] + [chosen[0]]
            else:
                given = list(chosen)
            check(cs, grouper, fs, chosen, given, stats, **where)
            stats.nontrivial((case['grid'], case['shift'], fs, case['periodic'], full))
    else:
        for size in range(1, case['size'] + 1):
            for seq in itertools.product(pts, repeat=size):
                if size == 4 and len(set(seq)) < 3:
                    continue
                check(cs, grouper, fs, seq, list(seq), stats, **where)
                stats.nontrivial((case['grid'], case['shift'], fs, case['periodic'], seq))


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 20000
