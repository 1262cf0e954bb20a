"""
C20: lines of all subsets of grids and of enumerated larger arrangements, with all
methods: made of cluster positions and short links, covering the cluster, with the
right degree count and shape name.
"""
import itertools
import math
import random
from collections import Counter

import networkx as nx

from nodefinder import identify
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.identify.result import NodalLine

from ..boxes import ExactBox
from ..clusters import Grouper, quiet
from ..core import require
from ..draws import Policy

ID = 'C20'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all subsets of grids (and of families of branched, closed and dense arrangements) with all line methods on the real identification; the reported line against the exact neighbour graph of the cluster'
RULE = 'An input is nontrivial if the positions, box, feature size or method differ and a cluster of dimension one is found.'
BOUNDS = {
    'quick': 'all subsets of up to 7 (dimension 1: 10) positions of grids of 10-16 positions in dimensions 1-3 for 2-3 feature sizes, open and periodic; arrangements (combs, ladders, crosses, rings, double rows, spirals) of up to 60 positions at 3 places, some of up to 300 positions; 3 methods',
    'thorough': 'all subsets of up to 16 positions (all sizes), arrangements of up to 120 positions at 5 places',
}
ASSUMPTIONS = ['distances which differ from the feature size by rounding only may count as links or not']
METHODS = ('ballistic', 'shortest_path', 'dominating_set')

GRIDS = {
    'line': ([(0., 1.)], [(i / 32, ) for i in (0, 1, 2, 4, 5, 7, 8, 11, 30, 31)], (1.5 / 32, 3 / 32, 6 / 32)),
    'plane': ([(0., 2.), (0., 2.)], [(0.25 * i, 0.25 * j) for i in range(4) for j in range(3)], (0.25, 0.375)),
    'wrapped': ([(0., 1.), (-1., 1.)], [((0.25 * i) % 1, 0.25 * j) for i in range(4) for j in range(2)] + [(0.125, 0.5), (0.5, 0.75)], (0.25, 0.375)),
    'irregular': ([(0., 1.), (0., 1.)], [(0., 0.), (0.1, 0.05), (0.17, 0.02), (0.26, 0.09), (0.31, 0.2), (0.28, 0.3), (0.9, 0.98), (0.2, 0.33), (0.82, 0.9), (0.4, 0.1), (0.5, 0.07)], (0.15, 0.21)),
    'space': ([(0., 1.), (0., 1.), (0., 1.)], [(0.25 * i, 0.25 * j, 0.25 * k) for i in range(3) for j in range(2) for k in range(2)], (0.25, 0.375)),
}


def arrangements(big):
    """Name -> positions around the origin, with spacings close to one."""
    res = {}
    for n in (6, 11, 20) + ((33, ) if big else ()):
        res['row{}'.format(n)] = [(float(i), 0.) for i in range(n)]
        res['uneven{}'.format(n)] = [(i + 0.3 * (i * i % 5) / 5, 0.1 * (i % 3)) for i in range(n)]
        res['double{}'.format(n)] = [(float(i), y) for i in range(n) for y in (0., 0.15)]
        res['bend{}'.format(n)] = [(float(min(i, n // 2)), float(max(0, i - n // 2))) for i in range(n)]
        res['tee{}'.format(n)] = [(float(i), 0.) for i in range(n)] + [(float(n // 2), float(j)) for j in range(1, n // 2)]
        res['cross{}'.format(n)] = [(float(i), 0.) for i in range(-(n // 2), n // 2 + 1)] + [(0., float(j)) for j in range(-(n // 2), n // 2 + 1) if j]
        res['square{}'.format(n)] = [(float(i), 0.) for i in range(n)] + [(float(i), float(n)) for i in range(n)] + [(0., float(j)) for j in range(1, n)] + [(float(n), float(j)) for j in range(n + 1)]
        res['eight{}'.format(n)] = [(float(i), y) for i in range(n) for y in (0., 4., 8.)] + [(x, float(j)) for j in (1, 2, 3, 5, 6, 7) for x in (0., float(n - 1))]
        res['comb{}'.format(n)] = [(float(i), 0.) for i in range(n)] + [(float(i), float(j)) for i in range(0, n, 4) for j in (1, 2, 3)]
    return res


def cases(tier):
    big = tier == 'thorough'
    for name, (_, pts, sizes) in GRIDS.items():
        for periodic in (True, False):
            for k in range(len(sizes)):
                parts = 16
                for part in range(parts):
                    yield dict(kind='subsets', grid=name, periodic=periodic, size=k, most=16 if big else (10 if name == 'line' else 7), part=part, parts=parts)
    for name in arrangements(big):
        for periodic in (True, False):
            for dim in (2, 3):
                yield dict(kind='arrangement', name=name, periodic=periodic, dim=dim, places=5 if big else 3)
    for n in (70, 160, 300) + ((700, ) if big else ()):
        for name in ('row', 'square', 'comb', 'cross', 'uneven', 'groups', 'loop'):
            for periodic in (True, False):
                yield dict(kind='long', name=name, num=n, periodic=periodic, dim=2 + n % 4 // 2)


class QuickGrouper:
    """As Grouper, but with floating point numbers."""
    def __init__(self, lims, periodic, fs):
        self.box = ExactBox(lims, periodic)
        self.periodic = periodic
        self.size = [b - a for a, b in lims]
        self.limit = fs**2

    def margin(self, p, q):
        total = 0.
        for x, y, s in zip(p, q, self.size):
            d = abs(x - y)
            if self.periodic:
                d %= s
                d = min(d, s - d)
            total += d * d
        return total - self.limit

    def linked(self, p, q):
        return self.margin(p, q) <= 0

    def doubtful(self, p, q, tol):
        return abs(self.margin(p, q)) < tol


def run_long(case, stats):
    """Arrangements of hundreds of positions."""
    n, dim = case['num'], case['dim']
    side = n // 4
    shape = dict(
        row=[(float(i), 0.) for i in range(n)],
        uneven=[(i + 0.3 * (i * i % 5) / 5, 0.1 * (i % 3)) for i in range(n)],
        square=[(float(i), 0.) for i in range(side)] + [(float(side), float(i)) for i in range(side)] + [(float(side - i), float(side)) for i in range(side)] + [(0., float(side - i)) for i in range(side)],
        comb=[(float(i), 0.) for i in range(n // 2)] + [(float(i), float(j)) for i in range(0, n // 2, 9) for j in range(1, 6)],
        # with the largest feature size, the groups are linked only by their outer positions
        groups=[(3.7 * (i // 3) + 0.75 * (i % 3), 0.02 * (i % 3 == 1)) for i in range(n)],
        loop=[tuple(3.7 * n / 3 / 6.283185307179586 * f((3.7 * (i // 3) + 0.75 * (i % 3)) / (3.7 * n / 3 / 6.283185307179586)) for f in (math.cos, math.sin)) for i in range(n - n % 3)],
        cross=[(float(i), 0.) for i in range(-(n // 4), n // 4 + 1)] + [(0., float(j)) for j in range(-(n // 4), n // 4 + 1) if j],
    )[case['name']]
    extent = max(max(abs(x) for x in p) for p in shape)
    scale = 1. / (2.5 * extent)
    lims = [(0., 1.), (-0.5, 0.5), (2., 3.)][:dim]
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    for place in PLACES[:2]:
        positions = []
        for p in shape:
            pos = [place[0] + scale * p[0], place[1] + scale * p[1], 0.3][:dim]
            if case['periodic']:
                pos = [x % 1 for x in pos]
            positions.append(tuple(x + a for x, (a, _) in zip(pos, lims)))
        for ratio in (1.25, 1.6, 2.3):
            fs = ratio * scale
            grouper = QuickGrouper(lims, case['periodic'], fs)
            for method in METHODS:
                if method == 'dominating_set' and (n > 200 or case['name'] != 'row') and ratio != (2.3 if case['name'] in ('groups', 'loop') else 1.6):
                    continue
                res, warned = identified(stats, positions, cs, fs, method)
                for obj in res:
                    if obj.dimension == 1:
                        check_line(obj, grouper, fs, warned, method, stats, arrangement=case, limits=lims)
                        stats.add('long_lines')
                        stats.nontrivial((case['name'], n, case['periodic'], dim, place, ratio, method))


def check_line(obj, grouper, fs, warned, method, stats, **where):
    where = dict(where, feature_size=fs, method=method, periodic=grouper.box.periodic)
    group = [tuple(float(x) for x in p) for p in obj.positions]
    where['positions'] = group
    shape = obj.shape
    require(isinstance(shape, NodalLine), 'no line for a cluster of dimension one: {}'.format(warned), **where)
    graph = shape.graph
    nodes = [tuple(float(x) for x in n) for n in graph.nodes]
    require(nodes and set(nodes) <= set(group), 'nodes {} which are no positions of the cluster'.format(sorted(set(nodes) - set(group))), **where)

    def near(p, q):
        return grouper.linked(p, q) or grouper.doubtful(p, q, 1e-12)

    for p, q in graph.edges:
        require(p != q, 'a link from {} to itself'.format(p), **where)
        require(near(p, q), 'link between {} and {}, which are further apart than the feature size'.format(p, q), **where)
    for p in group:
        require(any(p == q or near(p, q) for q in nodes), 'position {} is not within the feature size of the line'.format(p), **where)
    degrees = Counter()
    for node in graph.nodes:
        degrees[len(list(graph.neighbors(node)))] += 1
    degrees.pop(2, None)
    found = {int(d): int(n) for d, n in shape.degree_count.items()}
    require(found == dict(degrees), 'degree count {} instead of {}'.format(found, dict(degrees)), **where)
    name = {(): 'CLOSED LOOP', ((1, 2), ): 'OPEN LINE'}.get(tuple(sorted(degrees.items())), 'UNKNOWN')
    require(shape.shape_name == name, 'shape name {} instead of {}'.format(shape.shape_name, name), **where)
    if method != 'ballistic':
        require(nx.is_connected(graph), 'the line is not connected', **where)
    stats.outcome((method, name))


def run(case, stats):
    stats.sample(case, limit=1)
    globals()['run_' + case['kind']](case, stats)


def identified(stats, positions, cs, fs, method):
    with Policy(('stride', 1)).active():
        res, warned = quiet(identify.run_from_positions, positions, coordinate_system=cs, feature_size=fs, evaluate_line_method=method)
    stats.evaluation()
    return res, warned


def run_subsets(case, stats):
    lims, pts, sizes = GRIDS[case['grid']]
    fs = sizes[case['size']]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    grouper = Grouper(box, fs)
    for mask in range(1, 1 << len(pts)):
        if mask % case['parts'] != case['part'] or bin(mask).count('1') > case['most'] or bin(mask).count('1') < 2:
            continue
        positions = [p for i, p in enumerate(pts) if mask >> i & 1]
        if mask % 3 == 0:
            positions.reverse()
        # one cluster each: other subsets contain the parts
        if len(grouper.clusters(positions)) > 1:
            continue
        for method in METHODS:
            res, warned = identified(stats, positions, cs, fs, method)
            for obj in res:
                if obj.dimension == 1:
                    check_line(obj, grouper, fs, warned, method, stats, limits=lims)
                    stats.nontrivial((case['grid'], fs, case['periodic'], mask, method))


PLACES = [(0.1, 0.2), (0.85, 0.9), (0.5, 0.97), (0., 0.), (0.99, 0.4)]


def run_arrangement(case, stats):
    shape = arrangements(True)[case['name']]
    extent = max(max(abs(x) for x in p) for p in shape)
    dim = case['dim']
    scale = 1. / (2.5 * extent)
    lims = [(0., 1.), (-0.5, 0.5), (2., 3.)][:dim]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    for place in PLACES[:case['places']]:
        for ratio in (1.25, 1.6, 2.3, 3.1):
            fs = ratio * scale
            grouper = Grouper(box, fs)
            for order in (0, 1):
                positions = []
                for p in shape:
                    pos = [place[0] + scale * p[order], place[1] + scale * p[1 - order], 0.3 + 0.1 * scale * p[0]][:dim]
                    if case['periodic']:
                        pos = [x % 1 for x in pos]
                    positions.append(tuple(x + a for x, (a, _) in zip(pos, lims)))
                for method in METHODS:
                    res, warned = identified(stats, positions, cs, fs, method)
                    for obj in res:
                        if obj.dimension == 1:
                            check_line(obj, grouper, fs, warned, method, stats, arrangement=case, limits=lims)
                            stats.nontrivial((case['name'], case['periodic'], dim, place, ratio, order, method))


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 5000
    assert stats.counts['long_lines'] > 100
