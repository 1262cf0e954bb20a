"""
C25: plots of identification results: all graphs up to a number of nodes are
drawn as lines, and sequences of objects as results; what the axes show is
compared with the links and positions.
"""
import itertools
import random
from collections import Counter

import networkx as nx
import numpy as np

from nodefinder import identify
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.identify.result import IdentificationResult, IdentificationResultContainer, NodalLine, NodalPoint

from ..clusters import quiet
from ..core import require
from ..plots import plt, Shown, fill, limits as shown_limits, new_axis, quietly, rgba, unchanged, wipe

ID = 'C25'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all graphs up to a number of nodes, with links of different lengths, and of sequences of objects, plotted by the real code; the artists on the axes against the links and positions'
RULE = 'An input is nontrivial if the graph, its positions, feature size, objects or options differ.'
BOUNDS = {
    'quick': 'all graphs with up to 5 nodes (up to 4 in all orders of their nodes), feature sizes for which no, some and all links are cut (some exactly at the limit), dimensions 2 and 3; all sequences of up to 3 objects out of 9 kinds, 24 further identified results, new and given axes; up to 130 objects, lines with up to 331 nodes',
    'thorough': 'all graphs with up to 6 nodes, sequences of up to 4 objects out of 9 kinds; up to 520 objects, lines with up to 1301 nodes',
}
ASSUMPTIONS = ['what is drawn is read from the lines and collections of the matplotlib axes', 'objects share no link and no position; the colours repeat after ten objects']

# distances are 3, 4, 5, 6, ..., so that several links have exactly the same length
SPOTS = [(0., 0., 0.), (3., 0., 0.), (3., 4., 0.), (0., 4., 0.), (6., 8., 0.), (0., 0., 12.)]
SPOTS_2D = [p[:2] for p in SPOTS[:5]] + [(12., 0.)]
LIMITS = [(-1., 13.), (0., 10.), (0., 16.)]


def cases(tier):
    big = tier == 'thorough'
    for dim in (2, 3):
        for num in range(1, 6):
            parts = 8 if num == 5 else 1
            for part in range(parts):
                yield dict(kind='graphs', dim=dim, num=num, part=part, parts=parts, orders=num <= 4)
        if big:
            for part in range(64):
                yield dict(kind='graphs', dim=dim, num=6, part=part, parts=64, orders=False)
        for first in KINDS:
            for given in (False, True):
                for second in (KINDS if given else ['']):
                    yield dict(kind='objects', dim=dim, first=[first, second] if given else [first], given=given, size=(3 if big else 2) if given else 1)
        for given in (False, True):
            yield dict(kind='many', dim=dim, given=given)
            for num in (25, 67, 130) if not big else (25, 67, 130, 331, 520):
                yield dict(kind='crowd', dim=dim, given=given, num=num)
        for what in LARGE:
            for num in (25, 67, 130, 331) if not big else (25, 67, 130, 258, 331, 520, 1301):
                yield dict(kind='large', dim=dim, what=what, num=num)
        for periodic in (True, False):
            for method in ('ballistic', 'shortest_path', 'dominating_set'):
                yield dict(kind='real', dim=dim, periodic=periodic, method=method)


def key(p, q):
    return tuple(sorted((tuple(float(x) for x in p), tuple(float(x) for x in q))))


def expected_links(graph, feature_size):
    """All links which are not cut."""
    res = Counter()
    for p, q in graph.edges:
        length2 = sum((x - y)**2 for x, y in zip(p, q))
        if feature_size is None or length2 <= 4 * feature_size**2:
            res[key(p, q)] += 1
    return res


def links(segments):
    """Segments of zero length are not visible."""
    return Counter(key(p, q) for p, q, _ in segments if p != q)


def make_graph(pts, edges, order=None):
    graph = nx.Graph()
    graph.add_nodes_from(pts if order is None else [pts[i] for i in order])
    graph.add_edges_from(edges)
    return graph


def make_line(graph):
    return NodalLine(graph=graph, degree_count=Counter({d: n for d, n in Counter(d for _, d in graph.degree).items() if d != 2}))


def run(case, stats):
    stats.sample(case, limit=1)
    plt.close('all')
    try:
        globals()['run_' + case['kind']](case, stats)
    finally:
        plt.close('all')


def run_graphs(case, stats):
    dim, num = case['dim'], case['num']
    pts = [tuple(p) for p in (SPOTS if dim == 3 else SPOTS_2D)[:num]]
    pairs = list(itertools.combinations(pts, 2))
    axis = new_axis(dim)
    for mask in range(1 << len(pairs)):
        if mask % case['parts'] != case['part']:
            continue
        edges = [pair for i, pair in enumerate(pairs) if mask >> i & 1]
        orders = itertools.permutations(range(num)) if case['orders'] else (None, tuple(reversed(range(num))))
        for order in orders:
            chosen = edges if order is None or order < order[::-1] else [(q, p) for p, q in edges[::-1]]
            for fs in (None, 1.5, 2., 2.5, 2.49, 0.25) if num < 6 else (None, 2.):
                graph = make_graph(pts, chosen, order)
                kept = nx.to_dict_of_lists(graph)
                color = 'C{}'.format(mask % 9 + 1)
                kwargs = {} if fs is None and mask % 2 else dict(feature_size=fs)
                quietly(identify.plot.nodal_line, make_line(graph), axis=axis, color=color, **kwargs)
                where = dict(edges=chosen, order=order, feature_size=fs)
                require(nx.to_dict_of_lists(graph) == kept, 'the line itself is changed', **where)
                shown = Shown(axis)
                check_line(graph, fs, shown, rgba(color), where)
                wipe(axis)
                stats.evaluation()
                stats.nontrivial((dim, num, mask, order, fs))


def check_line(graph, fs, shown, color, where):
    want = expected_links(graph, fs)
    found = links(shown.segments)
    require(found == want, 'missing links: {}, too many: {}'.format(sorted((want - found).elements()), sorted((found - want).elements())), **where)
    require(all(c == color for _, _, c in shown.segments) and all(c == color for _, c, _ in shown.markers), 'other colours', **where)
    markers = Counter(p for p, _, _ in shown.markers)
    nodes = Counter(tuple(float(x) for x in p) for p in graph.nodes)
    if not graph.edges:
        require(markers == nodes, 'markers {} of a line without links'.format(sorted(markers)), **where)
    else:
        # nodes may be marked, but nothing else
        require(not markers - nodes, 'markers {}'.format(sorted(markers)), **where)
    require(not shown.surfaces and not shown.other, 'something else is drawn', **where)


KINDS = ['point', 'none', 'none_many', 'dot', 'dots', 'chain', 'ring', 'cross', 'cut']


def make_object(kind, i, dim):
    """Objects which are at different places for every ``i``; the feature size is 1."""
    def spot(x, y):
        # inside the limits
        return tuple(float(v) for v in (x, y + 0.5 * i, 0.25 * i)[:dim])

    if kind == 'point':
        return IdentificationResult([spot(1.25, 0.), spot(1., 0.)], 0, NodalPoint(position=np.array(spot(1.125, 0.))))
    if kind == 'none':
        return IdentificationResult([spot(5.25, 0.)], 2)
    if kind == 'none_many':
        return IdentificationResult([spot(0.25 * k, 0.1) for k in range(7)], None)
    pts = [spot(2. * (k % 2) + 0.5 * k, 0.2) for k in range(6)]
    edges = dict(
        dot=[], dots=[], chain=[(0, 1), (1, 2), (2, 3)], ring=[(0, 2), (2, 4), (4, 5), (5, 3), (3, 1), (1, 0)],
        cross=[(0, 1), (0, 2), (0, 3), (0, 4), (4, 5)], cut=[(0, 2), (2, 4), (0, 5), (1, 3)]
    )[kind]
    used = pts[:dict(dot=1, dots=3, chain=4, cross=6).get(kind, 6)]
    graph = make_graph(used, [(pts[a], pts[b]) for a, b in edges])
    return IdentificationResult(list(graph.nodes) + [spot(12., 0.3)], 1, make_line(graph))


def plain(container):
    """All contents of the objects."""
    res = [container.feature_size, repr(container.coordinate_system)]
    for obj in container:
        shape = obj.shape
        res.append((obj.dimension, [tuple(p) for p in obj.positions], type(shape).__name__))
        if isinstance(shape, NodalPoint):
            res.append(tuple(shape.position))
        elif shape is not None:
            res.append((nx.to_dict_of_lists(shape.graph), dict(shape.degree_count)))
    return res


def verify(container, dim, given, stats, **where):
    axis, old = None, []
    plt.close('all')
    kwargs = {}
    if given:
        axis = new_axis(dim)
        kwargs['axis'] = axis
        if stats.counts.get('evaluations', 0) % 2:
            old = fill(axis)
    num = len(plt.get_fignums())
    kept = plain(container)
    fig, res = quietly(identify.plot.result, container, **kwargs)
    require(plain(container) == kept, 'the objects are changed by plotting them', **where)
    if given:
        require(res is axis and len(plt.get_fignums()) == num, 'the given axes are not used', **where)
    else:
        require(fig is not None and res in fig.axes, 'no new figure', **where)
    require(hasattr(res, 'get_zlim') == (dim == 3), 'axes of another dimension', **where)
    require(unchanged(res, old), 'what the axes showed before is changed', **where)
    stats.add('filled_axes', bool(old))
    shown = Shown(res, old)
    all_links, all_markers = Counter(), Counter()
    colors = []
    for i, obj in enumerate(container):
        shape = obj.shape
        own_links, own_markers = Counter(), Counter()
        free = set()
        if shape is None:
            own_markers.update(tuple(float(x) for x in p) for p in obj.positions)
        elif isinstance(shape, NodalPoint):
            own_markers[tuple(float(x) for x in shape.position)] += 1
        else:
            own_links = expected_links(shape.graph, container.feature_size)
            if not shape.graph.edges:
                own_markers.update(tuple(float(x) for x in p) for p in shape.graph.nodes)
        used = {c for p, q, c in shown.segments if key(p, q) in own_links} | {c for p, c, _ in shown.markers if p in own_markers}
        require(len(used) <= 1, 'object {} has colours {}'.format(i, used), **where)
        if used:
            colors.append(used.pop())
        all_links += own_links
        all_markers += own_markers
    found = links(shown.segments)
    require(found == all_links, 'missing links: {}, too many: {}'.format(sorted((all_links - found).elements()), sorted((found - all_links).elements())), **where)
    markers = Counter(p for p, _, _ in shown.markers)
    require(markers == all_markers, 'missing markers: {}, too many: {}'.format(sorted((all_markers - markers).elements()), sorted((markers - all_markers).elements())), **where)
    require(not shown.surfaces and not shown.other, 'something else is drawn', **where)
    for part in range(0, len(colors), 10):
        some = colors[part:part + 10]
        if len(container) <= 10:
            require(len(set(some)) == len(some), 'objects have the same colour', **where)
    for (low, high), (a, b) in zip(shown_limits(res), container.coordinate_system.limits):
        tol = (0.05 if dim == 3 else 1e-9) * (b - a)
        require(abs(low - a) <= tol and abs(high - b) <= tol, 'limits {} instead of {}'.format((low, high), (a, b)), **where)
    stats.evaluation()
    return res


def container_of(kinds, dim, periodic=True):
    cs = CoordinateSystem(limits=LIMITS[:dim], periodic=periodic)
    return IdentificationResultContainer(coordinate_system=cs, feature_size=1., results=[make_object(kind, i, dim) for i, kind in enumerate(kinds)])


def run_objects(case, stats):
    dim = case['dim']
    for length in range(case['size']):
        for rest in itertools.product(KINDS, repeat=length):
            kinds = case['first'] + list(rest)
            if length == case['size'] - 1 == 2 and kinds[0] > kinds[1]:
                continue
            verify(container_of(kinds, dim), dim, case['given'], stats, kinds=kinds)
            stats.nontrivial((dim, case['given'], tuple(kinds)))


def run_many(case, stats):
    dim = case['dim']
    verify(container_of([], dim), dim, case['given'], stats, kinds=[])
    for num in (9, 10, 11, 13):
        for kinds in (KINDS * 2)[:num], ['point'] * num, ['none'] * num, ['ring'] * num, ['dots', 'cut'] * (num // 2):
            verify(container_of(kinds, dim), dim, case['given'], stats, kinds=kinds)
            stats.nontrivial((dim, case['given'], tuple(kinds)))


def run_crowd(case, stats):
    dim, num = case['dim'], case['num']
    limits = [(-1., 13.), (0., 10. + 0.5 * num), (0., 16. + 0.25 * num)][:dim]
    for kinds in [KINDS[i % len(KINDS)] for i in range(num)], ['point'] * num, ['chain'] * num:
        cs = CoordinateSystem(limits=limits, periodic=True)
        objects = [make_object(kind, i, dim) for i, kind in enumerate(kinds)]
        verify(IdentificationResultContainer(coordinate_system=cs, feature_size=1., results=objects), dim, case['given'], stats, kinds=kinds[:9], num=num)
        stats.nontrivial((dim, case['given'], num, kinds[1]))


LARGE = ['chain', 'ring', 'star', 'chains', 'comb', 'grid', 'dots', 'positions']


def run_large(case, stats):
    """Lines with many nodes, many paths, many branches; many positions."""
    dim, num, what = case['dim'], case['num'], case['what']
    # on a spiral; neighbours are at distances which grow slowly
    pts = [((1. + 0.01 * i) * float(np.cos(0.3 * i)), (1. + 0.01 * i) * float(np.sin(0.3 * i)), 0.01 * i)[:dim] for i in range(num)]
    width = int(num**0.5)
    edges = dict(
        chain=[(i, i + 1) for i in range(num - 1)],
        ring=[(i, (i + 1) % num) for i in range(num)],
        star=[(0, i) for i in range(1, num)],
        chains=[(i, i + 1) for i in range(num - 1) if i % 3 != 2],
        comb=[(i, i + 2) for i in range(0, num - 2, 2)] + [(i, i + 1) for i in range(0, num - 1, 2)],
        grid=[(i, i + 1) for i in range(width * width) if i % width != width - 1] + [(i, i + width) for i in range(width * (width - 1))],
    ).get(what, [])
    limits = [(-20., 20.), (-20., 20.), (0., 20.)][:dim]
    cs = CoordinateSystem(limits=limits, periodic=False)
    graph = make_graph(pts, [(pts[a], pts[b]) for a, b in edges], [i * 7 % num for i in range(num)])
    lengths = sorted(sum((x - y)**2 for x, y in zip(p, q))**0.5 for p, q in graph.edges) or [1.]
    for fs in (1e3, lengths[len(lengths) // 2] * 0.501):
        axis = new_axis(dim)
        if what == 'positions':
            obj = IdentificationResult(pts, 2)
        else:
            quietly(identify.plot.nodal_line, make_line(graph.copy()), axis=axis, color='C3', feature_size=fs)
            check_line(graph, fs, Shown(axis), rgba('C3'), dict(num=num, what=what, feature_size=fs))
            obj = IdentificationResult(pts[:3], 1, make_line(graph.copy()))
        verify(IdentificationResultContainer(coordinate_system=cs, feature_size=fs, results=[obj]), dim, num % 2, stats, num=num, what=what)
        stats.nontrivial((dim, what, num, fs))
        plt.close('all')


def run_real(case, stats):
    """Identified objects, also through the boundary."""
    dim = case['dim']
    cs = CoordinateSystem(limits=[(0., 1.)] * dim, periodic=case['periodic'])
    pad = (0.25, ) * (dim - 2)
    row = [(i / 16, 0.25) + pad for i in range(16)]
    column = [(0.6, i / 16) + pad for i in range(16)]
    group = [(0.1, 0.8) + pad, (0.11, 0.8) + pad]
    patch = [(0.2 + 0.04 * i, 0.6 + 0.04 * j) + pad for i in range(5) for j in range(5)]
    for i, positions in enumerate([row, row[:9], column, row + column, group, group + row, patch, patch + row]):
        for fs in (0.1, 0.15):
            random.seed(0)
            res, _ = quiet(identify.run_from_positions, positions, coordinate_system=cs, feature_size=fs, evaluate_line_method=case['method'])
            verify(res, dim, i % 2, stats, number=i, feature_size=fs)
            stats.nontrivial((dim, case['periodic'], case['method'], i, fs))
            stats.outcome(tuple((x.dimension, type(x.shape).__name__) for x in res))


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 5000
    assert stats.counts['filled_axes'] > 200
