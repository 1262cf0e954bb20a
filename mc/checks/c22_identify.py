"""
C22: identification of all sequences of results (nodes, rejected ones) up to a
length, as search results, states or positions: every node in exactly one object,
default feature size, and shapes which belong to the dimension.
"""
import itertools
import random
from fractions import Fraction

import numpy as np

from nodefinder import identify
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.identify.result import NodalLine, NodalPoint

from ..boxes import ExactBox
from ..clusters import quiet, unwrap
from ..compare import canon_container, canon_state
from ..core import require
from ..impl import make_container, make_state, minimization_result

ID = 'C22'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of sequences of node and rejected positions up to a length, in open and periodic boxes, identified as search result, state and positions with all line methods, against exact bookkeeping and the exact (unwrapped) mean'
RULE = 'An input is nontrivial if the box, sequence of results, feature size, way it is given or line method differ.'
BOUNDS = {
    'quick': 'all multisets of up to 4 nodes out of 8-10 positions (dimension 1-3, tight groups, across the boundary, outside), up to 2 rejected results, given (also below the distance cutoff of the search) and default feature size; patches of up to 25 nodes; lines of 4-22 nodes given in three ways; objects of more than a thousand nodes',
    'thorough': 'all multisets of up to 5 nodes, more boxes',
}
ASSUMPTIONS = ['the mean of a group of dimension zero is compared if the group is smaller than half the box']

BOXES = {
    1: [([(0., 1.)], 1), ([(-3.5, 2.5)], 6), ([(1000., 1004.)], 4)],
    2: [([(0., 1.), (0., 1.)], 1), ([(-1., 3.), (5., 7.)], 2)],
    3: [([(0., 1.), (-0.5, 0.5), (2., 4.)], 1)],
}
# fractions of the box; the feature size is 0.3 of the smallest edge
SPOTS = {
    1: [0., 0.02, 0.97, 0.5, 0.27, 0.51, -0.01, 1., 0.985, 0.75],
    2: [(0., 0.), (0.02, 0.01), (0.98, 0.99), (0.5, 0.5), (0.52, 0.5), (0.5, 0.73), (0.71, 0.5), (1.02, -0.3), (0.25, 0.)],
    3: [(0., 0., 0.), (0.02, 0.01, 0.), (0.98, 0.99, 1.), (0.5, 0.5, 0.5), (0.6, 0.5, 0.55), (0.5, 0.7, 0.5), (-0.05, 0.1, 0.01), (0.01, 0., 0.25)],
}
METHODS = ('ballistic', 'shortest_path', 'dominating_set')


def cases(tier):
    big = tier == 'thorough'
    for dim in (1, 2, 3):
        for lims, smallest in BOXES[dim][:None if big else 2]:
            for periodic in (True, False):
                for first in range(len(SPOTS[dim])):
                    yield dict(kind='nodes', limits=[list(x) for x in lims], smallest=smallest, periodic=periodic, first=first, size=5 if big else 4)
                yield dict(kind='special', limits=[list(x) for x in lims], smallest=smallest, periodic=periodic)
    for dim in (1, 2, 3):
        for periodic in (True, False):
            for num in (4, 7, 10, 13, 17, 22) + ((6, 8, 15, 29, 40) if big else ()):
                yield dict(kind='way', dim=dim, periodic=periodic, num=num)
            yield dict(kind='many', dim=dim, periodic=periodic, num={1: 1300, 2: 36, 3: 11}[dim])
            for num in (2, 3, 4, 5) + ((7, ) if big else ()):
                for spacing in (0.05, 0.1, 0.2):
                    for filled in range(dim + 1):
                        if num**filled <= (343 if big else 64):
                            yield dict(kind='patch', dim=dim, periodic=periodic, num=num, spacing=spacing, filled=filled)


def verify(res, box, cs, fs, positions, warned, method, stats, **where):
    """``positions``: the positions of the nodes as tuples."""
    where = dict(where, nodes=positions, limits=[tuple(map(float, x)) for x in box.limits], periodic=box.periodic, method=method, feature_size=fs)
    objects = [res[i] for i in range(len(res))]
    require([id(x) for x in objects] == [id(x) for x in res], 'iteration and indexing differ')
    flat = sorted(tuple(float(x) for x in p) for obj in objects for p in obj.positions)
    want = sorted(set(positions))
    require(flat == want, 'positions in the objects: {}, nodes: {}'.format(flat, want), **where)
    require(abs(res.feature_size - fs) <= 1e-12 * fs, 'feature size {} instead of {}'.format(res.feature_size, fs), **where)
    found = res.coordinate_system
    require(np.array_equal(np.asarray(found.limits), np.asarray(cs.limits)) and bool(found.periodic) == box.periodic, 'other coordinate system', **where)
    for obj in objects:
        group = [tuple(float(x) for x in p) for p in obj.positions]
        if obj.dimension == 0:
            require(isinstance(obj.shape, NodalPoint), 'object of dimension 0 has shape {}'.format(obj.shape), **where)
            verify_mean(obj, group, box, fs, stats, where)
            stats.outcome(('point', len(group)))
        elif obj.dimension == 1:
            require(isinstance(obj.shape, NodalLine), 'object of dimension 1 has shape {} ({})'.format(obj.shape, warned), **where)
            stats.outcome(('line', len(group)))
        else:
            require(obj.shape is None, 'object of dimension {} has shape {}'.format(obj.dimension, obj.shape), **where)
            require(obj.dimension in (None, 2, 3), 'dimension {}'.format(obj.dimension), **where)
            stats.outcome((str(obj.dimension), len(group)))


def verify_mean(obj, group, box, fs, stats, where):
    pos = [float(x) for x in obj.shape.position]
    require(len(pos) == box.dim, 'position of the point: {}'.format(pos), **where)
    scale = box.scale(*group)
    if box.periodic:
        require(all(float(a) <= x <= float(b) for x, (a, b) in zip(pos, box.limits)), 'point at {}, outside of the limits'.format(pos), **where)
    place, closed = unwrap(box, group, fs)
    if not box.periodic:
        place = {p: [Fraction(x) for x in p] for p in group}
    else:
        extent = [max(p[i] for p in place.values()) - min(p[i] for p in place.values()) for i in range(box.dim)]
        if closed or any(2 * e >= s for e, s in zip(extent, box.size)):
            return
    mean = [sum(p[i] for p in place.values()) / len(place) for i in range(box.dim)]
    require(box.same(pos, mean, 1e-12 * scale), 'point of {} at {} instead of {}'.format(group, pos, [float(x) for x in mean]), **where)
    stats.add('means')


def ident(stats, fun, *args, **kwargs):
    random.seed(0)
    stats.evaluation()
    return quiet(fun, *args, **kwargs)


def run(case, stats):
    stats.sample(case, limit=1)
    if case['kind'] in ('patch', 'way', 'many'):
        return globals()['run_' + case['kind']](case, stats)
    dim = len(case['limits'])
    lims = [tuple(x) for x in case['limits']]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    spots = [(x, ) if dim == 1 else x for x in SPOTS[dim]]
    pts = [tuple(float(a) + f * float(s) for (a, _), f, s in zip(box.limits, spot, box.size)) for spot in spots]
    fs = 0.3 * float(min(box.size))
    if case['kind'] == 'special':
        return run_special(case, stats, lims, box, cs, pts, fs)
    count = 0
    for size in range(case['size']):
        for rest in itertools.combinations_with_replacement(range(case['first'], len(pts)), size):
            chosen = [pts[i] for i in (case['first'], ) + rest]
            count += 1
            method = METHODS[count % 3]
            # as positions
            kept = list(chosen)
            res, warned = ident(stats, identify.run_from_positions, chosen, coordinate_system=cs, feature_size=fs, evaluate_line_method=method)
            require(chosen == kept, 'the list of positions is changed', positions=kept)
            verify(res, box, cs, fs, chosen, warned, method, stats)
            # as nodes of a search, together with rejected results
            bad = [minimization_result(pts[(case['first'] + count + k) % len(pts)], value, success) for k, (value, success) in enumerate([(2., True), (0.1, False)][:count % 3])]
            good = [minimization_result(p, 0.01 * k) for k, p in enumerate(chosen)]
            merged = good + bad if count % 2 else bad[:1] + good + bad[1:]
            if count % 2:
                given = source = make_container(lims, case['periodic'], fs / 3, results=merged)
            else:
                given = make_state(lims, case['periodic'], fs / 3, results=merged, positions=[pts[0]], refined=[pts[1]])
                source = given.result
            nodes = [tuple(float(x) for x in node.pos) for node in source.nodes]
            require(len(nodes) == len(chosen), 'unexpected number of nodes')
            given_size = {0: 0.75, 1: 0.2, 2: 1.1}.get(count // 3 % 5)  # others: the default
            kwargs = {} if given_size is None else dict(feature_size=fs * given_size)
            used = kwargs.get('feature_size', fs)
            canon = canon_container if given is source else canon_state
            kept = canon(given)
            res, warned = ident(stats, identify.run, given, evaluate_line_method=method, **kwargs)
            require(canon(given) == kept, 'the result of the search is changed by the identification', nodes=nodes)
            verify(res, box, cs, used, nodes, warned, method, stats, given=type(given).__name__)
            stats.nontrivial((case['limits'], case['periodic'], tuple(chosen), count))


def run_special(case, stats, lims, box, cs, pts, fs):
    # nothing
    for given in (make_container(lims, case['periodic'], fs / 3), make_state(lims, case['periodic'], fs / 3),
                  make_container(lims, case['periodic'], fs / 3, results=[minimization_result(pts[0], 2.), minimization_result(pts[1], 0., False)])):
        res, warned = ident(stats, identify.run, given)
        verify(res, box, cs, fs, [], warned, 'default', stats)
    res, warned = ident(stats, identify.run_from_positions, [], coordinate_system=cs, feature_size=fs)
    verify(res, box, cs, fs, [], warned, 'default', stats)
    # every single position; arrays, lists and other types
    for p in pts:
        for given in ([p], [list(p)], [np.array(p)], np.array([p]), [p, p], [tuple(np.float64(x) for x in p)] * 3):
            kept = repr(given)
            res, warned = ident(stats, identify.run_from_positions, given, coordinate_system=cs, feature_size=fs)
            require(repr(given) == kept, 'the given positions are changed', before=kept)
            verify(res, box, cs, fs, [p], warned, 'default', stats)
            require(len(res) == 1 and res[0].dimension == 0, 'one position has dimension {}'.format(res[0].dimension))
            stats.nontrivial((case['limits'], case['periodic'], p, type(given).__name__, len(given)))
    # several feature sizes through the cutoff distance of the search
    for cutoff in (0.01 if box.dim == 1 else 0.06 if box.dim == 2 else 0.12, 0.1 if box.dim < 3 else 0.2, 0.25, 0.5):
        for p, q in itertools.combinations(pts, 2):
            container = make_container(lims, case['periodic'], cutoff * float(min(box.size)), nodes=[p, q])
            nodes = [tuple(float(x) for x in node.pos) for node in container.nodes]
            res, warned = ident(stats, identify.run, container)
            verify(res, box, cs, 3 * container.dist_cutoff, nodes, warned, 'default', stats)
            stats.nontrivial((case['limits'], case['periodic'], p, q, cutoff))


def run_patch(case, stats):
    """Lattices of positions of different dimension and spacing at several places."""
    dim = case['dim']
    lims = [(0., 1.), (2., 3.), (-1., 0.)][:dim]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    for place in (0.05, 0.45, 0.9):
        for method in METHODS:
            for fs in (0.3, 0.12):
                pts = []
                for idx in itertools.product(range(case['num']), repeat=case['filled']):
                    pos = [place + 0.01 * k for k in range(dim)]
                    for axis, i in enumerate(idx):
                        pos[axis] += i * case['spacing']
                    pts.append(tuple(a + (f % 1 if case['periodic'] else f) for (a, _), f in zip(lims, pos)))
                container = make_container(lims, case['periodic'], fs / 3, nodes=pts)
                nodes = [tuple(float(x) for x in node.pos) for node in container.nodes]
                res, warned = ident(stats, identify.run, container, evaluate_line_method=method)
                verify(res, box, cs, fs, nodes, warned, method, stats, patch=case)
                stats.nontrivial((case['dim'], case['periodic'], case['num'], case['spacing'], case['filled'], place, method, fs))


def seen(obj):
    """Everything visible of an object."""
    def tup(p):
        return tuple(float(x) for x in p)
    shape = obj.shape
    if isinstance(shape, NodalLine):
        shape = (sorted(map(tup, shape.graph.nodes)), sorted(sorted((tup(p), tup(q))) for p, q in shape.graph.edges), sorted(shape.degree_count.items()), shape.shape_name)
    elif isinstance(shape, NodalPoint):
        shape = tup(shape.position)
    return sorted(map(tup, obj.positions)), str(obj.dimension), shape


def run_way(case, stats):
    """The method, feature size and coordinate system do not depend on the way the nodes are given."""
    dim, num = case['dim'], case['num']
    lims = [(0., 1.), (2., 3.), (-1., 0.)][:dim]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    for place, slope in ((0.05, 0.), (0.4, 0.3)):
        for length in (0.5, 0.3):
            pts = []
            for i in range(num):
                f = [place + i * length / (num - 1) * (1. if k == 0 else slope / k) for k in range(dim)]
                pts.append(tuple(a + x % 1 if case['periodic'] else a + x for x, (a, _) in zip(f, lims)))
            for ratio in (1.3, 2.2):
                fs = ratio * length / (num - 1) * (1 + slope)
                if 2 * fs >= 1.:
                    continue
                for searched in (fs / 3, fs * 1.5, fs / 7):
                    if box.dim == 3 and searched < 0.05 or box.dim == 2 and searched < 0.02:
                        continue
                    container = make_container(lims, case['periodic'], searched, nodes=pts)
                    state = make_state(lims, case['periodic'], searched, results=[minimization_result(p, 0.) for p in pts])
                    nodes = [tuple(float(x) for x in node.pos) for node in container.nodes]
                    shown = {}
                    for method in METHODS:
                        want = None
                        for name, fun, args, kwargs in [
                                ('positions', identify.run_from_positions, (nodes, ), dict(coordinate_system=cs)),
                                ('result', identify.run, (container, ), {}),
                                ('state', identify.run, (state, ), {})]:
                            res, warned = ident(stats, fun, *args, feature_size=fs, evaluate_line_method=method, **kwargs)
                            if name != 'state':  # which may have the nodes in another order
                                verify(res, box, cs, fs, nodes, warned, method, stats, given=name)
                            found = [seen(obj) for obj in res]
                            if name == 'state':
                                found, compare = [x[:2] for x in found], [x[:2] for x in want]
                                require(sorted(map(repr, found)) == sorted(map(repr, compare)), 'identified from a state: {} instead of {}'.format(found, compare), method=method, case=case, feature_size=fs)
                                continue
                            require(want is None or found == want, 'identified from {}: {} instead of {}'.format(name, found, want), method=method, case=case, feature_size=fs)
                            want = found
                        shown[method] = want
                        stats.nontrivial((case['dim'], case['periodic'], num, place, length, ratio, searched, method))
                    stats.add('methods_differ', int(shown['ballistic'] != shown['dominating_set']))


def run_many(case, stats):
    """More than a thousand nodes in one object."""
    dim = case['dim']
    lims = [(0., 1.), (2., 3.), (-1., 0.)][:dim]
    box = ExactBox(lims, case['periodic'])
    cs = CoordinateSystem(limits=lims, periodic=case['periodic'])
    pts = [tuple(a + 0.3 + i * 0.4 / case['num'] for i, (a, _) in zip(idx, lims)) for idx in itertools.product(range(case['num']), repeat=dim)]
    fs = 0.5 / case['num']
    res, warned = ident(stats, identify.run_from_positions, pts, coordinate_system=cs, feature_size=fs, evaluate_line_method='ballistic')
    verify(res, box, cs, fs, pts, warned, 'ballistic', stats)
    require(len(res) == 1, '{} objects'.format(len(res)))
    stats.nontrivial((dim, case['periodic'], case['num']))


def finish(stats, tier):
    assert stats.counts.get('methods_differ', 0) > 50
    assert stats.counts.get('means', 0) > 5000
    assert len(stats.sets['distinct_nontrivial']) > 5000
