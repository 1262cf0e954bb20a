"""
C24: plots of search results: enumerated results, histories of simplices and
stencils are plotted, and what the axes show is compared with what was given.
"""
import itertools
from collections import Counter

import numpy as np

from nodefinder import search
from nodefinder.search import refinement_stencil
from nodefinder.search.result import JoinedMinimizationResult

from ..compare import canon_container, canon_min_result
from ..core import require
from ..impl import make_container, minimization_result
from ..plots import plt, Shown, fill, limits as shown_limits, new_axis, quietly, rgba, unchanged

ID = 'C24'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of search results, simplex histories, stencils and options up to a size, plotted by the real code; the artists on the axes against the expected markers and edges'
RULE = 'An input is nontrivial if the contents, dimension, box, kind of plot or options differ.'
BOUNDS = {
    'quick': 'all multisets of up to 3 results out of 8 (nodes and rejected), dimensions 2 and 3, 3 boxes, new and given axes; histories of up to 3 simplices of up to 2 nodes; all stencils of up to 2 simplices out of 5 plus 5 automatic ones, all option combinations; up to 1301 nodes, histories of up to 1301 simplices, up to 331 nodes with simplices, stencils of up to 520 simplices',
    'thorough': 'up to 4 results, histories of up to 4 simplices, up to 3 simplices in a stencil, up to 4099 nodes and simplices',
}
ASSUMPTIONS = ['what is drawn is read from the lines and collections of the matplotlib axes; matplotlib may add a margin to the limits in 3D']

BOXES = {
    2: [[(0., 1.), (0., 1.)], [(-3., 2.), (100., 100.5)], [(5, 1), (0, 2)]],
    3: [[(0., 1.), (0., 1.), (0., 1.)], [(-3., 2.), (100., 100.5), (0.1, 0.2)], [(5, 1), (0, 2), (-1, 1)]],
}
SPOTS = [(0., 0., 0.), (0.5, 0.25, 0.75), (0.5, 0.75, 0.25), (1.25, -0.5, 0.5), (0.97, 0.03, 0.1)]


def cases(tier):
    big = tier == 'thorough'
    for dim in (3, 2):
        for given in (False, True):
            for part in range(3):
                for size in range(1, 4 if big else 3):
                    yield dict(kind='stencil', dim=dim, given=given, size=size, part=part)
                for name in ('auto', 'mesh', 'round'):
                    yield dict(kind='stencil', dim=dim, given=given, name=name, size=0, part=part)
        for box in range(3):
            for periodic in (True, False):
                for given in (False, True):
                    for first in range(-1, 8):
                        yield dict(kind='points', dim=dim, box=box, periodic=periodic, given=given, first=first, size=4 if big else (3 if given else 2))
        for box in range(3):
            for given in (False, True):
                for num in range(0, 5 if big else 4):
                    for nodes in range(0, 3):
                        for joined in (False, True):
                            if nodes or not num:
                                yield dict(kind='simplices', dim=dim, box=box, given=given, num=num, nodes=nodes, joined=joined)
        for given in (False, True):
            for num in (30, 67, 130, 331, 1301) if not big else (30, 67, 130, 258, 331, 513, 1025, 1301, 4099):
                yield dict(kind='crowd', dim=dim, given=given, num=num, box=1)
                yield dict(kind='stencil', dim=dim, given=given, size=0, name='large', part=num % 3, num=min(num, 520))
                yield dict(kind='simplices', dim=dim, box=num % 3, given=given, num=num, nodes=1, joined=given)
                if num < 400:
                    yield dict(kind='simplices', dim=dim, box=num % 3, given=given, num=2, nodes=num, joined=not given)


def results(dim, lims):
    def pos(spot):
        return [min(a, b) + f * abs(b - a) for f, (a, b) in zip(spot, lims)]

    return [
        minimization_result(pos(SPOTS[0]), 0.), minimization_result(pos(SPOTS[1]), 0.25), minimization_result(pos(SPOTS[2]), 1e-9),
        minimization_result(pos(SPOTS[3]), -0.5), minimization_result(pos(SPOTS[1]), 0.125), minimization_result(pos(SPOTS[4]), 0.5),
        minimization_result(pos(SPOTS[4]), 0.6), minimization_result(pos(SPOTS[2]), 0., False)
    ]


def history(dim, num, seed):
    """Different simplices, also with equal edges in different simplices."""
    res = []
    for i in range(num):
        base = [[0.1 * seed + 0.25 * (i // 2)] * dim]
        for k in range(dim):
            base.append([x + (0.5 if j == k else 0.) * (1 + i % 2 * (k == 0)) for j, x in enumerate(base[0])])
        res.append(base)
    return np.array(res) if num else np.zeros((0, dim + 1, dim))


def edges(simplices):
    res = Counter()
    for simplex in simplices:
        for p, q in itertools.combinations([tuple(float(x) for x in p) for p in simplex], 2):
            res[tuple(sorted((p, q)))] += 1
    return res


def drawn(segments):
    return Counter(tuple(sorted((p, q))) for p, q, _ in segments)


def draw(case, fun, stats, *args, **kwargs):
    """Runs a plotting function; returns axes and what they show."""
    plt.close('all')
    axis = None
    old = []
    if case['given']:
        axis = new_axis(case['dim'])
        kwargs['axis'] = axis
        if stats.counts.get('evaluations', 0) % 2:
            old = fill(axis)
    num = len(plt.get_fignums())
    fig, res = quietly(fun, *args, **kwargs)
    if case['given']:
        require(res is axis and len(plt.get_fignums()) == num, 'the given axes are not used')
    else:
        require(res is not None and fig is not None and res in fig.axes and len(fig.axes) == 1, 'no new figure with axes')
    require(hasattr(res, 'get_zlim') == (case['dim'] == 3), 'axes of another dimension')
    require(unchanged(res, old), 'what the axes showed before is changed')
    stats.add('filled_axes', bool(old))
    shown = Shown(res, old)
    require(not shown.other, 'something else is drawn: {}'.format(shown.other))
    stats.evaluation()
    return res, shown


def check_limits(axis, lims):
    for found, (a, b) in zip(shown_limits(axis), lims):
        a, b = sorted((float(a), float(b)))
        tol = (0.05 if hasattr(axis, 'get_zlim') else 1e-9) * (b - a)
        require(abs(found[0] - a) <= tol and abs(found[1] - b) <= tol, 'limits {} instead of {}'.format(found, (a, b)))


def run(case, stats):
    stats.sample(case, limit=1)
    try:
        globals()['run_' + case['kind']](case, stats)
    finally:
        plt.close('all')


def run_points(case, stats):
    dim = case['dim']
    lims = [tuple(x) for x in BOXES[dim][case['box']]]
    options = results(dim, lims)
    smallest = min(abs(b - a) for a, b in lims)
    for length in range(case['size']):
        if case['first'] < 0 and length:
            break
        for rest in itertools.combinations_with_replacement(range(len(options)), length):
            chosen = [i for i in (case['first'], ) + rest if i >= 0]
            container = make_container(lims, case['periodic'], 0.4 * smallest, results=[results(dim, lims)[i] for i in chosen])
            want = Counter((tuple(float(x) for x in node.pos), float(node.value)) for node in container.nodes)
            kept = canon_container(container)
            axis, shown = draw(case, search.plot.points, stats, container)
            require(canon_container(container) == kept, 'the result is changed by plotting it', results=chosen)
            found = Counter((p, v) for p, _, v in shown.markers)
            require(found == want, 'markers {} instead of {}'.format(sorted(found.elements(), key=str), sorted(want.elements())), results=chosen)
            require(not shown.segments and not shown.surfaces, 'more than points is drawn')
            check_limits(axis, lims)
            stats.nontrivial(('points', dim, case['box'], case['periodic'], case['given'], tuple(chosen)))


def run_crowd(case, stats):
    """Many nodes, on a lattice (so that none is close to another one)."""
    dim, num = case['dim'], case['num']
    lims = [tuple(x) for x in BOXES[dim][case['box']]]
    width = 1
    while width**dim < num:
        width += 1
    for periodic in (True, False):
        for feature in (0.5, 5.):
            # with the larger feature size, several results belong to the same node
            pos = []
            for i in range(num):
                index = [i // width**k % width for k in range(dim)]
                pos.append([a + (b - a) * (x + 0.5) / width for x, (a, b) in zip(index, lims)])
            step = min(b - a for a, b in lims) / width
            container = make_container(lims, periodic, feature * step, results=[minimization_result(p, 1e-9 * (i * 7 % num)) for i, p in enumerate(pos)])
            want = Counter((tuple(float(x) for x in node.pos), float(node.value)) for node in container.nodes)
            require(feature > 1 or len(want) == num, 'nodes are missing in the result: {}'.format(len(want)))
            axis, shown = draw(case, search.plot.points, stats, container)
            found = Counter((p, v) for p, _, v in shown.markers)
            require(found == want, 'markers missing: {}, too many: {}'.format(sorted((want - found).elements())[:5], sorted((found - want).elements())[:5]))
            require(not shown.segments and not shown.surfaces, 'more than points is drawn')
            check_limits(axis, lims)
            stats.nontrivial(('crowd', dim, case['given'], num, periodic, feature))


def run_simplices(case, stats):
    dim = case['dim']
    lims = [tuple(x) for x in BOXES[dim][case['box']]]
    smallest = min(abs(b - a) for a, b in lims)
    container = make_container(lims, True, 0.4 * smallest, results=results(dim, lims)[:3])
    nodes = []
    for i in range(case['nodes']):
        res = minimization_result([0.1] * dim, 0., simplex_history=history(dim, case['num'], i))
        if case['joined']:
            other = minimization_result([0.2] * dim, 0., simplex_history=history(dim, 1, i + 5))
            res = JoinedMinimizationResult(child=res, ancestor=other)
        nodes.append(res)
    for settings in (None, dict(color='red', linewidth=3.)):
        for given in (nodes, tuple(nodes)) if nodes else (None, ):
            kwargs = {} if settings is None else dict(line_settings=settings)
            if given is not None:
                kwargs['nodes'] = given
            want = Counter()
            for node in nodes:
                want += edges(node.simplex_history)
            kept = [canon_container(container)] + [canon_min_result(node) for node in nodes]
            axis, shown = draw(case, search.plot.simplices, stats, container, **kwargs)
            require([canon_container(container)] + [canon_min_result(node) for node in nodes] == kept, 'the result is changed by plotting it')
            found = drawn(shown.segments)
            require(found == want, 'missing edges: {}, too many: {}'.format(sorted((want - found).elements()), sorted((found - want).elements())))
            require(not shown.markers and not shown.surfaces, 'more than edges is drawn')
            color = rgba('red' if settings else 'C0')
            require(all(c == color for _, _, c in shown.segments), 'colour of the edges')
            if settings:
                require(all(line.get_linewidth() == 3. for line in axis.lines if rgba(line.get_color()) != rgba('k')), 'settings of the lines are not used')
            check_limits(axis, lims)
            stats.nontrivial(('simplices', tuple(sorted((k, str(v)) for k, v in case.items())), settings is None, str(type(given))))


def stencils(case):
    dim = case['dim']
    if 'name' in case:
        if case['name'] == 'auto':
            yield 'auto', refinement_stencil.get_auto_stencil(dim=dim)
        elif case['name'] == 'large':
            # the last ones are shifted, so that no two simplices are equal
            yield 'large', np.array([[[0.01 * n * (i == 0) + 1. * (i == k - 1) * (-1)**n for i in range(dim)] for k in range(dim + 1)] for n in range(case['num'])])
        elif case['name'] == 'mesh':
            yield 'mesh', refinement_stencil.get_mesh_stencil(mesh_size=[2] * dim)
        elif dim == 2:
            yield 'round', refinement_stencil.get_circle_stencil(num_points=5)
        else:
            yield 'round', refinement_stencil.get_sphere_stencil(num_points=9)
        return
    simplices = [
        [[0.] * dim] + [[1. if i == k else 0. for i in range(dim)] for k in range(dim)],
        [[0.] * dim] + [[-1. if i == k else 0. for i in range(dim)] for k in range(dim)],
        [[0.5] * dim] + [[2. if i == k else 0.5 for i in range(dim)] for k in range(dim)],
        [[0.1 * k + 0.3 * i * (-1)**k for i in range(dim)] for k in range(dim + 1)],
        [[0.25 + 0.5 * (i == k) for i in range(dim)] for k in range(dim + 1)],
    ]
    for chosen in itertools.product(range(5), repeat=case['size']):
        yield chosen, np.array([simplices[i] for i in chosen])


def run_stencil(case, stats):
    dim = case['dim']
    for name, stencil in stencils(case):
        for number, (lines, origin, sphere, sphere_settings) in enumerate(itertools.product((None, dict(color='C7')), ('default', dict(color='C4'), None, {}), (None, True, False), (None, dict(color='C8', alpha=0.5)))):
            if case['size'] > 1 and (number + sum(name)) % 6 or not case['size'] and number % 5 or number // 2 % 3 != case['part']:
                continue
            kwargs = {}
            if lines is not None:
                kwargs['line_settings'] = lines
            if origin != 'default':
                kwargs['origin_settings'] = origin
            if sphere is not None:
                kwargs['plot_sphere'] = sphere
            if sphere_settings is not None:
                kwargs['sphere_settings'] = sphere_settings
            array = np.array(stencil)
            axis, shown = draw(case, search.plot.stencil, stats, array, **kwargs)
            where = dict(stencil=str(name), options=kwargs)
            require(np.array_equal(array, stencil), 'the stencil is changed by plotting it', **where)
            want_color = rgba('C7' if lines else 'C0')
            curves = [c for c in shown.curves if c[1] != want_color]
            found = drawn([s for s in shown.segments if s[2] == want_color])
            want = edges(stencil)
            require(found == want, 'missing edges: {}, too many: {}'.format(sorted((want - found).elements()), sorted((found - want).elements())), **where)
            markers = [(p, c) for p, c, _ in shown.markers]
            if origin == {}:
                markers = [(p, rgba('C4')) for p, _ in markers]
            require(markers == ([] if origin is None else [((0., ) * dim, rgba('C1' if origin == 'default' else 'C4'))]), 'markers {}'.format(markers), **where)
            with_sphere = sphere is None or sphere
            require(len(curves) == (1 if with_sphere and dim == 2 else 0), 'further curves: {}'.format(len(curves)), **where)
            require(len(shown.surfaces) == (1 if with_sphere and dim == 3 else 0), 'surfaces: {}'.format(len(shown.surfaces)), **where)
            color = rgba('C8' if sphere_settings else 'C2')[:3] + ((0.5 if sphere_settings else 0.2), )
            if curves:
                require(curves[0][1] == color, 'colour of the circle {}'.format(curves[0][1]), **where)
                on_sphere(np.array(curves[0][0]), 0.2, where)
            if shown.surfaces:
                pts = np.array(shown.surfaces[0]._vec)[:3].T
                on_sphere(pts, 0.4, where)
            vertices = np.array(stencil).reshape(-1, dim)
            check_limits(axis, list(zip(vertices.min(axis=0), vertices.max(axis=0))))
            stats.nontrivial(('stencil', dim, case['given'], str(name), number))


def on_sphere(pts, gap, where):
    """All points are on the unit circle / sphere, and close to every direction."""
    require(np.all(np.abs(np.linalg.norm(pts, axis=-1) - 1) < 1e-6), 'points which are not on the unit sphere', **where)
    dim = pts.shape[-1]
    for direction in itertools.product((-1., 0., 1.), repeat=dim):
        if any(direction):
            unit = np.array(direction) / np.linalg.norm(direction)
            require(np.min(np.linalg.norm(pts - unit, axis=-1)) < gap, 'the sphere is not drawn near {}'.format(direction), **where)
    if dim == 2:
        require(np.linalg.norm(pts[0] - pts[-1]) < 1e-6, 'the circle is not closed', **where)


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 1000
    assert stats.counts['filled_axes'] > 200
