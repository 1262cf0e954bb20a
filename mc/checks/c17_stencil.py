"""
C17: validity of the refinement stencils, and that a search minimizes every
simplex of the stencil around an isolated node once.
"""
import itertools
import math

import numpy as np

from nodefinder import search
from nodefinder.search.refinement_stencil import get_auto_stencil, get_mesh_stencil

from ..aio import run_plain, PlainWorld
from ..core import require
from ..impl import make_state
from ..search_world import INF

ID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of stencils and their use by the real search for nodes at enumerated places, compared with a reference'
RULE = ('States are the stencils (dimension, mesh size, extent) and the searches (stencil, place of the node, way the node becomes known, boundary conditions); transitions are the '
        'simplices which are checked or minimized.')
BOUNDS = {
    'quick': 'mesh sizes 1-7 (dimension 1), 1-5 (2), 1-3 (3), 2-3 (4), extents 0.5-10; automatic stencils of dimensions 1-5; searches in dimensions 1-3 with 9 places per dimension',
    'thorough': 'mesh sizes up to 40, 9, 5, 3; more extents; three ways in which the node becomes known; all combinations of places',
}
ASSUMPTIONS = ['surrounding: no direction is further than 45 (two dimensions: 40) degrees from the direction of the centre of a simplex']


def cases(tier):
    big = tier == 'thorough'
    top = {1: 40, 2: 9, 3: 5, 4: 3} if big else {1: 7, 2: 5, 3: 3, 4: 3}
    for dim in (1, 2, 3, 4):
        for size in itertools.product(range(1 if dim < 4 else 2, top[dim] + 1), repeat=dim):
            for mult in (None, 0.5, 1, 1.5, 4., 10) if not big else (None, 0.1, 0.5, 1, 1.5, 2, 3.3, 4., 10, 1000.):
                yield dict(kind='mesh', size=list(size), mult=mult)
    for dim in range(1, 6):
        yield dict(kind='auto', dim=dim)
    places = (0., 0.01, 0.125, 0.3, 0.5, 0.77, 0.95, 0.999)
    for dim in (1, 2, 3):
        stencils = ['auto', ('auto array', )] + [('mesh', [2] * dim, None), ('mesh', [3] * dim, 2), ('mesh', [4] + [1] * (dim - 1), 3.3)]
        combos = list(itertools.product(places, repeat=dim)) if big and dim < 3 else [tuple(places[(i + j * (k + 1)) % len(places)] for k in range(dim)) for i in range(len(places)) for j in range(2 if dim == 1 else 3)]
        for stencil in stencils:
            for place in sorted(set(combos)):
                for periodic in (True, False):
                    for way in ('queued', 'found', 'mesh') if big or place[0] == 0.3 else ('queued', 'found'):
                        yield dict(kind='search', stencil=stencil, place=list(place), periodic=periodic, way=way, feature=0.2)


def run(case, stats):
    stats.sample(case, limit=2)
    stats.state({k: v for k, v in case.items()})
    stats.trace()
    {'mesh': run_mesh, 'auto': run_auto, 'search': run_search}[case['kind']](case, stats)


def check_shape(stencil, dim, stats):
    stencil = np.asarray(stencil)
    require(stencil.ndim == 3 and stencil.shape[1:] == (dim + 1, dim), 'wrong shape {}'.format(stencil.shape))
    require(np.issubdtype(stencil.dtype, np.floating) and np.all(np.isfinite(stencil)), 'not an array of finite numbers')
    stats.transition(len(stencil))
    for simplex in stencil:
        edges = simplex[1:] - simplex[0]
        volume = abs(np.linalg.det(edges))
        longest = max(np.linalg.norm(a - b) for a, b in itertools.combinations(simplex, 2))
        require(volume > 1e-4 * longest**dim, 'degenerate simplex {}'.format(simplex.tolist()))
    uniq = {tuple(sorted(tuple(round(float(x), 9) for x in v) for v in s)) for s in stencil}
    require(len(uniq) == len(stencil), 'a simplex occurs more than once')
    return stencil


def run_mesh(case, stats):
    mult = case['mult']
    kwargs = {} if mult is None else {'dist_multiplier': mult}
    size = case['size']
    dim = len(size)
    grid = []
    mult = 2.5 if mult is None else mult
    for m in size:
        grid.append([-mult + 2 * mult * i / (m - 1) for i in range(m)] if m > 1 else [None])
    want = {idx for idx in itertools.product(*[range(m) for m in size])
            if not all(g[i] is not None and abs(g[i]) < 1e-9 for g, i in zip(grid, idx))}
    if not want:
        return
    # both lists and tuples of sizes
    for arg in (list(size), tuple(size)):
        stencil = get_mesh_stencil(mesh_size=arg, **kwargs)
    stats.outcome((len(stencil), dim))
    if any(m == 1 for m in size):
        # where a single point is placed is left open
        check_shape(stencil, dim, stats)
        require(len(stencil) in (len(want), len(want) - 1), '{} simplices instead of {}'.format(len(stencil), len(want)))
    else:
        check_shape(stencil, dim, stats)
        require(len(stencil) == len(want), '{} simplices instead of {}'.format(len(stencil), len(want)))
    found = set()
    for simplex in stencil:
        anchor = simplex.min(axis=0)
        edges = [(2 * mult) / (2 * m) for m in size]
        shape = sorted(tuple(x) for x in (simplex - anchor).tolist())
        ref = sorted([tuple([0.] * dim)] + [tuple(edges[i] if i == j else 0. for j in range(dim)) for i in range(dim)])
        require(np.allclose(shape, ref, rtol=0, atol=1e-9 * mult), 'wrong edges', simplex=simplex)
        idx = []
        for x, g, m in zip(anchor, grid, size):
            if g[0] is None:
                require(abs(x) <= mult * (1 + 1e-9), 'outside of the box', simplex=simplex)
                idx.append(0)
                continue
            match = [i for i, y in enumerate(g) if abs(x - y) <= 1e-9 * mult]
            require(match, 'not at a grid point', simplex=simplex)
            idx.append(match[0])
        require(not np.allclose(anchor, 0, atol=1e-9 * mult), 'simplex at the centre', simplex=simplex)
        found.add(tuple(idx))
    require(len(found) == len(stencil), 'more than one simplex at a grid point')


def run_auto(case, stats):
    dim = case['dim']
    stencil = check_shape(get_auto_stencil(dim=dim), dim, stats)
    stats.outcome((len(stencil), dim))
    require(float(np.min(np.linalg.norm(stencil, axis=-1))) >= 1 - 1e-12, 'a vertex is closer to the origin than one')
    centres = stencil.mean(axis=1)
    if dim in (2, 3):
        dists = np.linalg.norm(centres, axis=-1)
        require(np.ptp(dists) < 1e-9, 'the simplices are not at equal distance', distances=dists)
        lengths = [sorted(np.linalg.norm(a - b) for a, b in itertools.combinations(s, 2)) for s in stencil]
        require(np.max(np.ptp(lengths, axis=0)) < 1e-9, 'the simplices are not congruent')
        radii = np.sort(np.linalg.norm(stencil, axis=-1), axis=-1)
        require(np.max(np.ptp(radii, axis=0)) < 1e-9, 'the simplices are not oriented the same way')
    # surrounded in every direction
    units = centres / np.linalg.norm(centres, axis=-1)[:, np.newaxis]
    limit = math.cos(math.radians({1: 1, 2: 40}.get(dim, 45)))
    for direction in directions(dim):
        require(np.max(units @ direction) >= limit, 'no simplex in the direction {}'.format(direction))
        stats.transition()


def directions(dim):
    if dim == 1:
        return np.array([[-1.], [1.]])
    steps = {2: 360, 3: 21, 4: 7, 5: 5}[dim]
    if dim == 2:
        phi = np.linspace(0, 2 * np.pi, steps, endpoint=False)
        return np.array([np.cos(phi), np.sin(phi)]).T
    grid = np.array([x for x in itertools.product(np.linspace(-1, 1, steps), repeat=dim) if max(np.abs(x)) == 1.])
    return grid / np.linalg.norm(grid, axis=-1)[:, np.newaxis]


def run_search(case, stats):
    dim = len(case['place'])
    cutoff = case['feature'] / 3
    if case['stencil'] in ('auto', ['auto array']):
        ref = get_auto_stencil(dim=dim)
        arg = 'auto' if case['stencil'] == 'auto' else ref
    else:
        _, size, mult = case['stencil']
        kwargs = {} if mult is None else {'dist_multiplier': mult}
        ref = get_mesh_stencil(mesh_size=size, **kwargs)
        arg = ref
    ref = np.array(ref)
    place = np.array(case['place'])
    world = PlainWorld(max_idle=2000)
    evaluated = []
    edge = 1e-3 * cutoff
    start = [place.tolist()] + [(place + edge * np.eye(dim)[i]).tolist() for i in range(dim)]

    def potential(x):
        world.activity += 1
        pos = tuple(float(v) for v in x)
        evaluated.append(pos)
        if len(evaluated) <= dim + 1 and case['way'] == 'found':
            return 0. if np.allclose(pos, place, rtol=0, atol=edge / 10) else 2.
        if case['way'] == 'mesh' and np.allclose(pos, place, rtol=0, atol=1e-9) and len(evaluated) <= dim + 1:
            return 0.
        return 1.

    limits = [(0, 1)] * dim
    initial = []
    state = None
    if case['way'] == 'queued':
        state = make_state(limits, case['periodic'], cutoff, nodes=[case['place']], positions=[case['place']])
    elif case['way'] == 'found':
        state = make_state(limits, case['periodic'], cutoff, simplices=[start])
        initial = [start]
    else:
        # a mesh with a single point, which is the node
        limits = [(x, x + 1) for x in case['place']]
        initial = [[place.tolist()] + [(place + 0.5 * np.eye(dim)[i]).tolist() for i in range(dim)]]
    result = run_plain(lambda: search.run_async(
        potential, limits=limits, periodic=case['periodic'], initial_mesh_size=1, initial_state=state, refinement_stencil=arg,
        feature_size=case['feature'], gap_threshold=0.5, nelder_mead_kwargs={'xtol': INF, 'ftol': INF}, num_minimize_parallel=3
    ), world)
    nodes = [tuple(float(x) for x in n.pos) for n in result.nodes]
    require(len(nodes) == 1, 'the search has {} nodes instead of one'.format(len(nodes)))
    require(np.allclose(result.refined_results, nodes, rtol=0, atol=1e-12) and len(result.refined_results) == 1, 'wrong refined positions')
    want = [s for s in initial]
    for simplex in ref:
        # a vertex which is close to the node: the simplex is skipped
        dists = np.linalg.norm(simplex, axis=-1)
        assert not np.any(np.abs(dists - 1) < 1e-6)
        if np.min(dists) >= 1:
            want.append((np.array(nodes[0]) + cutoff * simplex).tolist())
    want_vertices = sorted(tuple(v) for s in want for v in s)
    stats.transition(len(want))
    stats.outcome((len(want), case['way']))
    require(len(evaluated) == len(want_vertices), '{} evaluations instead of {}'.format(len(evaluated), len(want_vertices)))
    found = np.array(sorted(tuple(np.round(v, 9)) for v in evaluated))
    ref_v = np.array(sorted(tuple(np.round(v, 9)) for v in want_vertices))
    require(np.allclose(found, ref_v, rtol=0, atol=2e-9), 'the minimized simplices are not those of the stencil')
    require(len(result.minimization_results) == len(want) + (1 if case['way'] == 'queued' else 0), 'wrong number of results')


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 10, 'vacuous exploration'
