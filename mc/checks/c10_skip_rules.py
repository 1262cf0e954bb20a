"""
C10: skip and re-check rules, for all placements of known nodes, refined and queued
positions on small lattices around the cutoff distance, and for dynamically found
nodes, against the reference model; every run is a run of the real search.
"""
import itertools

from nodefinder import search

from ..core import explore_case, require, Violation
from ..impl import make_state
from ..search_world import make_world, search_kwargs, norm_simplex, some_values, Model, Box

ID = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of start states on lattices around the cutoff and of node outcomes, real search under a controlled event loop vs. reference rule model'
RULE = ('An execution resumes the real search from one constructed state (known nodes, refined and queued positions, queued simplices) or from a '
        'mesh with enumerated node outcomes; what is started, skipped and refined is compared after every event with the reference rules. States are settled scheduler states.')
BOUNDS = {
    'quick': 'simplex rule: each vertex of a simplex (1D-3D) independently without node / nodes at 0, 1/2, 1 (exactly), 5/4 cutoff, allowed number 0..dim+1, both boundary conditions, wrapped or not; up to 40 other nodes / refined positions just beyond the cutoff, before / after the relevant ones; up to 600 relevant ones; position rule: all lists of up to 3 queued and 2 refined positions on a 6-point lattice with half-cutoff spacing x options; dynamic: all completion orders and outcomes within 2 deviations',
    'thorough': 'as quick with 4 queued positions on an 8-point lattice, 2D positions, non-dyadic feature sizes at every origin, and 3 deviations',
}
ASSUMPTIONS = ['the explored potentials have infinite minimization tolerances, i.e. each minimization evaluates just its starting simplex']

D = 1 / 1024
STENCIL = [[[4 + 74 * D], [4.25 + 202 * D]]]
STENCIL_DYN = [[[1 + 74 * D], [1.5 + 202 * D]], [[-1 - 118 * D], [-0.5 - 326 * D]]]


def cases(tier):
    thorough = tier == 'thorough'
    # rule for simplices
    for dim in (1, 2, 3):
        for periodic in (True, False):
            for shift in (0., 15.75):
                for check in range(dim + 2):
                    yield dict(kind='simplex', dim=dim, periodic=periodic, shift=shift, check=check)
    # feature sizes which are no dyadic fractions: positions near but not at the cutoff
    for fs in (0.3, 0.1, 1e-3, 7.) + ((1 / 3, 0.7, 1e-6, 123.456) if thorough else ()):
        for periodic in (True, False):
            yield dict(kind='scale', feature_size=fs, periodic=periodic)
    # many nodes and refined positions, of which only a few are relevant
    for dim in (1, 2):
        for num in (3, 12, 40) + ((150, ) if thorough else ()):
            for near in range(4):
                for count in range(4):
                    for periodic in (True, False):
                        yield dict(kind='crowd', dim=dim, num=num, near=near, count=count, periodic=periodic)
        for num in (0, 30) + ((400, ) if thorough else ()):
            for near, counts in ((12, (0, 10, 11, 12)), (30, (9, 29, 30)), (120, (99, 119, 120)), (600, (0, 599, 600))):
                for count in counts:
                    for periodic in (True, False):
                        yield dict(kind='crowd', dim=dim, num=num, near=near, count=count, periodic=periodic)
        # all of the relevant ones on one side, all others on the other side
        for num in (3, 12, 60, 300):
            for near, counts in ((1, (0, )), (12, (0, 11, 12)), (120, (99, 119, 120))):
                for count in counts:
                    for side in (1, -1):
                        yield dict(kind='crowd', dim=dim, num=num, near=near, count=count, periodic=count % 2 == 0, side=side)
    # rule for positions
    num_points = 8 if thorough else 6
    max_queued = 4 if thorough else 3
    for periodic in (True, False):
        for recheck, counts in ((True, (0, 1, 2)), (False, (0, ))):
            for count in counts:
                for refined in itertools.chain.from_iterable(itertools.combinations(range(num_points), k) for k in range(3)):
                    yield dict(kind='position', periodic=periodic, recheck=recheck, count=count,
                               refined=list(refined), num_points=num_points, max_queued=max_queued)
    # nodes found during the search
    for periodic in (True, False):
        for m in (1, 2, 4):
            for parallel in (1, 2, 4):
                for recheck, count, check in ((True, 0, 0), (True, 0, 1), (True, 1, 0), (True, 2, 2), (False, 0, 0), (False, 1, 2)):
                    size = 2. if periodic else 2. - 2. / m
                    yield dict(kind='dynamic', bound=3 if thorough and m < 4 else 2, cfg=dict(
                        limits=[[0., size or 2.]], periodic=periodic, mesh_size=[m], cutoff=0.625,
                        parallel=parallel, stencil=STENCIL_DYN, recheck=recheck, recheck_count=count,
                        simplex_check=check, max_nodes=3, node_vertices=[0, 1], pairs='lags' if m == parallel == 2 else m == 2 and parallel > 1
                    ))


def _run(stats, chooser, cfg, state, world_kwargs):
    world = make_world(cfg, chooser, stats, **world_kwargs)
    kwargs = search_kwargs(cfg)
    if 'feature_size' in cfg:
        kwargs['feature_size'] = cfg['feature_size']
    if state is not None:
        kwargs['initial_state'] = state

    async def main():
        return await search.run_async(world.potential, **kwargs)

    kind, result = world.run(main)
    if kind == 'exception':
        raise Violation('the search raised {!r}'.format(result), log=world.log)
    nodes = [(p, 0.) for p in world.init_nodes]
    world.check_final(result, extra_results=nodes)
    stats.outcome((world.started, [tuple(x) for x in result.refined_results]))
    return world


def run(case, stats):
    stats.sample(case)
    globals()['run_' + case['kind']](case, stats)


class _NoChoice:
    """Default choices (first come first served, no node)."""
    @staticmethod
    def pick(options, *_):
        return options[0]


def run_simplex(case, stats):
    """Known nodes at various distances from each vertex."""
    dim, periodic = case['dim'], case['periodic']
    limits = [[0., 16.]] * dim
    origin = [case['shift']] * dim
    box = Box(limits, periodic)
    vertices = [list(origin)]
    for i in range(dim):
        v = list(origin)
        v[i] += 4.
        vertices.append(v)
    simplex = norm_simplex(vertices)
    vertices = [list(v) for v in simplex]
    far = norm_simplex([[o + 8. + (0.25 if j == i else 0) for j, o in enumerate(origin)] for i in range(dim + 1)])
    options = [(), (0.5, ), (1., ), (1.25, ), (0.5, 0.75), (0., )]
    if dim == 3:
        options = [(), (0.5, ), (1., ), (0., )]
    for placement in itertools.product(options, repeat=dim + 1):
        nodes = []
        for k, (vertex, dists) in enumerate(zip(vertices, placement)):
            for j, dist in enumerate(dists):
                node = list(vertex)
                axis = (k + j) % dim
                if dim >= 2 and dist == 1.25:
                    node[axis] += 0.75  # length 1.25
                    node[(axis + 1) % dim] -= 1.
                else:
                    node[axis] += dist if (k + j) % 2 else -dist
                nodes.append(box.normalize(node))
        cfg = dict(limits=limits, periodic=periodic, mesh_size=[1] * dim, cutoff=1., parallel=1,
                   stencil=None, simplex_check=case['check'], max_nodes=0)
        state = make_state(limits, periodic, 1., nodes=nodes, simplices=[simplex, far])
        try:
            world = _run(stats, _NoChoice, cfg, state, dict(initial=[simplex, far], nodes=nodes))
        except Violation as exc:
            exc.detail.update(simplex=simplex, nodes=nodes, check=case['check'])
            raise
        # stated directly, in addition to the model
        near = sum(any(box.distance(v, n) < 1. for n in nodes) for v in simplex)
        require((simplex in world.started) == (near <= case['check']), 'wrong decision for a simplex',
                simplex=simplex, nodes=nodes, check=case['check'], near=near)
        require(far in world.started, 'a simplex far from all nodes was skipped', nodes=nodes)


def run_scale(case, stats):
    """The cutoff distance is a third of the feature size."""
    fs = case['feature_size']
    cutoff = fs / 3
    for factor in (0.05, 0.3, 0.6, 0.9, 0.98, 1.02, 1.1, 1.5, 2., 2.9, 3.1):
        for sign in (1, -1):
            for origin in (0., 0.5, 10., 39.9):
                limits = [[-40 * cutoff, 40 * cutoff]]
                box = Box(limits, case['periodic'])
                pos = origin * cutoff
                simplex = norm_simplex([[pos], [pos - sign * 10 * cutoff]])
                node = box.normalize([pos + sign * factor * cutoff])
                cfg = dict(limits=limits, periodic=case['periodic'], mesh_size=[1], cutoff=cutoff, parallel=1,
                           stencil=None, max_nodes=0, feature_size=fs)
                state = make_state(limits, case['periodic'], 123., nodes=[node], simplices=[simplex])
                world = _run(stats, _NoChoice, cfg, state, dict(initial=[simplex], nodes=[node]))
                require((simplex in world.started) == (factor > 1), 'wrong decision for a simplex',
                        simplex=simplex, node=node, cutoff=cutoff)


def run_crowd(case, stats):
    """Few relevant ones among many nodes / refined positions just beyond the cutoff."""
    dim, num, count = case['dim'], case['num'], case['count']
    limits = [[0., 16.]] * dim
    box = Box(limits, case['periodic'])
    pad = [0.] * (dim - 1)

    def shifted(dist, i):
        """A position with the given distance, in one of several directions."""
        if dim == 1 or i % 3 == 0:
            return box.normalize([4. + (dist if i % 2 else -dist)] + [4.] * (dim - 1))
        if i % 3 == 1:
            return box.normalize([4., 4. + (dist if i % 2 else -dist)])
        return box.normalize([4. + 0.75 * dist, 4. - 0.75 * dist])

    crowd = [shifted(1.125 + i / 256, i) for i in range(num)]
    near = [shifted(0.5 + i / (16 if case['near'] < 8 else 2048), i) for i in range(case['near'])]
    center = (4., ) * dim
    side = case.get('side')
    if side:
        center = (4.5 + side * 0.375, ) + center[1:]
        crowd = [(center[0] - side * (1.0625 + i / 1024), ) + center[1:] for i in range(num)]
        near = [(center[0] + side * (0.25 + i / 2048), ) + center[1:] for i in range(case['near'])]
    far = (12., ) * dim
    stencil = [[[4 + 74 * D] + pad, [4.25 + 202 * D] + pad] + [[4 + 9 * D, 0.5]] * (dim - 1)]
    # the relevant ones come last, first, and in the middle
    for split in sorted({num, 0, num // 2}):
        points = crowd[:split] + near + crowd[split:]
        # each near node is at another vertex; several vertices are the same point
        simplex = norm_simplex([center] + [shifted(3., 1 if side == -1 else 0)] + ([shifted(3., 1)] if dim == 2 else []))
        cfg = dict(limits=limits, periodic=case['periodic'], mesh_size=[1] * dim, cutoff=1., parallel=1,
                   stencil=None, simplex_check=count, max_nodes=0)
        state = make_state(limits, case['periodic'], 1., nodes=points, simplices=[simplex])
        world = _run(stats, _NoChoice, cfg, state, dict(initial=[simplex], nodes=points))
        require((simplex in world.started) == (bool(near) <= count), 'wrong decision for a simplex',
                simplex=simplex, nodes=points, count=count)
        cfg.update(stencil=stencil, simplex_check=dim + 1, recheck_count=count)
        state = make_state(limits, case['periodic'], 1., nodes=points, refined=points, positions=[center, far])
        world = _run(stats, _NoChoice, cfg, state, dict(initial=[], nodes=points, refined=points, positions=[center, far]))
        require(len(world.started) == 1 + (len(near) <= count), 'wrong decision for a position',
                refined=points, count=count, near=len(near))


def run_position(case, stats):
    """Queued and refined positions on a lattice with half of the cutoff as spacing."""
    limits = [[0., 0.5 * case['num_points']]]
    points = [(0.5 * i, ) for i in range(case['num_points'])]
    refined = [points[i] for i in case['refined']]
    for num in range(1, case['max_queued'] + 1):
        for queued in itertools.permutations(points, num):
            if num > 2 and queued[0] > points[2]:
                continue  # up to translation and reflection (of few refined positions)
            cfg = dict(limits=limits, periodic=case['periodic'], mesh_size=[1], cutoff=1., parallel=1,
                       stencil=STENCIL, simplex_check=2, recheck=case['recheck'], recheck_count=case['count'],
                       max_nodes=0)
            state = make_state(limits, case['periodic'], 1., nodes=points, refined=refined, positions=queued)
            try:
                _run(stats, _NoChoice, cfg, state,
                     dict(initial=[], nodes=points, refined=refined, positions=list(queued)))
            except Violation as exc:
                exc.detail.update(queued=queued)
                raise


def run_dynamic(case, stats):
    """Nodes found during the search."""
    explore_case(case, lambda chooser: _run(stats, chooser, case['cfg'], None, dict(node_values=some_values(case['cfg']))), stats, bound=case['bound'])


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 500, 'vacuous exploration'
