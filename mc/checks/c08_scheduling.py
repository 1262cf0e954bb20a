"""
C08: all completion orders of the minimizations of small searches, on the real
search under a controlled event loop, against a reference model of the scheduler.
"""
from nodefinder import search

from ..core import explore_case, explore_pattern, require, Violation
from ..search_world import make_world, search_kwargs, some_values

ID = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all completion orders of the real asyncio search under a controlled event loop, with a reference scheduler model'
RULE = ('An execution is one order of completion events (single, or two at once) and node / no-node outcomes, run on the real '
        'search; a state is the settled scheduler state (queued, running, finished, skipped, nodes, refined), compared with the reference model after every event.')
BOUNDS = {
    'quick': 'up to 5 starting simplices (1D and 2D), parallel limit 1..6, all orders of single completions; pairs of simultaneous completions, or a few loop iterations apart, and up to 2 nodes with a 2-simplex stencil within 2 deviations; fixed patterns of completions and nodes with up to 2200 starting simplices and up to 260 at a time, with refinements which repeat simplices of the mesh',
    'thorough': 'up to 6 starting simplices, all orders; simultaneous pairs and up to 2 nodes with refinement within 4 deviations',
}
ASSUMPTIONS = ['the potential is only evaluated on the event loop of the search',
               'the explored potentials have infinite minimization tolerances, i.e. each minimization evaluates just its starting simplex']

# the simplices at a node are simplices of the mesh
LATTICE = [[[2.], [3.]], [[-4.], [-3.]]]
STENCIL1 = [[[1.25], [1.5]], [[-1.3125], [-1.625]]]


def _cfg(m, parallel, periodic, **kwargs):
    limits = [[0., float(m)]] if periodic else [[0., float(max(1, m - 1))]]
    cfg = dict(limits=limits, periodic=periodic, mesh_size=[m], cutoff=0.125, parallel=parallel,
               stencil=None, max_nodes=0)
    cfg.update(kwargs)
    return cfg


def cases(tier):
    thorough = tier == 'thorough'
    for periodic in (True, False):
        for m in range(1, 7 if thorough else 6):
            for parallel in sorted({1, 2, 3, m, m + 1}):
                yield dict(cfg=_cfg(m, parallel, periodic), bound=None)
    for m, parallel in [(2, 2), (3, 2), (3, 3)]:
        yield dict(cfg=_cfg(m, parallel, True, slow=True), bound=None)
        yield dict(cfg=_cfg(m, parallel, True, pairs='lags'), bound=None if m < 3 or thorough else 2)
        yield dict(cfg=_cfg(m, parallel, True, stencil=STENCIL1, max_nodes=2, node_vertices=[0, 1], pairs='lags'), bound=3 if thorough or m < 3 else 2)
    for m, parallel in [(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4)] + ([(5, 3), (5, 5)] if thorough else []):
        yield dict(cfg=_cfg(m, parallel, True, pairs=True), bound=None if m < 4 else (4 if thorough else 3))
    for m, parallel in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (3, 3), (3, 8)]:
        for periodic in (True, False):
            for pairs in (False, True):
                if m > 2 and pairs and not thorough:
                    continue
                yield dict(
                    cfg=_cfg(m, parallel, periodic, stencil=STENCIL1, max_nodes=2, node_vertices=[0, 1], pairs=pairs),
                    bound=(4 if thorough else 3) if m < 3 else (3 if thorough else 2)
                )
    for mesh in ([2, 2], [1, 3], [2, 1]):
        for parallel in (1, 2, 3, 4):
            yield dict(
                cfg=dict(limits=[[0., 4.], [-1., 1.]], periodic=True, mesh_size=mesh, cutoff=0.125,
                         parallel=parallel, stencil=None, max_nodes=0), bound=None
            )
    # a state with queued simplices (duplicates in different vertex order), combined with the mesh
    for objects in ([0, 0], [1, 0, 1], [7, 0, 7], [7, 9, 2]):
        for force in (True, False):
            for parallel in (1, 2, 5):
                yield dict(cfg=_cfg(3, parallel, True), bound=None, objects=objects, force=force)
    # many simplices: fixed patterns of completions; refinements repeat simplices of the mesh
    for m, parallels in [(60, (2, 7, 41, 60, 100)), (130, (50, 120)), (300, (1, 50, 260))] + ([(700, (1, 50, 700))] if thorough else []):
        for parallel in parallels:
            for order in ('first', 'last', 'middle', 7, 11):
                for stencil, period in ((None, 0), (LATTICE, 3), (LATTICE, 10)):
                    if m > 130 and not thorough and order in (7, 'middle') and stencil is not None:
                        continue
                    yield dict(cfg=_cfg(m, parallel, True, stencil=stencil, cutoff=0.5, simplex_check=2,
                                        max_nodes=m if stencil else 0, node_vertices=[0, 1], max_events=10 * m),
                               pattern=dict(order=order, node_period=period), bound=None)
    for order in ('first', 'last'):
        yield dict(cfg=_cfg(700, 50, True, stencil=LATTICE, cutoff=0.5, simplex_check=2, max_nodes=700, node_vertices=[0, 1], max_events=7000, conform=False),
                   pattern=dict(order=order, node_period=3), bound=None)
    for order in ('first', 'last') if thorough else ('first', ):
        yield dict(cfg=_cfg(2200, 50, True, cutoff=0.5, max_events=10000, conform=False), pattern=dict(order=order), bound=None)


def run(case, stats):
    cfg = case['cfg']
    stats.sample(case)

    def run_one(chooser):
        kwargs = search_kwargs(cfg)
        world_kwargs = {}
        if 'objects' in case:
            state, initial = _state(case, cfg)
            kwargs.update(initial_state=state, force_initial_mesh=case['force'])
            world_kwargs['initial'] = initial
        world = make_world(cfg, chooser, stats, node_values=some_values(cfg), **world_kwargs)

        async def main():
            return await search.run_async(world.potential, **kwargs)

        kind, result = world.run(main)
        if kind == 'exception':
            raise Violation('the search raised {!r}'.format(result), log=world.log)
        world.check_final(result)
        if cfg['stencil'] is None and cfg['max_nodes'] == 0:
            require(
                sorted(set(world.initial)) == sorted(world.started),
                'not every starting simplex was minimized', started=world.started, log=world.log
            )
        stats.outcome([s for s, _, _ in world.delivered])

    if 'pattern' in case:
        explore_pattern(case, run_one, stats)
    else:
        explore_case(case, run_one, stats, bound=case['bound'])


def _state(case, cfg):
    from nodefinder.search import result as res
    from ..impl import SimplexQueue, PositionQueue
    from nodefinder.coordinate_system import CoordinateSystem
    from ..search_world import mesh_simplices, norm_simplex
    mesh = mesh_simplices(cfg['limits'], cfg['mesh_size'], cfg['periodic'])
    objects = []
    initial = []
    for i, idx in enumerate(case['objects']):
        simplex = mesh[idx] if idx < len(mesh) else norm_simplex([[idx / 16.], [idx / 16. + 1 / 64.]])
        initial.append(simplex)
        objects.append(simplex if i % 2 == 0 else simplex[::-1])
    state = res.ControllerState(
        result=res.SearchResultContainer(
            coordinate_system=CoordinateSystem(limits=cfg['limits'], periodic=cfg['periodic']),
            gap_threshold=0.5, dist_cutoff=cfg['cutoff']
        ), simplex_queue=SimplexQueue(objects), position_queue=PositionQueue()
    )
    if case['force']:
        initial = initial + mesh
    return state, list(dict.fromkeys(initial))


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 100, 'vacuous exploration'
