"""
C09: refinement coverage and separation, for all completion orders and all
assignments of node / no-node outcomes (bounded number of nodes) to the visited
simplices of small searches, on the real search under a controlled event loop.
"""
from nodefinder import search

from ..core import explore_case, explore_pattern, Violation
from ..search_world import make_world, search_kwargs, some_values

ID = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of completion orders x node outcomes of the real asyncio search, invariants on the end state of every execution'
RULE = ('An execution is one order of completions with an outcome (no node, node at one of the vertices) for every visited '
        'simplex, run on the real search; the coverage, separation and stencil invariants are evaluated at its end. A state is a settled scheduler state.')
CASE_LIMIT = 600.
BOUNDS = {
    'quick': 'up to 8 starting simplices whose nodes are within / at / beyond the cutoff of each other, at most 3 nodes, all choices within 2 (one starting simplex: 3) deviations from first-come first-served and no-node; fixed patterns with up to 240 nodes and 120 starting simplices',
    'thorough': 'as quick with all option combinations and 4 deviations (3 or 2 with many starting simplices running at once), and pairs of simultaneous completions for up to 3 starting simplices',
}
ASSUMPTIONS = ['the potential is only evaluated on the event loop of the search',
               'the explored potentials have infinite minimization tolerances, i.e. each minimization evaluates just its starting simplex']

D = 1 / 1024
# in units of the cutoff; the fractions make the vertices of different nodes distinct
STENCIL_A = [[[1 + 74 * D], [1 + 202 * D]], [[-1 - 118 * D], [-1 - 326 * D]]]
STENCIL_B = [[[0.5 + 74 * D], [0.75 + 202 * D]], [[-0.5 - 118 * D], [-0.75 - 326 * D]], [[2 + 39 * D], [2 + 167 * D]]]
STENCIL_2D = [[[1 + 74 * D, 22 * D], [1.25 + 202 * D, 6 * D], [1 + 14 * D, 0.25 + 50 * D]],
              [[-0.5 - 118 * D, 0.75 + 34 * D], [-0.75 - 326 * D, 0.5 + 10 * D], [-0.5 - 66 * D, 1 + 58 * D]]]


def cases(tier):
    thorough = tier == 'thorough'
    bound = 4 if thorough else 3
    nodes = 3
    for periodic in (True, False):
        for m, size, cutoff in [(2, 2., 0.5), (4, 2., 0.75), (8, 2., 0.5), (3, 3., 0.25), (4, 1., 2.), (1, 1., 0.25), (5, 20., 4.)]:
            if periodic:
                limits = [[0., size]]
            else:
                # the same spacing of the starting simplices
                limits = [[0., size * (m - 1) / m if m > 1 else size]]
            if limits[0][1] * 1024 != int(limits[0][1] * 1024):
                limits[0][1] = float(m - 1)
            for stencil in (STENCIL_A, STENCIL_B):
                for parallel in (1, 2, 8):
                    for recheck, count in ((True, 0), (True, 1), (False, 0)):
                        if not thorough and (m + parallel > 9 or (count and not periodic)):
                            continue
                        depth = bound if m <= (3 if thorough else 1) else bound - 1
                        if thorough and m == 4 and parallel == 1 and stencil is STENCIL_A and not count:
                            depth = bound
                        if thorough and m == 3 and parallel > 1 or m == 2 and parallel > 2 and count:
                            depth = bound - 1
                        if thorough and m > 4 and parallel > 2:
                            depth = bound - 2
                        yield dict(
                            cfg=dict(
                                limits=limits, periodic=periodic, mesh_size=[m], cutoff=cutoff,
                                parallel=parallel, stencil=stencil, recheck=recheck,
                                recheck_count=count, max_nodes=nodes, node_vertices=[0, 1],
                                pairs='lags' if m == parallel == 2 and periodic else thorough and parallel > 1 and m <= 3,
                                simplex_check=2
                            ), bound=depth
                        )
                    # with skipping of simplices near nodes
                    for check in (0, 1):
                        if not thorough and (m + parallel > 9 or stencil is STENCIL_B):
                            continue
                        yield dict(
                            cfg=dict(
                                limits=limits, periodic=periodic, mesh_size=[m], cutoff=cutoff,
                                parallel=parallel, stencil=stencil, simplex_check=check,
                                max_nodes=nodes, node_vertices=[0, 1],
                                pairs='lags' if m == parallel == 2 and periodic else thorough and parallel > 1 and m <= 3,
                            ), bound=bound - (2 if thorough and m > 4 and parallel > 2 else 1)
                        )
        for parallel in (1, 3):
            for cutoff in (0.5, 1.):
                yield dict(
                    cfg=dict(
                        limits=[[-1., 1.], [0., 4.]], periodic=periodic, mesh_size=[2, 2], cutoff=cutoff,
                        parallel=parallel, stencil=STENCIL_2D, max_nodes=nodes,
                        node_vertices=[0, 1, 2]
                    ), bound=bound if thorough else 2
                )
        # refinement switched off
        for parallel in (1, 4):
            yield dict(
                cfg=dict(
                    limits=[[0., 2.]], periodic=periodic, mesh_size=[4 if periodic else 5], cutoff=0.5,
                    parallel=parallel, stencil=None, max_nodes=nodes, node_vertices=[0, 1]
                ), bound=bound
            )
    # many nodes and refined positions: fixed patterns of completions and nodes
    for m, parallel in ((50, 1), (50, 8), (50, 60), (120, 20)) + (((400, 40), (120, 120)) if thorough else ()):
        for order in ('first', 'last', 'middle', 7):
            for period in (1, 2, 5):
                for stencil, cutoff in ((STENCIL_A, 0.25), (STENCIL_A, 1.5), (STENCIL_B, 0.75)):
                    for recheck, count, check in ((True, 0, 2), (True, 1, 0), (False, 0, 1), (True, 0, 0)):
                        if not thorough and (count or not recheck) and (period > 1 or m > 50):
                            continue
                        yield dict(
                            cfg=dict(
                                limits=[[0., float(m)]], periodic=True, mesh_size=[m], cutoff=cutoff, parallel=parallel,
                                stencil=stencil, recheck=recheck, recheck_count=count, simplex_check=check,
                                max_nodes=2 * m, node_vertices=[0, 1], max_events=20 * m
                            ), pattern=dict(order=order, node_period=period)
                        )


def run(case, stats):
    cfg = case['cfg']
    stats.sample(case)
    separated = cfg.get('recheck', True) and cfg.get('recheck_count', 0) == 0

    def run_one(chooser):
        world = make_world(cfg, chooser, stats, conform=False, node_values=some_values(cfg))

        async def main():
            return await search.run_async(world.potential, **search_kwargs(cfg))

        kind, result = world.run(main)
        if kind == 'exception':
            raise Violation('the search raised {!r}'.format(result), log=world.log)
        world.check_coverage(result, separated=separated)
        world.check_final(result)
        stats.outcome(tuple(sorted(tuple(x) for x in result.refined_results)))
        stats.seen('delivered', world.delivered)

    if 'pattern' in case:
        explore_pattern(case, run_one, stats)
    else:
        explore_case(case, run_one, stats, bound=case['bound'])


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 100, 'vacuous exploration'
