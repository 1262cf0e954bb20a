"""
C16: the starting simplices of a fresh search, for all mesh sizes, limits and
boundary conditions within the bounds, observed at the potential.
"""
import itertools

import numpy as np

from nodefinder import search

from ..aio import run_plain, PlainWorld
from ..core import require
from ..search_world import INF

ID = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of box and mesh configurations, each executed on the real search; every evaluated starting simplex compared with a reference grid'
RULE = ('A state is a configuration (limits, order of the limits, boundary conditions, mesh size and its type); its transitions are the starting simplices which the real '
        'search minimizes, observed as evaluations of the potential (tolerances are infinite: only starting vertices are evaluated).')
BOUNDS = {
    'quick': 'dimension 1: mesh sizes 1-12; 2: 1-5 each; 3: 1-3 each; 4: 1-2; some with up to 3375 points; 12 ranges of limits in both orders; both boundary conditions; all mismatched dimensions up to 4',
    'thorough': 'dimension 1: 1-60; 2: 1-9; 3: 1-5; 4: 1-3; all combinations of ranges in 2 dimensions',
}
ASSUMPTIONS = [
    'vertices are compared with a relative tolerance of 1e-11',
    'for an open box and a single point in a dimension, any place within the limits is accepted',
]

RANGES = [(0, 1), (-0.5, 0.5), (-3., -1.25), (0.1, 0.7), (-1e3, 1e3), (2, 2.001), (0., 6.283185307179586), (-7, 4), (1e-3, 5.), (100.25, 101.), (-1e-9 / 3, 2.5e-9 / 7), (1234567.125, 1e8 / 3)]


def cases(tier):
    big = tier == 'thorough'

    def sizes(dim):
        top = {1: 60, 2: 9, 3: 5, 4: 3} if big else {1: 12, 2: 5, 3: 3, 4: 2}
        return itertools.product(range(1, top[dim] + 1), repeat=dim)

    for dim in (1, 2, 3, 4):
        for size in sizes(dim):
            for periodic in (True, False):
                if dim == 1:
                    choices = [[r] for r in RANGES]
                elif dim == 2 and big:
                    choices = [list(x) for x in itertools.product(RANGES, repeat=2)]
                else:
                    choices = [[RANGES[(i * (j + 1) + j) % len(RANGES)] for i in range(dim)] for j in range(4 if dim < 4 else 1)]
                for limits in choices:
                    yield dict(limits=limits, size=list(size), periodic=periodic, parallel=1)
                # limits in the other order
                yield dict(limits=[(b, a) if i % 2 == 0 else (a, b) for i, (a, b) in enumerate(choices[0])], size=list(size), periodic=periodic, parallel=1)
            if len(set(size)) == 1:
                for kind in ('int', 'numpy int', 'list', 'array'):
                    for periodic in (True, False):
                        yield dict(limits=[RANGES[i + 1] for i in range(dim)], size=list(size), periodic=periodic, parallel=1, kind=kind)
    # many points
    for size in [[31], [64], [101], [1000], [3301], [60, 2], [2, 55], [33, 34], [101, 3], [4, 3, 70], [15, 15, 15], [2, 17, 1], [1, 1, 200], [6, 6, 6, 6]] + ([[9001], [90, 90], [1, 500], [22, 22, 22], [9, 9, 9, 9]] if big else []):
        for periodic in (True, False):
            for j in range(3 if big else 1):
                yield dict(limits=[RANGES[(i * 5 + j * 2 + len(size)) % len(RANGES)] for i in range(len(size))], size=size, periodic=periodic, parallel=1)
    for parallel in (2, 5, 50):
        for size in ([3, 2], [4], [2, 2, 2]):
            for periodic in (True, False):
                yield dict(limits=[RANGES[i + 1] for i in range(len(size))], size=size, periodic=periodic, parallel=parallel)
    yield dict(limits='default', size='default', periodic='default', parallel=1)
    for dim in range(1, 5):
        for dim_mesh in range(0, 6):
            if dim_mesh != dim:
                for kind in ('tuple', 'list', 'array'):
                    yield dict(limits=[RANGES[i] for i in range(dim)], size=[2] * dim_mesh, periodic=bool(dim % 2), parallel=1, kind=kind, mismatch=True)


def mesh_argument(case):
    size = case['size']
    kind = case.get('kind', 'tuple')
    if kind == 'int':
        return int(size[0])
    if kind == 'numpy int':
        return np.int64(size[0])
    if kind == 'array':
        return np.array(size, dtype=int)
    return list(size) if kind == 'list' else tuple(size)


def run(case, stats):
    stats.sample(case, limit=2)
    evaluated = []
    world = PlainWorld()

    def potential(x):
        world.activity += 1
        evaluated.append([float(v) for v in x])
        return 1.

    kwargs = dict(
        refinement_stencil=None, gap_threshold=0.5, feature_size=1e4, num_minimize_parallel=case['parallel'],
        nelder_mead_kwargs={'xtol': INF, 'ftol': INF}
    )
    if case['limits'] != 'default':
        kwargs.update(limits=case['limits'], periodic=case['periodic'], initial_mesh_size=mesh_argument(case))
    stats.state({k: v for k, v in case.items()})
    stats.trace()
    try:
        result = run_plain(lambda: search.run_async(potential, **kwargs), world)
    except ValueError as exc:
        require(case.get('mismatch'), 'the search raised {!r}'.format(exc))
        require(not evaluated, 'the potential is evaluated although the mesh size is not valid')
        stats.outcome('rejected')
        return
    require(not case.get('mismatch'), 'a mesh size whose dimension differs from that of the limits is not rejected')
    if case['limits'] == 'default':
        case = dict(limits=[(0, 1)] * 3, periodic=True, size=[10] * 3)
    limits = [sorted(x) for x in case['limits']]
    dim = len(limits)
    num = int(np.prod(case['size']))
    stats.transition(num)
    stats.outcome(num)
    require(len(evaluated) == num * (dim + 1), '{} evaluations instead of {}'.format(len(evaluated), num * (dim + 1)))
    require(len(result.minimization_results) == num, '{} results instead of {}'.format(len(result.minimization_results), num))
    require(list(result.coordinate_system.limits.ravel()) == [x for lim in limits for x in lim], 'wrong limits in the result')

    # the reference grid, as multiples of the spacing
    steps = []
    for (lower, upper), m in zip(limits, case['size']):
        if case['periodic']:
            steps.append((upper - lower) / m)
        else:
            steps.append((upper - lower) / (m - 1) if m > 1 else None)
    found = set()
    tol = [1e-11 * max(abs(a), abs(b), b - a) for a, b in limits]
    for group in starting_simplices(result, evaluated, dim, case):
        group = np.array(group)
        # the anchor: the vertex from which all others differ along one axis
        anchor = group.min(axis=0)
        idx = []
        for i, ((lower, upper), step, m) in enumerate(zip(limits, steps, case['size'])):
            if step is None:
                require(lower - tol[i] <= anchor[i] <= upper + tol[i], 'simplex outside the limits', simplex=group)
                idx.append(0)
                continue
            j = int(round((anchor[i] - lower) / step))
            require(0 <= j < m, 'simplex at {} is not at a point of the grid'.format(anchor), simplex=group)
            require(abs(lower + j * step - anchor[i]) <= tol[i], 'simplex at {} is not at a point of the grid'.format(anchor), simplex=group)
            idx.append(j)
        require(tuple(idx) not in found, 'two simplices at the grid point {}'.format(idx), simplex=group)
        found.add(tuple(idx))
        edges = sorted(tuple(x) for x in group - anchor)
        want = [[0.] * dim] + [[(b - a) / (2 * m) if i == j else 0. for j in range(dim)] for i, ((a, b), m) in enumerate(zip(limits, case['size']))]
        require(
            all(any(all(abs(x - y) <= t for x, y, t in zip(e, w, tol)) for e in edges) for w in want),
            'the edges of the simplex at {} are wrong'.format(idx), edges=edges, expected=want
        )
    require(len(found) == num, 'not all grid points have a simplex')


def starting_simplices(result, evaluated, dim, case):
    """Group the evaluations to simplices."""
    if case.get('parallel', 1) == 1:
        return [evaluated[i:i + dim + 1] for i in range(0, len(evaluated), dim + 1)]
    groups = [np.array(r.simplex_history[0]).tolist() for r in result.minimization_results]
    require(sorted(v for g in groups for v in g) == sorted(evaluated), 'the histories do not contain the evaluated vertices')
    return groups


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 10, 'vacuous exploration'
