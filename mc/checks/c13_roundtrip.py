"""
C13: saving and loading of all search objects over an enumerated space of states.
"""
import itertools
import os

import numpy as np

from nodefinder import io, search
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search.result import (
    SearchResultContainer, ControllerState, MinimizationResult, JoinedMinimizationResult
)

from ..aio import run_plain, PlainWorld
from ..compare import canon_state, canon_container, canon_system, canon_min_result, first_difference, dump_h5
from ..core import require, scratch_dir
from ..impl import SimplexQueue, PositionQueue
from ..search_world import INF

ID = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of states (all combinations and short sequences over an alphabet of results, queue contents and options) and save / load transitions on the real code'
RULE = ('A state is a constructed coordinate system / minimization result / container / search state or one produced by a real search; transitions are save, load, save '
        'again and load again; all attributes, their order, the file contents and neighbour queries are compared after each.')
BOUNDS = {
    'quick': 'all sequences of up to 2 results out of 9 kinds, up to 2 refined positions, queues of up to 2 waiting and 2 in progress, dimensions 1-3 (1 result in 3D), both boundary conditions; histories of up to 1155 simplices, up to 1100 results, simplices and positions; states of real searches with all option combinations',
    'thorough': 'sequences of up to 3 results',
}
ASSUMPTIONS = ['numbers are compared by value, not by their (numpy) type']


def result_kinds(dim):
    """Alphabet of results: name -> function creating it."""
    def plain(pos, value, success=True, message='Optimization terminated successfully.', hist=1, fun=True, **extra):
        pos = np.array(pos, dtype=float)
        sh = np.array([[pos + i + j for j in range(dim + 1)] for i in range(hist)])
        kwargs = dict(pos=pos, value=value, success=success, message=message, status=0 if success else 2,
                      num_fev=dim + 1 + hist, num_iter=hist, simplex_history=sh)
        if fun:
            kwargs['fun_simplex_history'] = np.array([[value + j for j in range(dim + 1)] for i in range(hist)])
        kwargs.update(extra)
        return MinimizationResult(**kwargs)

    a = [0.25] * dim
    b = [0.75] + [0.] * (dim - 1)
    c = [-0.125] + [1.5] * (dim - 1)
    return dict(
        node=lambda: plain(a, 0.),
        node2=lambda: plain(b, 1e-9, hist=3),
        outside=lambda: plain(c, 0.5 - 1e-9, hist=2, fun=False),
        equal=lambda: plain(a, 0.5, message='gr\u00fc\u00dfe \u2713'),
        high=lambda: plain(b, 0.75, fun=False),
        failed=lambda: plain(c, 0., success=False, message='Maximum number of iterations has been exceeded.'),
        infinite=lambda: plain(a, INF, message=''),
        joined=lambda: JoinedMinimizationResult(child=plain(b, 0., hist=2), ancestor=plain(a, INF, hist=3)),
        joined_failed=lambda: JoinedMinimizationResult(
            child=plain(c, 0.25, success=False, hist=1, fun=False), ancestor=plain(c, 2., hist=2, fun=False)
        ),
    )


def cases(tier):
    num = 3 if tier == 'thorough' else 2
    for dim in (1, 2, 3):
        for periodic in (True, False):
            for n in range(num + (dim < 3 or num > 2)):
                for kinds in itertools.product(sorted(result_kinds(1)), repeat=n):
                    yield dict(kind='container', dim=dim, periodic=periodic, results=kinds)
            yield dict(kind='system', dim=dim, periodic=periodic)
            for size in range(5):
                yield dict(kind='state', dim=dim, periodic=periodic, num=size)
    # long histories, many results, long queues
    for dim in (1, 2, 3):
        for hist in (1, 10, 11, 101, 257, 1025) + ((5000, ) if num > 2 else ()):
            for other in (1, 130):
                yield dict(kind='long', dim=dim, hist=hist, other=other)
        for size in (10, 12, 101, 260) + ((1100, ) if dim == 2 or num > 2 else ()):
            yield dict(kind='large', dim=dim, size=size, periodic=size % 2 == 0)
    for kind in sorted(result_kinds(1)):
        for dim in (1, 2, 3):
            yield dict(kind='result', dim=dim, result=kind)
    for dim in (1, 2):
        for fake, keep, refine, periodic in itertools.product((True, False), repeat=4):
            yield dict(kind='search', dim=dim, fake=fake, keep=keep, refine=refine, periodic=periodic)


LIMITS = {1: [[-0.5, 0.5]], 2: [[0., 1.], [-1., 2.]], 3: [[0., 1.], [0., 0.5], [-3., 3.]]}


def cycle(obj, canon, stats, info):
    """save, load, save, load; returns the loaded object."""
    path1 = os.path.join(scratch_dir(), 'a.hdf5')
    path2 = os.path.join(scratch_dir(), 'b.hdf5')
    before = canon(obj)
    io.save(obj, path1)
    require(first_difference(before, canon(obj)) is None, 'saving changes the object', **info)
    new = io.load(path1)
    require(type(new) is type(obj), 'loading gives another type', **info)
    diff = first_difference(before, canon(new))
    require(diff is None, 'the loaded object is different: {}'.format(diff), **info)
    io.save(new, path2)
    require(dump_h5(path1) == dump_h5(path2), 'saving the loaded object gives another file', **info)
    newer = io.load(path2)
    diff = first_difference(before, canon(newer))
    require(diff is None, 'the object loaded twice is different: {}'.format(diff), **info)
    stats.transition(4)
    stats.trace()
    stats.state(before)
    return new


def check_queries(old, new, dim, info):
    """Neighbour queries give the same answers."""
    points = itertools.product(*[np.linspace(a - 0.1, b + 0.1, 4) for a, b in LIMITS[dim]])
    for pos in list(points) + [tuple(n.pos) for n in old.minimization_results]:
        pos = np.array(pos)
        for name in ('get_neighbour_distance_iterator', 'get_refined_neighbour_distance_iterator', 'get_all_neighbour_distances'):
            one = sorted(float(x) for x in getattr(old, name)(pos))
            two = sorted(float(x) for x in getattr(new, name)(pos))
            require(one == two, 'neighbour queries differ after loading', pos=pos, **info)


def container(dim, periodic, kinds, refined=(), cutoff=0.25, threshold=0.5):
    alphabet = result_kinds(dim)
    res = SearchResultContainer(
        coordinate_system=CoordinateSystem(limits=LIMITS[dim], periodic=periodic),
        gap_threshold=threshold, dist_cutoff=cutoff
    )
    for kind in kinds:
        res.add_result(alphabet[kind]())
    for pos in refined:
        res.set_refined(np.array(pos))
    return res


def run(case, stats):
    stats.sample(case)
    globals()['run_' + case['kind']](case, stats)


def run_system(case, stats):
    for limits in (LIMITS[case['dim']], [[0, 1]] * case['dim'], [[1., -1.]] * case['dim'], np.array([[1e-9, 1e9]] * case['dim'])):
        cycle(CoordinateSystem(limits=limits, periodic=case['periodic']), canon_system, stats, dict(limits=limits))


def run_result(case, stats):
    cycle(result_kinds(case['dim'])[case['result']](), canon_min_result, stats, {})


def long_result(dim, hist, number=0, **kwargs):
    """A result with a long history of numbers which need all digits."""
    vals = [(0.1 + (number * 7919 + i * 104729 % 999983) / 999983.) * (-1)**i for i in range(hist * (dim + 1) * (dim + 1))]
    n = hist * (dim + 1)
    args = dict(
        pos=np.array(vals[:dim]), value=abs(vals[-1]) / 7, success=number % 5 != 4, message='m' * (number % 300), status=number % 5 // 4 * 2,
        num_fev=hist * 2 + number, num_iter=hist, simplex_history=np.array(vals[:n * dim]).reshape(hist, dim + 1, dim),
        fun_simplex_history=np.array(vals[n * dim:n * dim + n]).reshape(hist, dim + 1)
    )
    args.update(kwargs)
    return MinimizationResult(**args)


def run_long(case, stats):
    one = long_result(case['dim'], case['hist'], 3)
    two = long_result(case['dim'], case['other'], 5)
    cycle(one, canon_min_result, stats, {})
    for child, ancestor in ((one, two), (two, one)):
        joined = JoinedMinimizationResult(child=child, ancestor=ancestor)
        cycle(joined, canon_min_result, stats, {})
        for name in ('simplex_history', 'fun_simplex_history'):
            want = np.concatenate([getattr(ancestor, name), getattr(child, name)])
            require(np.array_equal(getattr(joined, name), want), 'the history of a result in two stages is not that of both stages', name=name)


def run_large(case, stats):
    """Many results, refined positions and queued objects."""
    dim, size = case['dim'], case['size']
    res = container(dim, case['periodic'], ())
    for i in range(size):
        one = long_result(dim, 1 + i % 3, i)
        res.add_result(one if i % 7 else JoinedMinimizationResult(child=one, ancestor=long_result(dim, 2, i + 1)))
    nodes = [n.pos for n in res.nodes]
    for pos in nodes[::2]:
        res.set_refined(np.array(pos))
    simplices = [[[float(i * 7919 % 10007 + (j == k)) / 3 for k in range(dim)] for j in range(dim + 1)] for i in range(size)]
    positions = [[(i * 7919 % 10007) / 3. + k for k in range(dim)] for i in range(size)]
    state = ControllerState(result=res, simplex_queue=SimplexQueue(simplices), position_queue=PositionQueue(positions))
    num = size // 3
    running = [state.simplex_queue.pop_queued() for _ in range(num)]
    for simplex in running[::3]:
        state.simplex_queue.set_finished(simplex)
    left = num - len(running[::3])
    for _ in range(5):
        state.position_queue.pop_queued()
    new = cycle(state, canon_state, stats, dict(size=size))
    require(len(new.result.minimization_results) == size, 'results are lost')
    check_queries(res, new.result, dim, {})
    norm = [tuple(sorted(tuple(v) for v in s)) for s in simplices]
    got = [new.simplex_queue.pop_queued() for _ in range(size - num + left)]
    require(not new.simplex_queue.has_queued and got[left:] == norm[num:], 'wrong order of the queue after loading')
    require(sorted(got[:left]) == sorted(s for i, s in enumerate(norm[:num]) if i % 3), 'in progress are not first after loading')
    got = [new.position_queue.pop_queued() for _ in range(size - 5)]
    require(got == [tuple(p) for p in positions[5:]], 'wrong positions after loading')


def run_container(case, stats):
    dim = case['dim']
    many = len(case['results']) > 1
    inside = [[(a + b) / 2 for a, b in LIMITS[dim]], [b for a, b in LIMITS[dim]]]
    for refined in ([], inside) if many else ([], inside[:1], inside):
        for cutoff, threshold in ((0.25, 0.5), (10., 0.), (1e-4, 1e-3), (0, 0.5)):
            if dim == 3 and cutoff in (1e-4, 0):
                continue  # a million cells
            if many and (cutoff, threshold) != (0.25, 0.5):
                continue
            obj = container(dim, case['periodic'], case['results'], refined, cutoff, threshold)
            new = cycle(obj, canon_container, stats, dict(refined=refined, cutoff=cutoff))
            check_queries(obj, new, dim, {})
    if not many:
        # each result by itself
        for res in obj.minimization_results:
            cycle(res, canon_min_result, stats, {})


def run_state(case, stats):
    """Queues with objects waiting, in progress, finished."""
    dim = case['dim']
    simplices = [
        [[float(i + (j == k)) for k in range(dim)] for j in range(dim + 1)] for i in range(4)
    ]
    positions = [[i + 0.5] * dim for i in range(3)]
    num = case['num']
    for pops, finish in itertools.product(range(4), range(3)):
        for num_pos, pops_pos in ((0, 0), (1, 0), (1, 1), (3, 0), (3, 1)):
            if pops > num or finish > pops:
                continue
            for kinds, refined in (((), ()), (('node', 'failed'), ([0.25] * dim, ))):
                state = ControllerState(
                    result=container(dim, case['periodic'], kinds, refined),
                    simplex_queue=SimplexQueue(simplices[:num]), position_queue=PositionQueue(positions[:num_pos])
                )
                running = [state.simplex_queue.pop_queued() for _ in range(pops)]
                for simplex in running[:finish]:
                    state.simplex_queue.set_finished(simplex)
                for _ in range(pops_pos):
                    state.position_queue.pop_queued()
                new = cycle(state, canon_state, stats, dict(num=num, pops=pops, finish=finish))
                # what was in progress comes first, then the waiting ones in order; all of them are queued
                got = [new.simplex_queue.pop_queued() for _ in range(num - finish)]
                require(not new.simplex_queue.has_queued, 'too many simplices are queued after loading')
                norm = [tuple(sorted(tuple(v) for v in s)) for s in simplices]
                require(sorted(got[:pops - finish]) == sorted(norm[finish:pops]), 'in progress are not first after loading')
                require(got[pops - finish:] == norm[pops:num], 'wrong order of the queue after loading')
                got = [new.position_queue.pop_queued() for _ in range(num_pos - pops_pos)]
                require(got == [tuple(p) for p in positions[pops_pos:num_pos]] and not new.position_queue.has_queued,
                        'wrong positions after loading')


def run_search(case, stats):
    """States produced by real searches."""
    dim = case['dim']
    path = os.path.join(scratch_dir(), 'search.hdf5')
    if os.path.exists(path):
        os.remove(path)
    limits = [[0., 1.]] * dim
    world = PlainWorld()

    def gap(x):
        world.activity += 1
        return float(sum(abs(v - 0.3125) for v in x))

    result = run_plain(lambda: search.run_async(
        gap, limits=limits, periodic=case['periodic'], initial_mesh_size=2, gap_threshold=0.05,
        feature_size=0.75, use_fake_potential=case['fake'], save_file=path,
        refinement_stencil='auto' if case['refine'] else None,
        nelder_mead_kwargs={'keep_history': case['keep'], 'maxiter': 8}
    ), world)
    state = io.load(path)
    diff = first_difference(canon_container(result), canon_container(state.result))
    require(diff is None, 'the saved result differs from the returned one: {}'.format(diff))
    cycle(state, canon_state, stats, {})
    cycle(result, canon_container, stats, {})
    for res in result.minimization_results[:20]:
        cycle(res, canon_min_result, stats, {})


def finish(stats, tier):
    assert len(stats.sets['states']) > 300, 'vacuous exploration'
