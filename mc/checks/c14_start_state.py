"""
C14: which starting point a search uses, for all combinations of the loading
options, initial states and save file conditions, on the real search.
"""
import itertools
import os

from nodefinder import search, io

from ..aio import run_plain, PlainWorld
from ..core import require, scratch_dir
from ..compare import canon_state, first_difference
from ..impl import make_state, minimization_result
from ..search_world import INF, Box, mesh_simplices, norm_simplex

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of option combinations x file conditions x given states, each run on the real search against a reference start-state model'
RULE = ('A state is one combination of load, load_quiet, initial_state, force_initial_mesh, save file condition (missing, valid, empty, garbage, truncated), new '
        'thresholds / limits / boundary conditions; the transition is a run of the real search; evaluated simplices, results and errors are compared with the reference model.')
BOUNDS = {
    'quick': 'all option combinations with one stored and one given state, 2 threshold variants, truncation to 12 lengths, limits and boundary condition changes',
    'thorough': 'truncation of the file to 100 lengths and corruption of its superblock at every byte, both dimensions 1 and 2',
}
ASSUMPTIONS = ['"cannot be read" means missing or not a complete HDF5 file']

CUTOFF = 0.125
FIND = {  # stored and given states: nodes, rejected values, simplices
    'a': dict(nodes=[0.5, 2.25], values=[(1.25, 0.4), (3.25, 0.9)], simplices=[(10., 10.25), (20., 20.25)], refined=[0.5], positions=[]),
    'b': dict(nodes=[1.5], values=[(2.75, 0.2)], simplices=[(30., 30.25)], refined=[], positions=[]),
    'mesh': dict(nodes=[], values=[(0.75, 2.)], simplices=[(1., 1.5), (40., 40.25)], refined=[], positions=[]),
    'done': dict(nodes=[0.25], values=[], simplices=[], refined=[0.25], positions=[]),
    'joined': dict(nodes=[], values=[(0.5, 0.), (3.75, 0.1), (2.25, 0.7)], simplices=[(10., 10.25)], refined=[0.5], positions=[], joined=True),
    'positions': dict(nodes=[1.75, 3.75], values=[], simplices=[], refined=[], positions=[1.75, 3.75]),
}


def cases(tier):
    files = ['missing', 'a', 'done', 'empty', 'garbage'] + ['trunc{}'.format(i) for i in range(1, 13)]
    if tier == 'thorough':
        files += ['trunc{}/100'.format(i) for i in range(1, 100)] + ['corrupt{}'.format(i) for i in range(8)]
    for load, quiet, force in itertools.product((True, False), repeat=3):
        for given in (None, 'a', 'b', 'mesh', 'done', 'joined', 'positions'):
            for file in files:
                for threshold in (0.5, 0.3):
                    if given is not None and file not in ('missing', 'a', 'garbage'):
                        continue
                    if threshold != 0.5 and file not in ('missing', 'a', 'done'):
                        continue
                    yield dict(load=load, quiet=quiet, force=force, given=given, file=file, threshold=threshold,
                               limits=[[0., 4.]], periodic=True)
        # queued positions, refinement switched off
        for given, file in (('positions', 'missing'), (None, 'positions'), ('positions', 'a')):
            yield dict(load=load, quiet=quiet, force=force, given=given, file=file, threshold=0.5, limits=[[0., 4.]], periodic=True, refine=False)
    for limits, periodic in (([[0., 4.]], False), ([[-2., 2.]], True), ([[1., 3.]], True), ([[-8., 8.]], False)):
        for force in (True, False):
            for given, load, file in (('a', False, 'missing'), (None, True, 'a'), (None, True, 'positions'), ('done', False, 'a'), ('joined', False, 'missing'), (None, True, 'joined'), (None, True, 'missing')):
                for feature in (3 * CUTOFF, 6 * CUTOFF):
                    yield dict(load=load, quiet=False if file != 'missing' else True, force=force, given=given, file=file,
                               threshold=0.5, limits=limits, periodic=periodic, feature=feature)


def two_stage(x, value):
    from nodefinder.search.result import JoinedMinimizationResult
    return JoinedMinimizationResult(ancestor=minimization_result([x + 0.25], 3.), child=minimization_result([x], value))


def build_state(name):
    spec = FIND[name]
    state = make_state(
        [[0., 4.]], True, CUTOFF, nodes=[(x, ) for x in spec['nodes']], refined=[(x, ) for x in spec['refined']],
        simplices=[[(x, ) for x in s] for s in spec['simplices']], positions=[(x, ) for x in spec['positions']],
        results=[two_stage(x, v) if spec.get('joined') else minimization_result([x], v) for x, v in spec['values']], gap_threshold=0.45
    )
    return state


def prepare_file(case, path):
    kind = case['file']
    if os.path.exists(path):
        os.remove(path)
    if kind == 'missing':
        return
    if kind in FIND:
        io.save(build_state(kind), path)
    elif kind == 'empty':
        open(path, 'w').close()
    elif kind == 'garbage':
        with open(path, 'wb') as file:
            file.write(b'this is no HDF5 file' * 100)
    else:
        io.save(build_state('a'), path)
        with open(path, 'rb') as file:
            data = bytearray(file.read())
        if kind.startswith('trunc'):
            num, _, den = kind[5:].partition('/')
            den = int(den or 13)
            data = data[:len(data) * int(num) // den]
        else:
            data[int(kind[7:])] ^= 0xff
        with open(path, 'wb') as file:
            file.write(data)


def run(case, stats):
    stats.sample(case)
    path = os.path.join(scratch_dir(), 'state.hdf5')
    prepare_file(case, path)
    box = Box(case['limits'], case['periodic'])
    feature = case.get('feature', 3 * CUTOFF)
    mesh = mesh_simplices(box.limits, [4], case['periodic'])
    given = build_state(case['given']) if case['given'] else None
    before = canon_state(given) if given else None
    world = PlainWorld()
    evaluated = []

    def potential(x):
        world.activity += 1
        evaluated.append(tuple(float(v) for v in x))
        return 1.

    refine = case.get('refine', 'positions' in (case['given'], case['file']))
    kwargs = dict(
        limits=case['limits'], periodic=case['periodic'], initial_state=given, save_file=path, load=case['load'],
        load_quiet=case['quiet'], initial_mesh_size=4, force_initial_mesh=case['force'], gap_threshold=case['threshold'],
        feature_size=feature, nelder_mead_kwargs={'xtol': INF, 'ftol': INF},
        refinement_stencil=_stencil() if refine else None
    )
    error = None
    result = None
    try:
        result = run_plain(lambda: search.run_async(potential, **kwargs), world)
    except Exception as exc:  # pylint: disable=broad-except
        error = exc
    stats.transition()
    stats.trace()
    stats.state({k: v for k, v in case.items()})

    # the reference
    readable = case['file'] in FIND
    base = None
    expect_error = None
    if case['load']:
        if given is not None:
            expect_error = ValueError
        elif readable:
            base = case['file']
        elif not case['quiet']:
            expect_error = OSError
    elif given is not None:
        base = case['given']
    stats.outcome((base, expect_error, case['force'], len(evaluated)))
    if expect_error is not None:
        require(isinstance(error, expect_error), 'expected {}, got {!r}'.format(expect_error.__name__, error))
        require(not evaluated, 'the potential is evaluated although the search cannot start')
        return
    require(error is None, 'the search raised {!r}'.format(error))

    nodes, values, refined, positions, simplices = [], [], [], [], []
    if base is not None:
        spec = FIND[base]
        values = [(box.normalize((x, )), 0.) for x in spec['nodes']] + [(box.normalize((x, )), v) for x, v in spec['values']]
        refined = [(x, ) for x in spec['refined']]
        positions = [(x, ) for x in spec['positions']] if refine else []
        simplices = [norm_simplex([(x, ) for x in s]) for s in spec['simplices']]
    if base is None or case['force']:
        simplices += [s for s in mesh if s not in simplices]
    done = list(refined)
    for pos in positions:
        # two positions may coincide when the box is smaller than before
        if any(box.distance(pos, other) < feature / 3 for other in done):
            continue
        done.append(pos)
        for s in _stencil():
            simplices.append(norm_simplex([[x + feature / 3 * y for x, y in zip(pos, v)] for v in s]))
    nodes = [p for p, v in values if v <= case['threshold']]
    run_simplices = [
        s for s in simplices
        if not any(box.distance(v, n) < feature / 3 for v in s for n in nodes)
    ]
    want = sorted(v for s in run_simplices for v in s)
    require(sorted(evaluated) == want, 'wrong simplices are minimized', evaluated=sorted(evaluated), expected=want)

    def plain(results):
        return sorted((tuple(float(x) for x in r.pos), float(r.value)) for r in results)

    new = [(box.normalize(s[0]), 1.) for s in run_simplices]
    everything = sorted(values + new)
    require(plain(result.minimization_results) == everything, 'wrong results', found=plain(result.minimization_results), expected=everything)
    require(plain(result.nodes) == [x for x in everything if x[1] <= case['threshold']],
            'results are not classified with the current threshold', found=plain(result.nodes))
    require(plain(result.rejected_results) == [x for x in everything if x[1] > case['threshold']], 'wrong rejected results')
    require(float(result.gap_threshold) == case['threshold'], 'wrong gap threshold')
    require(float(result.dist_cutoff) == feature / 3, 'wrong distance cutoff')
    require(result.coordinate_system.limits.tolist() == [list(x) for x in box.limits]
            and result.coordinate_system.periodic == case['periodic'], 'wrong coordinate system')
    if base is not None:
        found = sorted(tuple(float(x) for x in p) for p in result.refined_results)
        require(found == sorted(done), 'wrong refined positions', found=found)
    if given is not None:
        after = canon_state(given)
        diff = first_difference(before, after)
        require(diff is None, 'the given state is altered: {}'.format(diff))
    # the save file now holds the new search
    state = io.load(path)
    require(plain(state.result.minimization_results) == everything, 'the save file does not hold the new results')


def _stencil():
    import numpy as np
    return np.array([[[3.25], [3.5]]])


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 10, 'vacuous exploration'
