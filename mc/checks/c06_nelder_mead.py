"""
C06: the minimization against a reference model of the Nelder-Mead method. The
potential is an adversary: whenever a new point is evaluated, all values which
are ordered differently relative to the values which matter next are explored,
including ties.
"""
import itertools

import numpy as np

from nodefinder import search

from ..aio import run_plain, PlainWorld
from ..core import explore_case, require, Violation
from ..impl import make_state
from ..nm import Tracker, Options, INF

ID = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of the decision tree of the minimization (adversarial potential) on the real search, in lockstep with a nondeterministic reference Nelder-Mead machine'
RULE = ('A state is a state of the reference machine (simplex with values, phase, counts); a transition is one evaluation by the real search, for which all relevant orderings of the '
        'new value are explored; every execution is one real search with one starting simplex.')
BOUNDS = {
    'quick': 'dimension 1: 3 iterations, 2: 2, 3: 1, all orderings incl. ties; evaluation limits 1-9, iteration limits 1-5, tolerance and derivative cutoffs on a grid with up to 3 deviations; default limits and tolerances on 6 potentials; up to 700 iterations on potentials with and without steps; all orderings within 2 deviations in the 6 evaluations after 120 descending ones',
    'thorough': 'one iteration more (dimension 1: all orderings, 2 and 3: up to 4-5 deviations), all orders of initial values for limits and tolerances, infinite values, more parameters',
}
ASSUMPTIONS = ['points are compared with relative tolerance 1e-9', 'where values are equal, any order of the vertices is accepted']
MESSAGES = {0: 'successfully', 1: 'function evaluations', 2: 'iterations', 3: 'derivative'}

SIMPLICES = {
    1: [[[0.], [1.]], [[0.5], [-0.25]]],
    2: [[[0., 0.], [1., 0.], [0., 1.]], [[0.5, 0.25], [-1., 0.5], [0.25, 2.]]],
    3: [[[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]],
}


def cases(tier):
    big = tier == 'thorough'

    def firsts(dim):
        """All orders of the initial values including ties."""
        for vals in itertools.product(range(dim + 1), repeat=dim + 1):
            if set(vals) == set(range(max(vals) + 1)):
                yield list(vals)

    # the decisions: all orderings in a given number of iterations
    iters = {1: 3, 2: 2, 3: 1}
    for dim in (1, 2, 3):
        for s in range(len(SIMPLICES[dim])):
            for vals in firsts(dim):
                full = big or dim != 2 or vals in ([[0, 1, 2], [0, 1, 1]], [[1, 0, 0], [2, 0, 1]])[s]
                yield dict(kind='tree', dim=dim, simplex=s, first=vals, opts=dict(xtol=-1., ftol=-1., maxiter=1 + iters[dim]), bound=None if full else 2)
    if big:
        for vals in ([0, 1], [0, 0]):
            yield dict(kind='tree', dim=1, simplex=0, first=vals, opts=dict(xtol=-1., ftol=-1., maxiter=5), bound=None)
        for vals in ([0, 1, 2], [0, 1, 1], [0, 0, 1]):
            yield dict(kind='tree', dim=2, simplex=0, first=vals, opts=dict(xtol=-1., ftol=-1., maxiter=4), bound=4)
        for vals in ([0, 1, 2, 3], [0, 0, 1, 1], [0, 1, 1, 1], [3, 2, 1, 0]):
            yield dict(kind='tree', dim=3, simplex=0, first=vals, opts=dict(xtol=-1., ftol=-1., maxiter=3), bound=5)
    # evaluation and iteration limits
    for dim in (1, 2, 3):
        for vals in ([list(range(dim + 1)), [1] * dim + [0]] if not big else firsts(dim)):
            for maxfev in range(1, 13 if big else 10):
                yield dict(kind='tree', dim=dim, simplex=0, first=vals, opts=dict(xtol=-1., ftol=-1., maxfev=maxfev), bound=3 if maxfev < 8 or big and vals[0] == 0 and dim < 3 else 2)
            for maxiter in range(0, 7 if big else 6):
                yield dict(kind='tree', dim=dim, simplex=0, first=vals, opts=dict(xtol=-1., ftol=-1., maxiter=maxiter, keep_history=False), bound=2)
                yield dict(kind='tree', dim=dim, simplex=0, first=vals, opts=dict(xtol=-1., ftol=-1., maxiter=maxiter, maxfev=2 * maxiter), bound=2)
    # tolerances and cutoff
    for dim in (1, 2) + ((3, ) if big else ()):
        for vals in ([list(range(dim + 1)), [0] * (dim + 1)] if not big else firsts(dim)):
            for xtol in (0.25, 0.5, 0.75, 1., 2., INF):
                for ftol in (0., 0.5, 1., 2., INF):
                    yield dict(kind='tree', dim=dim, simplex=0, first=vals, opts=dict(xtol=xtol, ftol=ftol, maxiter=6), bound=2 if dim == 1 or big and dim == 2 and vals[0] == 0 else 1)
            for cutoff in (-1., 0., 0.25, 0.5, 1., 2., 4.):
                for xtol in (-1., 0.5):
                    yield dict(kind='tree', dim=dim, simplex=0, first=vals, shift=2., opts=dict(xtol=xtol, ftol=INF, maxiter=6, fprime_cutoff=cutoff), bound=3 if big and dim < 3 and vals[0] == 0 else 2)
    if big:
        for dim in (1, 2):
            for vals in firsts(dim):
                yield dict(kind='tree', dim=dim, simplex=0, first=vals, opts=dict(xtol=0.5, ftol=1., maxiter=4), bound=3, infinite=True)
    # default values
    for dim in (1, 2, 3):
        for name in POTENTIALS:
            for gap in (1e-2, 0.3) + ((1e-6, 10.) if big else ()):
                for feature in (0.3, 0.02) + ((1e-4, 1.5) if big else ()):
                    for given in ({}, dict(xtol=1e-3), dict(ftol=1e-4), dict(maxiter=7), dict(maxfev=11), dict(xtol=0.1, ftol=0.1), dict(fprime_cutoff=0.7)):
                        yield dict(kind='real', dim=dim, potential=name, gap=gap, feature=feature, given=given)
    for dim in (1, 2, 3):
        for given in ({}, dict(maxiter=200 * dim + 50), dict(maxfev=1000 * dim), dict(maxiter=None, maxfev=None)):
            for name in ('slope', ):
                yield dict(kind='real', dim=dim, potential=name, gap=1e-3, feature=1e-3, given=dict(given, xtol=-1., ftol=-1.))
    # all orderings after many evaluations
    for dim in (1, 2, 3):
        for warm in (120, ) + ((50, 230, 600) if big else ()):
            for off in range(2):
                yield dict(kind='tree', dim=dim, simplex=0, first=list(range(dim + 1))[::-1], warm=warm + off, opts=dict(xtol=-1., ftol=-1., maxfev=warm + off + 6, maxiter=5000), bound=3 if big and warm < 200 else 2)
    # long ones, with and without equal values
    for dim in (1, 2, 3):
        for name in ('stairs', 'far', 'cone', 'twist'):
            for given in (dict(maxiter=130), dict(maxiter=700), dict(maxfev=450)) + ((dict(maxiter=3000), ) if big else ()):
                yield dict(kind='real', dim=dim, potential=name, gap=1e-3, feature=1e-3, given=dict(given, xtol=-1., ftol=-1.))


def _norm(x, center):
    return float(np.linalg.norm(np.array(x) - center))


POTENTIALS = {
    'cone': lambda x: _norm(x, 0.3),
    'parabola': lambda x: _norm(x, 0.71)**2,
    'valley': lambda x: abs(float(np.sum(x)) - 0.7) + 0.1 * _norm(x, 0.2),
    'offset': lambda x: _norm(x, 0.4) + 0.5,
    'wave': lambda x: 1.5 + float(np.sum(np.sin(7 * np.array(x)))) / len(x),
    'steps': lambda x: float(np.floor(10 * _norm(x, 0.5))),
}
MORE = {
    'stairs': lambda x: float(np.floor(3 * sum(v * w for v, w in zip(x, (1., 0.7, 0.3))))),
    'far': lambda x: _norm(np.array(x) - [1e5, -3e4, 2e4][:len(x)], 0.),
    'twist': lambda x: abs(x[0]) + 100 * float(np.sum((np.array(x[1:]) - x[0]**2)**2)),
    'slope': lambda x: 1e6 - sum(v * w for v, w in zip(x, (1., 0.7, 0.3))),
}


def run(case, stats):
    stats.sample(case, limit=2)
    if case['kind'] == 'real':
        return run_real(case, stats)
    explore_case(case, lambda chooser: run_one(case, stats, chooser), stats, bound=case['bound'])


class Adversary:
    """A potential which explores all relevant orders of values."""
    def __init__(self, chooser, tracker, simplex, first, shift=0., infinite=False, warm=0):
        self.chooser = chooser
        self.tracker = tracker
        self.values = {}
        self.infinite = infinite
        self.warm = warm  # number of evaluations which just descend
        self.num = len(simplex)
        for pos, val in zip(simplex, first):
            self.values[self.key(pos)] = float(val) + shift

    @staticmethod
    def key(pos):
        return tuple(round(float(x) * 1e8) for x in pos)

    def value(self, pos):
        key = self.key(pos)
        if key not in self.values:
            self.num += 1
            if self.num < self.warm:
                self.values[key] = -float(self.num)
                return self.values[key]
            self.values[key] = self.chooser.pick(self.options(pos), 'value')
        return self.values[key]

    def marks(self):
        """The values which matter for what happens next."""
        marks = set()
        for state in self.tracker.any_open():
            sim = [v for _, v in state.simplex]
            if state.phase == 'reflect':
                marks |= {sim[0], sim[-2], sim[-1]}
            elif state.phase in ('expand', 'outside'):
                marks |= {state.fxr}
            elif state.phase == 'inside':
                marks |= {sim[-1]}
            elif state.phase == 'shrink':
                marks |= {sim[0]} | {v for _, v in state.got}
        return marks

    def options(self, pos):
        marks = sorted(m for m in self.marks() if m != INF) or [0.]
        res = []
        for a, b in zip(marks, marks[1:]):
            res.append((a + b) / 2)
        res += [marks[0] - 1., marks[-1] + 1.] + marks
        if self.infinite:
            res.append(INF)
        # the first one does not count as a deviation
        return res


def execute(case, potential, opts, world, simplex, **kwargs):
    dim = len(simplex[0])
    state = make_state([[-8., 8.]] * dim, False, 100., simplices=[simplex])
    args = dict(limits=[[-8., 8.]] * dim, periodic=False, initial_state=state, feature_size=300., gap_threshold=0.5,
                refinement_stencil=None, nelder_mead_kwargs=opts, num_minimize_parallel=1)
    args.update(kwargs)
    result = run_plain(lambda: search.run_async(potential, **args), world)
    require(len(result.minimization_results) == 1, '{} results for one starting simplex'.format(len(result.minimization_results)))
    return result.minimization_results[0]


def compare(res, tracker, keep_history, log):
    """Compare a result with the finished states of the reference machine."""
    finished = tracker.finished()
    require(
        finished, 'the minimization stops although it should go on', found=vars(res), log=log,
        expected=[(s.phase, s.pending, s.num_fev, s.num_iter) for s in tracker.any_open()][:5]
    )
    problems = []
    for state in finished:
        problem = difference(res, state, keep_history, tracker.scale)
        if problem is None:
            return state
        problems.append(problem)
    raise Violation('wrong result: ' + problems[0], found=vars(res), log=log)


def difference(res, state, keep_history, scale):
    if int(res.status) != state.status:
        return 'status {} instead of {}'.format(res.status, state.status)
    if bool(res.success) != (state.status == 0):
        return 'success {} with status {}'.format(res.success, state.status)
    if MESSAGES[state.status] not in res.message or any(m in res.message for k, m in MESSAGES.items() if k != state.status):
        return 'message {!r} with status {}'.format(res.message, state.status)
    if int(res.num_iter) != state.num_iter:
        return '{} iterations instead of {}'.format(res.num_iter, state.num_iter)
    if int(res.num_fev) != state.num_fev:
        return '{} evaluations instead of {}'.format(res.num_fev, state.num_fev)
    if float(res.value) != state.simplex[0][1]:
        return 'value {} instead of {}'.format(res.value, state.simplex[0][1])
    tol = 1e-9 * max(scale, float(np.max(np.abs(res.simplex_history))))
    if not np.allclose(res.pos, state.simplex[0][0], rtol=0, atol=tol):
        return 'position {} instead of {}'.format(res.pos, state.simplex[0][0])
    history = state.history if keep_history else state.history[-1:]
    problem = history_difference(res, history, keep_history, tol)
    if problem is not None:
        return problem
    if keep_history:
        pass
    elif hasattr(res, 'fun_simplex_history') and len(res.fun_simplex_history) > 1:
        return 'history of function values although it is switched off'
    return None


def history_difference(res, history, with_values, tol):
    """Compare the history; the order of vertices with equal values is left open."""
    want = np.array([[p for p, _ in sim] for sim in history])
    if np.shape(res.simplex_history) != want.shape:
        return 'simplex history of shape {} instead of {}'.format(np.shape(res.simplex_history), want.shape)
    values = [[v for _, v in sim] for sim in history]
    if with_values and not np.array_equal(res.fun_simplex_history, values):
        return 'wrong function values in the history'
    if np.allclose(res.simplex_history, want, rtol=0, atol=tol):
        return None
    for i, (found, sim) in enumerate(zip(np.asarray(res.simplex_history).tolist(), history)):
        for _, group in itertools.groupby(sim, key=lambda pv: pv[1]):
            group = [p for p, _ in group]
            part, found = found[:len(group)], found[len(group):]
            for p in group:
                match = [q for q in part if np.allclose(p, q, rtol=0, atol=tol)]
                if not match:
                    return 'wrong simplex in the history (entry {})'.format(i)
                part.remove(match[0])
    return None


def run_one(case, stats, chooser):
    dim = case['dim']
    simplex = SIMPLICES[dim][case['simplex']]
    opts = dict(case['opts'])
    keep_history = opts.get('keep_history', True)
    options = Options(dim, **{k: v for k, v in opts.items() if k != 'keep_history'})
    tracker = Tracker(options, simplex)
    world = PlainWorld()
    adversary = Adversary(chooser, tracker, simplex, case['first'], case.get('shift', 0.), case.get('infinite', False), case.get('warm', 0))
    failure = []

    def potential(x):
        world.activity += 1
        pos = tuple(float(v) for v in x)
        value = adversary.value(pos)
        stats.transition()
        if not tracker.feed(pos, value) and not failure:
            failure.append(Violation('evaluates {}, which the method does not propose'.format(pos), log=list(tracker.log), expected=tracker.expected[:5]))
        if failure:
            raise failure[0]
        for state in tracker.states:
            stats.state((case['dim'], state.simplex, state.phase, state.pending, state.fxr, state.status, state.num_iter, state.num_fev))
        return value

    try:
        res = execute(case, potential, opts, world, simplex)
    except Exception:  # pylint: disable=broad-except
        if failure:
            raise failure[0]
        raise
    stats.trace()
    state = compare(res, tracker, keep_history, tracker.log)
    stats.outcome((state.status, state.num_iter, state.num_fev))


def run_real(case, stats):
    dim = case['dim']
    function = POTENTIALS.get(case['potential']) or MORE[case['potential']]
    given = {k: v for k, v in case['given'].items()}
    options = dict(xtol=0.03 * case['feature'] / 3, ftol=0.05 * case['gap'])
    options.update(given)
    simplex = [[0.] * dim] + [[0.5 if i == j else 0. for j in range(dim)] for i in range(dim)]
    tracker = Tracker(Options(dim, **options), simplex, scale=None)
    world = PlainWorld()
    log = []

    def potential(x):
        world.activity += 1
        pos = tuple(float(v) for v in x)
        value = function(pos)
        log.append((pos, value))
        return value

    result = run_plain(lambda: search.run_async(
        potential, limits=[(0, 1)] * dim, periodic=False, initial_mesh_size=1, refinement_stencil=None, gap_threshold=case['gap'],
        feature_size=case['feature'], nelder_mead_kwargs=given
    ), world)
    stats.trace()
    stats.transition(len(log))
    require(len(result.minimization_results) == 1, 'not one result')
    for i, (pos, value) in enumerate(log):
        # only the last states are needed, not the whole history
        if not tracker.feed(pos, value):
            raise Violation('evaluation {} at {}, which the method does not propose'.format(i, pos), expected=tracker.expected[:3])
        for state in tracker.states:
            stats.state((case['potential'], dim, state.simplex, state.phase, state.status))
    state = compare(result.minimization_results[0], tracker, True, log[-10:])
    stats.outcome((state.status, state.num_iter, state.num_fev))


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 40, 'vacuous exploration'
    assert len(stats.sets['states']) > 1000
