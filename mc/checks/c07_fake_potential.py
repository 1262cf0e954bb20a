"""
C07: two-stage minimization with the fake potential, in lockstep with a reference:
the Nelder-Mead machine on the potential plus infinity close to known nodes, then
on the true potential, from the enlarged final simplex.

'tree': an adversarial potential explores the decisions of both stages, with
known nodes in relevant places. 'chain': two minimizations one after the other,
where the second one has to avoid what the first one found. 'orders': two
minimizations at once, all orders of completion; nodes become known while the
other one is running. 'real': default tolerances.
"""
import itertools
import math

import numpy as np

from nodefinder import search

from ..aio import run_plain, PlainWorld
from ..core import explore_case, require, Violation
from ..impl import make_state
from ..nm import Options, Tracker, comb, start, feed, INF
from ..search_world import Box
from .c05_truth import OrderWorld, SHIFT, region, FUNCTIONS
from .c06_nelder_mead import Adversary, MESSAGES, history_difference, _norm

ID = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of the decision tree of two-stage minimizations (adversarial potential, placement of known nodes, orders of completion) on the real search, in lockstep with a two-stage nondeterministic reference machine'
RULE = ('A state is a state of the two-stage reference machine (stage, simplex with values, phase, counts); a transition is one evaluation by the real search. '
        'Every execution is one real search and its results are compared with the final states of the machine.')
BOUNDS = {
    'quick': 'dimensions 1-2, up to 3 deviations from the first outcome in both stages together, 10 placements of known nodes (up to 42), open and periodic boxes, iteration / evaluation limits and tolerances; 2 consecutive or concurrent minimizations',
    'thorough': 'dimensions 1-3, up to 4 deviations, all initial orders of values, more placements, longer stages and larger limits',
}
ASSUMPTIONS = [
    'a node which becomes known while an evaluation is in progress may or may not count for that evaluation',
    'points are compared with relative tolerance 1e-9; where values are equal, any order of the vertices is accepted',
]
CASE_LIMIT = 400.

SIMPLICES = {
    1: [[0.], [1.]],
    2: [[0., 0.], [1., 0.], [0., 1.]],
    3: [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
}


def placements(dim, big):
    """Known nodes (in the open box) with their cutoff."""
    pad = [0.] * (dim - 1)
    res = [
        ([], 1.),
        ([[0.] + pad], 0.25),  # exactly at a vertex
        ([[0.] + pad], 1.),  # the others are exactly at the cutoff distance
        ([[0.] + pad], 1.25),  # all vertices are inside
        ([[0.5] + pad], 0.25),  # at a contraction
        ([[-1.] + pad], 0.5),  # at a reflection
        ([[2.] + pad, [-1.] + pad], 0.75),
    ]
    # many nodes, of which only the first / last ones are relevant
    crowd = [[-2. - i / 32] + [0.5] * (dim - 1) for i in range(40)]
    res += [(crowd + [[0.5] + pad], 0.5), ([[-1.] + pad, [0.5] + pad] + crowd, 0.5)]
    if dim > 1:
        res += [([[1.] * dim], 0.5), ([[0.5] * dim], 0.5)]
    if big:
        res += [([[1.] + pad], 0.25), ([[0.75] + pad], 0.5), ([[3.] + pad, [-2.] + pad], 1.), ([[0.25] + pad, [0.75] + pad], 0.125)]
    return res


def cases(tier):
    big = tier == 'thorough'
    for dim in (1, 2) + ((3, ) if big else ()):
        firsts = [list(range(dim + 1)), list(range(dim, -1, -1))] + ([[0] * (dim + 1)] if big or dim == 1 else [])
        for first in firsts:
            for nodes, cutoff in placements(dim, big):
                for periodic in (False, True):
                    for opts in (dict(xtol=-1., ftol=-1., maxiter=3), dict(xtol=0.5, ftol=1., maxiter=4 if big else 3), dict(xtol=-1., ftol=-1., maxfev=4 + dim),
                                 dict(xtol=2., ftol=INF, maxiter=2, fprime_cutoff=1.5)) + ((dict(xtol=-1., ftol=-1., maxiter=2, keep_history=False), ) if not nodes or big and dim < 3 else ()):
                        bound = {1: 3, 2: 2, 3: 1}[dim] + (1 if big and (dim == 1 or len(nodes) == 1 and first[0] and not periodic or dim == 2 and first[0] == 0 and 'maxfev' not in opts and periodic) else 0)
                        if not big and (dim == 2 and (periodic or len(nodes) == 1 and first[0]) or 'maxfev' in opts or dim == 1 and periodic == bool(first[0])):
                            bound -= 1
                        yield dict(kind='tree', dim=dim, first=first, nodes=nodes, cutoff=cutoff, periodic=periodic, opts=opts, bound=bound)
    # nodes from a previous minimization
    for dim in (1, 2):
        for cutoff in (0.5, 1.25) + ((0.125, 2.5) if big else ()):
            for periodic in (False, True):
                for opts in (dict(xtol=1., ftol=0.5, maxiter=3), dict(xtol=4., ftol=4., maxiter=3)):
                    yield dict(kind='chain', dim=dim, cutoff=cutoff, periodic=periodic, opts=opts, bound=2 if not big or dim == 2 and not periodic else 3)
    # concurrent minimizations
    for fun in ('parabola', 'steps', 'ragged', 'descent'):
        for cutoff in (1500., ) + ((100., 900.) if big else ()):
            yield dict(kind='orders', fun=fun, cutoff=cutoff, opts=dict(xtol=4., ftol=100., maxfev=3), bound=None if big else 4)
        yield dict(kind='orders', fun=fun, cutoff=1500., opts=dict(xtol=-1., ftol=-1., maxfev=3), bound=4 if big else 2)
    # default tolerances
    for dim in (1, 2, 3):
        for name in REAL:
            for gap in (1e-2, 0.3) + ((1e-4, 3.) if big else ()):
                for cutoff in (0.1, 0.02) + ((0.3, 5e-3) if big else ()):
                    for periodic in (True, False):
                        for nodes in (0, 1, 2):
                            yield dict(kind='real', dim=dim, potential=name, gap=gap, cutoff=cutoff, periodic=periodic, nodes=nodes)


REAL = {
    'cone': lambda x: _norm(x, 0.3),
    'valley': lambda x: abs(float(np.sum(x)) - 0.7) + 0.1 * _norm(x, 0.2),
    'offset': lambda x: _norm(x, 0.4)**2 + 0.05,
}


class Stage:
    """One possible state of a two-stage minimization."""
    __slots__ = ('opts', 'first', 'second')

    def __init__(self, opts, first, second=None):
        self.opts = opts
        self.first = first
        self.second = second

    @property
    def done(self):
        return self.second is not None and self.second.done

    @property
    def current(self):
        return self.first if self.second is None else self.second

    def key(self):
        return (self.first.key(), None if self.second is None else self.second.key(), None if self.second is None else start_key(self.second))


def start_key(state):
    return state.pending if state.phase == 'initial' else None


class TwoStage:
    """Follows a two-stage minimization: the set of possible states."""
    def __init__(self, dim, opts, simplex, box, cutoff):
        opts = {k: v for k, v in opts.items() if k != 'keep_history'}
        self.opt1 = Options(dim, **dict(opts, ftol=INF))
        self.opt2 = Options(dim, **opts)
        self.box = box
        self.cutoff = cutoff
        self.scale = max([1.] + [abs(x) for p in simplex for x in p])
        self.states = [Stage(opts, start(self.opt1, simplex))]
        self.expected = None

    def near(self, pos, nodes):
        return any(self.box.distance(pos, n) < self.cutoff for n in nodes)

    def feed(self, pos, value, *node_sets):
        """A value becomes known; with one of the given sets of known nodes."""
        new = {}
        for state in self.states:
            if state.second is not None:
                follow = [Stage(state.opts, state.first, s) for s in feed(state.second, pos, value, self.scale)]
            else:
                follow = []
                for fake in sorted({INF if self.near(pos, nodes) else 0. for nodes in node_sets}):
                    for s in feed(state.first, pos, value + fake, self.scale):
                        if s.done:
                            best = s.simplex[0][0]
                            blown = tuple(comb((-.5, best), (1.5, p)) for p, _ in s.simplex)
                            follow.append(Stage(state.opts, s, start(self.opt2, blown)))
                        else:
                            follow.append(Stage(state.opts, s))
            for s in follow:
                new[s.key()] = s
        self.expected = [(s.second is not None, s.current.phase, s.current.pending, s.current.status) for s in self.states]
        self.states = list(new.values())
        return bool(self.states)

    # interface for the adversary
    def any_open(self):
        return [s.current for s in self.states if not s.current.done]


def compare(res, machine, keep_history, normalize, log):
    done = [s for s in machine.states if s.done]
    require(done, 'the minimization stops although it should go on', log=log, expected=machine.expected, status=res.status)
    problems = []
    for state in done:
        problem = difference(res, state, keep_history, normalize, machine.scale)
        if problem is None:
            return state
        problems.append(problem)
    raise Violation('wrong result: ' + problems[0], log=log)


def difference(res, state, keep_history, normalize, scale):
    s1, s2 = state.first, state.second
    checks = (
        ('status', int(res.status), s2.status), ('success', bool(res.success), s2.status == 0),
        ('num_iter', int(res.num_iter), s1.num_iter + s2.num_iter),
        ('num_fev', int(res.num_fev), s1.num_fev + s2.num_fev), ('value', float(res.value), s2.simplex[0][1])
    )
    for name, found, want in checks:
        if found != want:
            return '{} {} instead of {}'.format(name, found, want)
    if MESSAGES[s2.status] not in res.message:
        return 'message {!r} with status {}'.format(res.message, s2.status)
    tol = 1e-9 * max(scale, float(np.max(np.abs(res.simplex_history))))
    want_pos = normalize(s2.simplex[0][0])
    if not np.allclose(res.pos, want_pos, rtol=0, atol=tol):
        return 'position {} instead of {}'.format(res.pos, want_pos)
    if keep_history:
        return history_difference(res, s1.history + s2.history, True, tol)
    return history_difference(res, s1.history[-1:] + s2.history[-1:], False, tol)


def check_node(result, res, gap):
    node = any(res is n for n in result.nodes)
    rejected = any(res is n for n in result.rejected_results)
    good = bool(res.success) and float(res.value) <= gap
    require(node == good and rejected != good, 'a result with success {} and value {} is listed as {}'.format(res.success, res.value, 'node' if node else 'rejected'))


def search_args(case, box_limits, simplices, nodes, **kwargs):
    dim = len(box_limits)
    state = make_state(box_limits, case['periodic'], case['cutoff'], nodes=nodes, simplices=simplices)
    args = dict(
        limits=box_limits, periodic=case['periodic'], initial_state=state, feature_size=3 * case['cutoff'], gap_threshold=0.5,
        refinement_stencil=None, nelder_mead_kwargs=case['opts'], num_minimize_parallel=1, use_fake_potential=True,
        simplex_check_cutoff=dim + 1
    )
    args.update(kwargs)
    return args


def normalizer(box):
    return box.normalize


def run(case, stats):
    stats.sample(case, limit=2)
    if case['kind'] == 'real':
        return run_real(case, stats)
    one = {'tree': run_tree, 'chain': run_chain, 'orders': run_orders}[case['kind']]
    explore_case(case, lambda chooser: one(case, stats, chooser), stats, bound=case.get('bound'))


def note(stats, case, machine):
    for s in machine.states:
        stats.state((case['dim'] if 'dim' in case else 1, s.second is not None, s.current.simplex, s.current.phase, s.current.pending, s.current.fxr, s.current.status, s.current.num_iter, s.current.num_fev))


def run_tree(case, stats, chooser):
    dim = case['dim']
    simplex = SIMPLICES[dim]
    # the periodic box is small enough for images to matter, its size no multiple of anything
    limits = [[-1.6875, 2.]] + [[-8., 8.]] * (dim - 1) if case['periodic'] else [[-8., 8.]] * dim
    box = Box(limits, case['periodic'])
    if case['periodic'] and case['cutoff'] > 1.:
        limits[0] = [-2.6875, 2.]
        box = Box(limits, True)
    nodes = [box.normalize(n) for n in case['nodes']]
    machine = TwoStage(dim, case['opts'], simplex, box, case['cutoff'])
    adversary = Adversary(chooser, machine, simplex, case['first'])
    world = PlainWorld()
    log = []
    failure = []

    def potential(x):
        world.activity += 1
        pos = tuple(float(v) for v in x)
        value = adversary.value(pos)
        log.append((pos, value))
        stats.transition()
        if not failure and not machine.feed(pos, value, nodes):
            failure.append(Violation('evaluates {}, which the method does not propose'.format(pos), log=log, expected=machine.expected[:5]))
        if failure:
            raise failure[0]
        note(stats, case, machine)
        return value

    try:
        result = run_plain(lambda: search.run_async(potential, **search_args(case, limits, [simplex], case['nodes'])), world)
    except Exception:  # pylint: disable=broad-except
        if failure:
            raise failure[0]
        raise
    results = [r for r in result.minimization_results if r.message != 'ok']
    require(len(results) == 1 and len(result.minimization_results) == 1 + len(nodes), '{} results for one starting simplex'.format(len(results)))
    stats.trace()
    state = compare(results[0], machine, case['opts'].get('keep_history', True), box.normalize, log)
    check_node(result, results[0], 0.5)
    stats.outcome((state.first.status, state.second.status, state.first.num_fev, state.second.num_fev))


def run_chain(case, stats, chooser):
    dim = case['dim']
    near = SIMPLICES[dim]
    far = [[p[0] + 0.25] + [x + 0.25 for x in p[1:]] for p in near]
    limits = [[-1.6875, 4.]] + [[-8., 8.]] * (dim - 1)
    box = Box(limits, case['periodic'])
    simplices = [near, far]
    starts = [sorted(tuple(float(x) for x in p) for p in s) for s in simplices]
    nodes = []
    world = PlainWorld()
    current = []
    log = []
    failure = []
    finished = []

    def fail(message, **detail):
        failure.append(Violation(message, log=log, **detail))
        raise failure[0]

    def close_current():
        """The running minimization is complete: what is known now?"""
        machine, _, mine, start_simplex = current[0]
        done = [s for s in machine.states if s.done]
        if not done:
            fail('a new minimization starts before the previous one is complete')
        finished.append((machine, start_simplex, list(mine)))
        found = {box.normalize(s.second.simplex[0][0]) for s in done if s.second.status == 0 and s.second.simplex[0][1] <= 0.5}
        missed = any(s.second.status != 0 or s.second.simplex[0][1] > 0.5 for s in done)
        current.clear()
        return [[n] for n in sorted(found)] + ([[]] if missed else [])

    options = [[]]

    def potential(x):
        nonlocal options
        world.activity += 1
        pos = tuple(float(v) for v in x)
        if current and all(s.done for s in current[0][0].states):
            options = close_current()
        if not current:
            which = [i for i, s in enumerate(starts) if pos in s and all(s != f[1] for f in finished)]
            if not which:
                fail('evaluates {}, which belongs to no starting simplex'.format(pos))
            simplex = starts[which[0]]
            machine = TwoStage(dim, case['opts'], simplices[which[0]], box, case['cutoff'])
            # the values of the starting simplex are chosen as well
            first = []
            for i in range(dim + 1):
                first.append(float(chooser.pick([i, 0.25 - i, 2. + i][:3 if dim == 1 else 2], 'start')))
            adversary = Adversary(chooser, machine, simplex, first)
            adversary.values.update(memory)
            memory.update(adversary.values)
            adversary.values = memory
            current.append((machine, adversary, [], simplex))
        machine, adversary, mine, _ = current[0]
        value = adversary.value(pos)
        mine.append((pos, value))
        log.append((pos, value))
        stats.transition()
        if not machine.feed(pos, value, *options):
            fail('evaluates {}, which the method does not propose'.format(pos), expected=machine.expected[:5], nodes=options)
        note(stats, case, machine)
        return value

    memory = {}
    try:
        result = run_plain(lambda: search.run_async(potential, **search_args(case, limits, simplices, [])), world)
    except Exception:  # pylint: disable=broad-except
        if failure:
            raise failure[0]
        raise
    if current:
        close_current()
    stats.trace()
    require(len(finished) == 2 and len(result.minimization_results) == 2, '{} results for 2 starting simplices'.format(len(result.minimization_results)))
    results = list(result.minimization_results)
    for machine, simplex, mine in finished:
        match = [r for r in results if sorted(tuple(float(x) for x in p) for p in r.simplex_history[0]) == simplex]
        require(match, 'no result for a starting simplex')
        state = compare(match[0], machine, True, box.normalize, mine)
        check_node(result, match[0], 0.5)
        stats.outcome((state.first.status, state.second.status, state.first.num_fev, state.second.num_fev))


class NodeOrderWorld(OrderWorld):
    """Two concurrent minimizations with one machine each."""
    def __init__(self, chooser, function, machines, stats, case):
        super().__init__(chooser, function)
        self.machines = machines
        self.stats = stats
        self.case = case
        self.nodes_at_call = {}
        self.result = None
        self.failure = None

    def known(self):
        """The positions which are surely / possibly known as nodes."""
        res = []
        for machine in self.machines:
            done = [s for s in machine.states if s.done]
            if done and len(done) == len(machine.states):
                for s in done:
                    if s.second.status == 0 and s.second.simplex[0][1] <= 0.5:
                        res.append(machine.box.normalize(s.second.simplex[0][0]))
                        break
        return res

    async def potential(self, x):
        pos = tuple(float(v) for v in x)
        before = self.known()
        value = await super().potential(x)
        machine = self.machines[region(pos)]
        self.stats.transition()
        if not machine.feed(pos, value, before, self.known()):
            self.failure = Violation('evaluates {}, which the method does not propose'.format(pos), calls=self.calls, expected=machine.expected[:5])
            raise self.failure
        note(self.stats, self.case, machine)
        return value


def run_orders(case, stats, chooser):
    base = FUNCTIONS[case['fun']]
    limits = [[-3000., 5000.]]
    box = Box(limits, False)
    simplices = [[[0. + SHIFT * r], [1. + SHIFT * r]] for r in range(2)]
    full = dict(case, periodic=False)
    machines = [TwoStage(1, case['opts'], s, box, case['cutoff']) for s in simplices]

    def function(pos):
        r = region(pos)
        return base((pos[0] - SHIFT * r, )) / 16 + r / 8

    world = NodeOrderWorld(chooser, function, machines, stats, case)
    try:
        result = run_plain(lambda: search.run_async(world.potential, **search_args(full, limits, simplices, [], num_minimize_parallel=2)), world)
    except Exception:  # pylint: disable=broad-except
        if world.failure is not None:
            raise world.failure
        raise
    stats.trace()
    require(len(result.minimization_results) == 2, '{} results for 2 starting simplices'.format(len(result.minimization_results)))
    regions = []
    for res in result.minimization_results:
        mine = region(res.simplex_history[0][0])
        regions.append(mine)
        state = compare(res, machines[mine], True, box.normalize, world.calls)
        check_node(result, res, 0.5)
        stats.outcome((state.first.status, state.second.status, state.first.num_fev, state.second.num_fev))
    require(sorted(regions) == [0, 1], 'two results for one starting simplex')


def run_real(case, stats):
    dim = case['dim']
    limits = [[0., 1.]] * dim
    box = Box(limits, case['periodic'])
    nodes = [[0.3] * dim, [0.97] * dim][:case['nodes']]
    simplex = [[0.] * dim] + [[0.25 if i == j else 0. for j in range(dim)] for i in range(dim)]
    options = dict(xtol=0.03 * (3 * case['cutoff'] / 3), ftol=0.05 * case['gap'])
    opts = {}
    if all(any(box.distance(p, n) < case['cutoff'] for n in nodes) for p in simplex):
        # such a minimization may stay in the infinite region, and shrinks below the tolerance of the comparison
        opts = dict(maxiter=20)
        options.update(opts)
    machine = TwoStage(dim, options, simplex, box, case['cutoff'])
    base = REAL[case['potential']]
    world = PlainWorld()
    log = []

    def potential(x):
        world.activity += 1
        pos = tuple(float(v) for v in x)
        value = base(pos)
        log.append((pos, value))
        return value

    result = run_plain(lambda: search.run_async(potential, **search_args(dict(case, opts=opts), limits, [simplex], nodes, gap_threshold=case['gap'])), world)
    stats.trace()
    results = [r for r in result.minimization_results if r.message != 'ok']
    require(len(results) == 1 and len(result.minimization_results) == 1 + len(nodes), 'not one result')
    for i, (pos, value) in enumerate(log):
        stats.transition()
        require(machine.feed(pos, value, nodes), 'evaluation {} at {}, which the method does not propose'.format(i, pos), expected=machine.expected[:3] if machine.expected else None)
    note(stats, case, machine)
    state = compare(results[0], machine, True, box.normalize, log[-10:])
    check_node(result, results[0], case['gap'])
    stats.outcome((state.first.status, state.second.status, state.first.num_fev, state.second.num_fev))


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 40, 'vacuous exploration'
    assert len(stats.sets['states']) > 1000
