"""
C05: the reported results against a log of all evaluations.

'orders': several minimizations at the same time, with every order in which their
evaluations can complete. 'real': complete searches (with refinement, periodic
and open boxes) on a grid of configurations, evaluated sequentially. 'values':
all assignments of values to the evaluated points within a bound.
"""
import itertools
import math

import numpy as np

from nodefinder import search

from ..aio import run_plain, PlainWorld
from ..core import explore_case, require, digest, Violation
from ..compare import canon_min_result, first_difference
from ..impl import make_state

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive exploration of all completion orders of the evaluations (controlled event loop) and of all small value assignments, results checked against the log of evaluations'
RULE = ('A history is nontrivial if it differs in the order of completions, the values or the configuration; each one is a complete real search, whose results are compared with the log of all calls of the potential.')
BOUNDS = {
    'quick': 'all completion orders of 2-3 concurrent minimizations with 3-6 evaluations each (dimensions 1, 2); all values out of 4 for up to 6 evaluations, on simplices of size 2^-30, 1, and 2^30; 5 potentials x boxes x stencils x kinds of potential for complete searches',
    'thorough': 'up to 7 evaluations each and 3 minimizations, more with up to 5 deviations from the first order; all values out of 5 for up to 7 evaluations; more potentials, dimension 3',
}
ASSUMPTIONS = [
    'evaluations are attributed to the start simplex which is closest (orders) or by their sequence (one minimization at a time)',
    'the potential is a deterministic function of the position and, in periodic boxes, periodic',
]
CASE_LIMIT = 200.


def cases(tier):
    big = tier == 'thorough'
    # completion orders; each minimization has its own region
    for fun in FUNCTIONS:
        for first in (0, 1):
            for maxiter in (1, 2) + ((3, ) if (fun, first) == ('parabola', 0) or big else ()):
                yield dict(kind='orders', dim=1, num=2, parallel=2, fun=fun, shape=first, opts=dict(xtol=-1., ftol=-1., maxiter=maxiter), ints=False, slow=fun == 'descent')
            if big or (fun, first) == ('descent', 1):
                yield dict(kind='orders', dim=1, num=2, parallel=2, fun=fun, shape=first, opts=dict(xtol=.3, ftol=.5, maxfev=5), ints=first == 0)
        if big or fun == 'steps':
            yield dict(kind='orders', dim=1, num=3, parallel=3, fun=fun, shape=0, opts=dict(xtol=-1., ftol=-1., maxiter=1), ints=False)
        if big or fun == 'parabola':
            yield dict(kind='orders', dim=1, num=3, parallel=2, fun=fun, shape=1, opts=dict(xtol=-1., ftol=-1., maxfev=2), ints=False)
        yield dict(kind='orders', dim=2, num=2, parallel=2, fun=fun, shape=0, opts=dict(xtol=-1., ftol=-1., maxiter=1), ints=fun == 'ragged')
        if big:
            yield dict(kind='orders', dim=1, num=3, parallel=2, fun=fun, shape=1, opts=dict(xtol=-1., ftol=-1., maxfev=3), ints=False)
            yield dict(kind='orders', dim=2, num=2, parallel=2, fun=fun, shape=1, opts=dict(xtol=-1., ftol=-1., maxfev=4, keep_history=fun != 'steps'), ints=False)
    # long minimizations, and many of them
    for fun in ('parabola', 'steps', 'ragged'):
        for dim in (1, 2):
            for steps in (150, 700) + ((5000, ) if big else ()):
                yield dict(kind='long', dim=dim, num=2, parallel=2, fun=fun, shape=1, opts=dict(xtol=-1., ftol=-1., maxiter=steps, maxfev=100000), ints=False)
        for num in (70, 300, 1200):
            yield dict(kind='long', dim=1, num=num, parallel=num // 2, fun=fun, shape=0, opts=dict(xtol=-1., ftol=-1., maxiter=3), ints=False)
    # all values
    for dim, count in ((1, 6), (2, 6)) + (((1, 8), (2, 7), (3, 7)) if big else ()):
        for first in range(4):
            for second in range(4):
                yield dict(kind='values', dim=dim, first=[first, second], opts=dict(xtol=-1., ftol=-1., maxfev=count), choices=(4 if dim == 1 else 3) if count < 8 else 3, ints=second == 0, scale=[0, 0, 30, -30][second])
    # complete searches
    for name in POTENTIALS:
        for dim in (1, 2) + ((3, ) if big else ()):
            for periodic in (True, False):
                for stencil in (None, 'auto', 'mesh') if dim != 3 or big else (None, 'auto'):
                    for how in ('sync', 'async', 'object') if dim < 3 else ('sync', ):
                        for start in ('mesh', 'state'):
                            if dim == 1 and stencil == 'mesh' and how != 'sync':
                                continue
                            if not periodic and stencil and name in ('sheet', 'flat'):
                                continue  # refinement leads out of the box
                            if name == 'flat' and how != 'sync':
                                continue
                            yield dict(kind='real', potential=name, dim=dim, periodic=periodic, stencil=stencil, how=how, start=start)


def _hash(pos, num, salt=''):
    return digest('{}{}'.format(salt, [round(float(x) * 1e6) for x in pos])) % num


FUNCTIONS = {
    'parabola': lambda x: sum((v - 0.3)**2 for v in x),
    'steps': lambda x: float(math.floor(2 * sum(abs(v - 0.8) for v in x))),
    'ragged': lambda x: float(_hash(x, 5)),
    'descent': lambda x: -sum(x),
}


def run(case, stats):
    stats.sample(case, limit=2)
    if case['kind'] == 'real':
        return run_real(case, stats)
    if case['kind'] == 'values':
        return explore_case(case, lambda chooser: run_values(case, stats, chooser), stats)
    reference = run_orders(case, stats, None)
    if case['kind'] == 'long':
        stats.nontrivial(case)
        return None
    explore_case(case, lambda chooser: run_orders(case, stats, chooser, reference), stats, bound=case.get('bound'))


SHAPES = {
    (1, 0): [[0.], [1.]],
    (1, 1): [[0.5], [-0.25]],
    (2, 0): [[0., 0.], [1., 0.], [0., 1.]],
    (2, 1): [[0.5, 0.25], [-1., 0.5], [0.25, 2.]],
}
SHIFT = 1000.


class OrderWorld(PlainWorld):
    """Completes one evaluation at a time, in any order."""
    def __init__(self, chooser, function, slow=False):
        super().__init__()
        self.slow = slow  # evaluations take hours
        self.waited = False
        self.chooser = chooser
        self.function = function
        self.pending = []
        self.calls = []

    async def potential(self, x):
        self.activity += 1
        pos = tuple(float(v) for v in x)
        self.calls.append(pos)
        future = self.loop.create_future()
        self.pending.append((pos, future))
        return await future

    def decide(self):
        if not self.pending:
            return super().decide()
        if self.slow and not self.waited:
            self.waited = True
            self.activity += 1
            self.loop.vtime += 1e4
            return None
        self.waited = False
        # arrival order is not part of the choice
        order = sorted(range(len(self.pending)), key=lambda i: self.pending[i][0])
        if len(order) == 1:
            idx = 0
        else:
            idx = order[self.chooser.choose(len(order), 'complete one of {}'.format(len(order)))]
        pos, future = self.pending.pop(idx)
        self.activity += 1
        self.loop.SETTLE = 8
        future.set_result(self.function(pos))


def region(pos):
    return int(round(pos[0] / SHIFT))


def run_orders(case, stats, chooser, reference=None):
    dim = case['dim']
    shape = SHAPES[dim, case['shape']]
    base = FUNCTIONS[case['fun']]

    def function(pos):
        r = region(pos)
        return base((pos[0] - SHIFT * r, ) + tuple(pos[1:])) + 0.125 * r

    kind = int if case['ints'] and case['shape'] == 0 else float
    simplices = [[[kind(v + (SHIFT * r if i == 0 else 0)) for i, v in enumerate(p)] for p in shape] for r in range(case['num'])]
    limits = [[-100., 5000.]] + [[-100., 100.]] * (dim - 1)
    state = make_state(limits, False, 1e4, simplices=simplices)
    args = dict(limits=limits, periodic=False, initial_state=state, feature_size=3e4, gap_threshold=0.5, refinement_stencil=None,
                nelder_mead_kwargs=case['opts'], num_minimize_parallel=case['parallel'], simplex_check_cutoff=10)
    calls = []
    if chooser is None:
        world = PlainWorld()

        def potential(x):
            world.activity += 1
            pos = tuple(float(v) for v in x)
            calls.append(pos)
            return function(pos)
    else:
        world = OrderWorld(chooser, function, case.get('slow'))
        calls = world.calls
        potential = world.potential
    result = run_plain(lambda: search.run_async(potential, **args), world)
    results = result.minimization_results
    stats.evaluation()
    require(len(results) == case['num'], '{} results for {} starting simplices'.format(len(results), case['num']))
    forms = {}
    regions = {}
    for pos in calls:
        regions.setdefault(region(pos), []).append(pos)
    for res in results:
        mine = region(res.simplex_history[0][0])
        require(mine not in forms, 'two results for one starting simplex')
        log = regions.get(mine, [])
        check_result(res, log, [tuple(float(x) for x in p) for p in simplices[mine]], function, case['opts'].get('keep_history', True))
        forms[mine] = canon_min_result(res)
    if chooser is not None:
        stats.nontrivial((case, tuple(chooser.choices)))
        for key in forms:
            problem = first_difference(reference[key], forms[key])
            require(problem is None, 'result differs from that for the synchronous potential: {}'.format(problem), calls=calls)
    return forms


def check_result(res, log, simplex, function, keep_history=True, normalize=None, exact=True):
    """
    Check one result against its evaluations. ``normalize`` maps positions into
    a periodic box.
    """
    normalize = normalize or (lambda p: p)
    require(log, 'result without evaluations', found=vars(res))
    values = {p: function(p) for p in log}
    require(int(res.num_fev) == len(log), '{} evaluations reported, {} made'.format(res.num_fev, len(log)), found=vars(res), log=log)
    require(float(res.value) == min(values.values()), 'value {} is not the minimum {} of the values'.format(res.value, min(values.values())), found=vars(res), log=log)
    pos = tuple(float(x) for x in res.pos)
    at_pos = [p for p in values if normalize(p) == pos]
    require(at_pos, 'the reported position {} was never evaluated'.format(pos), log=log)
    require(
        any(values[p] == float(res.value) for p in at_pos),
        'value {} reported at a position where it is {}'.format(res.value, [values[p] for p in at_pos]), log=log
    )
    history = [[tuple(float(x) for x in p) for p in s] for s in np.asarray(res.simplex_history)]
    last = history[-1]
    require(any(p in at_pos for p in last), 'the last simplex does not contain the reported position', history=history, pos=pos)
    for sim in history:
        for p in sim:
            require(p in values, 'vertex {} in the history was never evaluated'.format(p), log=log)
    if keep_history:
        require(sorted(history[0]) == sorted(simplex), 'the history starts with {} instead of the starting simplex {}'.format(history[0], simplex))
        funs = np.asarray(res.fun_simplex_history)
        require(funs.shape == np.shape(res.simplex_history)[:2], 'histories of different length')
        for sim, vals in zip(history, funs.tolist()):
            for p, v in zip(sim, vals):
                require(values[p] == v, 'value {} recorded at vertex {}, where it is {}'.format(v, p, values[p]), history=history)


def run_values(case, stats, chooser):
    dim = case['dim']
    values = {}
    log = []
    world = PlainWorld()
    simplex = [[0] * dim] + [[int(i == j) for i in range(dim)] for j in range(dim)]
    if not case['ints']:
        simplex = [[(0.25 + x) * 2.**case['scale'] for x in p] for p in simplex]
    simplex_pos = sorted(tuple(float(x) for x in p) for p in simplex)

    def potential(x):
        world.activity += 1
        pos = tuple(float(v) for v in x)
        log.append(pos)
        if pos not in values:
            if pos in simplex_pos and simplex_pos.index(pos) < 2:
                choice = case['first'][simplex_pos.index(pos)]
            else:
                choice = chooser.choose(case['choices'], 'value', [0] * case['choices'])
            values[pos] = float((1, 0, 2, 0.3)[choice])
        return values[pos]

    limits = [[-50. * 2.**case['scale'], 50. * 2.**case['scale']]] * dim
    state = make_state(limits, False, 1e4 * 2.**case['scale'], simplices=[simplex])
    result = run_plain(lambda: search.run_async(
        potential, limits=limits, periodic=False, initial_state=state, feature_size=3e4 * 2.**case['scale'], gap_threshold=0.5, refinement_stencil=None,
        nelder_mead_kwargs=case['opts'], num_minimize_parallel=1
    ), world)
    stats.evaluation()
    require(len(result.minimization_results) == 1, 'not one result for one starting simplex')
    check_result(result.minimization_results[0], log, simplex_pos, values.__getitem__)
    require(len(log) >= min(case['opts']['maxfev'], dim + 2), 'stopped early')
    stats.nontrivial((case['dim'], case['first'], case['opts'], case['ints'], tuple(chooser.choices)))


# -- complete searches
def _torus(x, limits, center, periodic=True):
    """Distance, as a smooth function on the torus."""
    if not periodic:
        return math.dist(x, center)
    return math.sqrt(sum((math.sin(math.pi * (v - c) / (b - a)) * (b - a) / math.pi)**2 for v, c, (a, b) in zip(x, center, limits)))


POTENTIALS = {
    'point': lambda x, limits, per: _torus(x, limits, [a + 0.37 * (b - a) for a, b in limits], per),
    'two': lambda x, limits, per: min(_torus(x, limits, [a + 0.02 * (b - a) for a, b in limits], per), _torus(x, limits, [a + 0.61 * (b - a) for a, b in limits], per)),
    'sheet': lambda x, limits, per: abs(math.sin(math.pi * (x[0] - limits[0][0] - 0.21) / (limits[0][1] - limits[0][0]))),
    'gapped': lambda x, limits, per: 0.3 + _torus(x, limits, [a + 0.5 * (b - a) for a, b in limits], per),
    'flat': lambda x, limits, per: 0.,
}


def run_real(case, stats):
    dim = case['dim']
    limits = [(-0.3, 1.1), (0., 0.7), (2., 3.)][:dim]
    base = POTENTIALS[case['potential']]
    memo = {}
    log = []
    world = PlainWorld()

    def function(pos):
        if pos not in memo:
            memo[pos] = base(pos, limits, case['periodic'])
        return memo[pos]

    def sync(x):
        world.activity += 1
        pos = tuple(float(v) for v in x)
        log.append(pos)
        return function(pos)

    async def coroutine(x):
        return np.float64(sync(x))

    class Callable:
        def __call__(self, x):
            return np.array(sync(x))

    potential = dict(sync=sync, object=Callable())
    potential['async'] = coroutine
    kwargs = {}
    cutoff = 0.3 if dim == 1 else 0.4
    stencil = case['stencil']
    if stencil == 'mesh':
        from nodefinder.search.refinement_stencil import get_mesh_stencil
        stencil = get_mesh_stencil(mesh_size=(3, ) * dim)
    if case['start'] == 'state':
        kwargs['initial_state'] = make_state(
            limits, case['periodic'], cutoff, nodes=[[a + 0.3 for a, _ in limits]],
            simplices=[[[0] * dim] + [[int(i == j) for i in range(dim)] for j in range(dim)], [[a + 0.9 * (b - a) - 0.05 * i for j, (a, b) in enumerate(limits)] if i == 0 else [a + 0.9 * (b - a) - (0.05 if j + 1 == i else 0.) for j, (a, b) in enumerate(limits)] for i in range(dim + 1)]],
            positions=[[a + 0.5 for a, _ in limits]]
        )
        extra = 1
    else:
        extra = 0
    result = run_plain(lambda: search.run_async(
        potential[case['how']], limits=limits, periodic=case['periodic'], initial_mesh_size=2, feature_size=3 * cutoff,
        gap_threshold=0.05, refinement_stencil=stencil, num_minimize_parallel=1, nelder_mead_kwargs=dict(maxiter=60), **kwargs
    ), world)
    results = [r for r in result.minimization_results if r.message != 'ok']
    require(len(result.minimization_results) == len(results) + extra, 'the given results are missing')
    stats.evaluation(len(log))
    stats.nontrivial(case)
    # attribute the evaluations in their sequence
    start = 0
    open_results = list(results)
    lower = np.array([a for a, _ in limits])
    size = np.array([b - a for a, b in limits])

    def normalize(pos):
        if not case['periodic']:
            return pos
        return tuple(((np.array(pos) - lower) % size + lower).tolist())

    while start < len(log):
        first = sorted(log[start:start + dim + 1])
        match = [r for r in open_results if sorted(tuple(float(x) for x in p) for p in r.simplex_history[0]) == first]
        if not match:
            raise Violation('no result for the starting simplex {}'.format(first), log=log[start:start + 20])
        res = match[0]
        open_results = [r for r in open_results if r is not res]
        mine = log[start:start + int(res.num_fev)]
        check_result(res, mine, first, function, normalize=normalize)
        start += int(res.num_fev)
    require(not open_results, '{} results without evaluations'.format(len(open_results)))
    nodes = {id(n) for n in result.nodes}
    for res in results:
        good = bool(res.success) and function_at(res, function) <= 0.05
        require((id(res) in nodes) == good, 'wrongly listed as {}'.format('node' if id(res) in nodes else 'rejected'), found=vars(res))
    stats.outcome((case['potential'], case['dim'], case['periodic'], str(case['stencil']), len(results), len(result.nodes)))


def function_at(res, function):
    return float(res.value)


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 20, 'vacuous exploration'
    assert len(stats.sets['distinct_nontrivial']) > 5000
