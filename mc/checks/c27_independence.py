"""
C27: two searches in one event loop (or one after the other) under a controlled
loop, each against its own reference model; ends by failure and cancellation.
"""
import asyncio
import copy
import itertools

import numpy as np

from nodefinder import search

from ..aio import run_controlled
from ..compare import canon_container, canon_state, first_difference
from ..core import explore_case, require, Violation
from ..impl import make_state
from ..search_world import make_world, search_kwargs, norm_simplex, some_values, SearchFailure, INF

ID = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of the interleavings of two searches (completions, outcomes, failures, cancellation) in one controlled event loop on the real code, each in lockstep with its own reference model'
RULE = ('An execution is two real searches in one event loop; a transition is the completion (with outcome), failure or cancellation chosen by the explorer. Each search is compared with its own model at '
        'each settled state; when one of them has ended, none of its evaluations may be in progress or begin.')
BOUNDS = {
    'quick': 'two searches of 1-3 starting simplices in dimensions 1-2 (different boxes, cutoffs, stencils, parallelism), all interleavings without refinement up to 2+2 simplices, else within 2 deviations; a failure (one or all evaluations of a simplex) or cancellation at every point, also 0-4 iterations after a completion or failure, also with evaluations which take 3 or 25 iterations to end; two deterministic searches (fake potential, refinement) within 1 deviation of alternating; repeated searches with the same arguments',
    'thorough': 'all pairs of 7 configurations within 3 deviations, two of the deterministic searches within 2 deviations',
}
ASSUMPTIONS = ['evaluations are cancelled by cancelling the awaiting coroutine, i.e. a potential which ignores cancellation is not covered']
CASE_LIMIT = 600.

D = 1 / 1024
STENCIL = [[[1 + 74 * D], [1 + 202 * D]], [[-1 - 118 * D], [-1 - 326 * D]]]


def _cfg(**kwargs):
    cfg = dict(limits=[[0., 2.]], periodic=True, mesh_size=[2], cutoff=0.125, parallel=2, stencil=None, max_nodes=0)
    cfg.update(kwargs)
    return cfg


CONFIGS = [
    _cfg(),
    _cfg(parallel=1),
    _cfg(cutoff=0.625, stencil=STENCIL, max_nodes=1, parallel=1, mesh_size=[1]),
    _cfg(cutoff=0.25, stencil=STENCIL, max_nodes=2, periodic=False),
    _cfg(limits=[[0., 4.], [-1., 1.]], mesh_size=[2, 1], parallel=3),
    _cfg(cutoff=0.625, stencil=STENCIL, max_nodes=1, mesh_size=[3], parallel=2),
    _cfg(mesh_size=[3], parallel=2, limits=[[0., 3.]]),
]


def cases(tier):
    thorough = tier == 'thorough'
    for first, second in itertools.product(range(len(CONFIGS)), repeat=2):
        refine = CONFIGS[first]['stencil'] is not None or CONFIGS[second]['stencil'] is not None
        small = not refine and first in (0, 1, 4) and second in (0, 1, 4)
        if thorough or (first + second) % 2 == 0:
            yield dict(kind='pair', cfgs=[first, second], end='none', bound=None if small else (3 if thorough else 2))
        for end in ('fail', 'cancel'):
            if thorough or (first + 2 * second) % 3 == 0:
                yield dict(kind='pair', cfgs=[first, second], end=end, bound=3 if thorough else 2)
    for first in range(len(CONFIGS)):
        for end in ('fail', 'cancel'):
            yield dict(kind='pair', cfgs=[first], end=end, bound=4 if thorough else 3)
            yield dict(kind='pair', cfgs=[first], end=end, bound=3 if thorough else 2, cleanup=3)
            yield dict(kind='pair', cfgs=[first], end=end, bound=3 if thorough else 2, cleanup=25)
    for first, second in itertools.combinations_with_replacement(range(len(REAL)), 2):
        yield dict(kind='real', cfgs=[first, second], bound=2 if thorough and first in (2, 3) and second in (2, 3) else 1)
    for first in range(len(REAL)):
        for state in (0, 1, 1.5):
            yield dict(kind='repeat', cfg=first, state=state)


class Worlds:
    """Several searches in one event loop."""
    def __init__(self, chooser, worlds):
        self.chooser = chooser
        self.worlds = worlds
        self._loop = None
        self.activity_base = 0
        self.last = len(worlds) - 1

    @property
    def loop(self):
        return self._loop

    @loop.setter
    def loop(self, loop):
        self._loop = loop
        for world in self.worlds:
            world.loop = loop

    @property
    def activity(self):
        return sum(w.activity + (w.task is not None and w.task.done()) for w in self.worlds)

    def check_ended(self):
        for world in self.worlds:
            if world.violation is not None:
                raise world.violation
            if world.task is not None and world.task.done():
                open_evaluations = [
                    pos for _, futs in world.pending.items() for pos, fut in futs if not fut.done()
                ] + [pos for pos, fut in world.unmatched if not fut.done()]
                require(
                    not open_evaluations, 'evaluations are still in progress although the search has ended',
                    positions=open_evaluations, log=world.log
                )
                require(
                    not world.open_evaluations, 'evaluations have not ended although the search has',
                    number=world.open_evaluations, log=world.log
                )
                count = getattr(world, 'num_at_end', None)
                if count is None:
                    world.num_at_end = len(world.evaluations)
                else:
                    require(len(world.evaluations) == count, 'evaluations begin after the search has ended', log=world.log)

    def decide(self):
        self.check_ended()
        n = len(self.worlds)
        events = []
        for k in range(1, n + 1):
            i = (self.last + k) % n
            world = self.worlds[i]
            if world.task.done():
                continue
            if world.cancelled or world.failed:
                raise Violation('the search does not end after it {}'.format('was cancelled' if world.cancelled else 'has failed'), log=world.log)
            events += [(i, event) for event in world.options()]
        if not events:
            raise Violation('no search is active, but they have not ended', logs=[w.log for w in self.worlds])
        i, event = self.chooser.pick(events, 'event')
        self.last = i
        self.worlds[i].apply(event)


def run_pair(case, stats):
    stats.sample(case)
    cfgs = [CONFIGS[i] for i in case['cfgs']]
    end = case['end']

    def run_one(chooser):
        worlds = []
        for i, cfg in enumerate(cfgs):
            world = make_world(cfg, chooser, stats, node_values=some_values(cfg), cleanup=case.get('cleanup', 0), cancels='lags' if end == 'cancel' and i == 0 else False, failures='lags' if end == 'fail' and i == 0 else False)
            worlds.append(world)
        both = Worlds(chooser, worlds)
        kwargs = [search_kwargs(cfg) for cfg in cfgs]
        before = [snapshot(k) for k in kwargs]

        async def main():
            for world, kw in zip(worlds, kwargs):
                world.task = asyncio.ensure_future(search.run_async(world.potential, **kw))
            await asyncio.wait([world.task for world in worlds])
            # whatever has been left behind gets the opportunity to do something
            both.check_ended()
            for _ in range(20):
                await asyncio.sleep(0.)
            both.check_ended()

        kind, value = run_controlled(both, main)
        stats.trace()
        for world in worlds:
            if world.violation is not None:
                raise world.violation
        if kind == 'exception':
            if isinstance(value, Violation):
                raise value
            raise Violation('unexpected {!r}'.format(value), logs=[w.log for w in worlds])
        for world, kw, old in zip(worlds, kwargs, before):
            same_arguments(kw, old, world.log)
            if world.cancelled and world.task.cancelled():
                continue
            # a search which is just ending may still complete or fail
            require(world.cancelled != True, 'a cancelled search does not end as cancelled', log=world.log)
            require(not world.task.cancelled(), 'a search was cancelled together with another one', log=world.log)
            exc = world.task.exception()
            if world.failed:
                require(isinstance(exc, SearchFailure), 'the failure is reported as {!r}'.format(exc), log=world.log)
                continue
            if exc is not None:
                raise Violation('a search raised {!r}'.format(exc), logs=[w.log for w in worlds])
            result = world.task.result()
            world.check_final(result)
            world.check_coverage(result, separated=False)
        stats.outcome([w.log for w in worlds])

    explore_case(case, run_one, stats, bound=case['bound'])


def snapshot(kwargs):
    return {key: canon_state(val) if key == 'initial_state' else copy.deepcopy(val) for key, val in kwargs.items()}


def same_arguments(kwargs, old, log=None):
    require(set(kwargs) == set(old), 'the arguments were modified', log=log)
    for key, val in old.items():
        if isinstance(val, np.ndarray):
            same = isinstance(kwargs[key], np.ndarray) and kwargs[key].shape == val.shape and np.array_equal(kwargs[key], val)
        elif key == 'initial_state':
            same = canon_state(kwargs[key]) == val
        else:
            same = kwargs[key] == val
        require(same, 'the argument {} was modified'.format(key), found=repr(kwargs[key]), before=repr(val), log=log)


# -- searches with a given potential, whose course does not depend on the order of completion
def _real(potential, **kwargs):
    args = dict(limits=[(0., 1.)], periodic=True, initial_mesh_size=[3], feature_size=0.375, gap_threshold=0.01,
                num_minimize_parallel=1, refinement_stencil=np.array(STENCIL), nelder_mead_kwargs={'xtol': 0.01, 'ftol': 0.01})
    args.update(kwargs)
    return potential, args


def points_1d(x):
    return min(abs((x[0] - a + 0.5) % 1 - 0.5) for a in (0.2, 0.7))


def offset_1d(x):
    return abs((x[0] - 0.55 + 0.5) % 1 - 0.5) + 0.001


def points_2d(x):
    return abs(x[0] - 0.3) + 0.5 * abs(x[1] + 0.2)


REAL = [
    _real(points_1d),
    _real(points_1d, use_fake_potential=True, nelder_mead_kwargs={'xtol': 0.01, 'ftol': 0.01, 'maxfev': 30}),
    _real(offset_1d, feature_size=0.1, initial_mesh_size=[2], gap_threshold=0.0005, nelder_mead_kwargs={'maxiter': 6}),
    _real(points_2d, limits=[(-1., 1.), (1., -1.)], initial_mesh_size=[1, 2], periodic=False, refinement_stencil=None,
          nelder_mead_kwargs={'xtol': 0.05, 'ftol': 0.05, 'keep_history': False}),
    _real(points_1d, limits=[(0., 2.)], initial_mesh_size=2, recheck_pos_dist=False, simplex_check_cutoff=1),
]


def fresh(index):
    potential, args = REAL[index]
    return potential, {key: (val.copy() if isinstance(val, (np.ndarray, dict, list)) else val) for key, val in args.items()}


_ALONE = {}


def alone(index):
    if index not in _ALONE:
        potential, args = fresh(index)
        calls = []

        def counted(x):
            calls.append(tuple(float(v) for v in x))
            return potential(x)
        _ALONE[index] = canon_container(search.run(counted, **args)), calls
    return _ALONE[index]


class Turns:
    """Several searches with given potentials; one evaluation completes at a time."""
    def __init__(self, chooser, potentials):
        self.chooser = chooser
        self.potentials = potentials
        self.waiting = [[] for _ in potentials]
        self.calls = [[] for _ in potentials]
        self.activity = 0
        self.last = len(potentials) - 1
        self.loop = None

    def potential(self, i):
        async def evaluate(x):
            self.activity += 1
            fut = self.loop.create_future()
            self.calls[i].append(tuple(float(v) for v in x))
            self.waiting[i].append((np.array(x), fut))
            return await fut
        return evaluate

    def decide(self):
        n = len(self.potentials)
        order = [(self.last + k) % n for k in range(1, n + 1)]
        active = [i for i in order if self.waiting[i]]
        if not active:
            raise Violation('the searches neither end nor evaluate anything')
        i = self.chooser.pick(active, 'turn')
        self.last = i
        # all evaluations of this search which are in progress, in order
        now, self.waiting[i] = self.waiting[i], []
        for x, fut in now:
            fut.set_result(self.potentials[i](x))
        self.activity += 1


def run_real(case, stats):
    stats.sample(case)
    indices = case['cfgs']
    reference = [alone(i) for i in indices]

    def run_one(chooser):
        items = [fresh(i) for i in indices]
        turns = Turns(chooser, [p for p, _ in items])
        before = [snapshot(kw) for _, kw in items]

        async def main():
            return await asyncio.gather(*[
                search.run_async(turns.potential(i), **kw) for i, (_, kw) in enumerate(items)
            ])

        kind, value = run_controlled(turns, main)
        stats.trace()
        if kind == 'exception':
            if isinstance(value, Violation):
                raise value
            raise Violation('the searches raised {!r}'.format(value))
        for result, (ref, calls), found, (_, kw), old in zip(value, reference, turns.calls, items, before):
            diff = first_difference(ref, canon_container(result))
            require(diff is None, 'a search next to another one differs from the same search alone: {}'.format(diff))
            require(sorted(found) == sorted(calls), 'a search next to another one evaluates other positions than alone')
            same_arguments(kw, old)
        for _ in range(sum(len(c) for c in turns.calls)):
            stats.transition()
        stats.outcome(chooser.choices)

    explore_case(case, run_one, stats, bound=case['bound'])


def run_repeat(case, stats):
    stats.sample(case)
    potential, kwargs = fresh(case['cfg'])
    dim = len(kwargs['limits'])
    if case['state']:
        kwargs['initial_state'] = make_state(
            # for a shifted box the positions of the results are outside of the limits of the search
            [(a + case['state'] - 1, b + case['state'] - 1) for a, b in map(sorted, kwargs['limits'])], kwargs['periodic'],
            kwargs['feature_size'] / 3, nodes=[(0.21, ) * dim],
            simplices=[norm_simplex([[0.4 + 0.1 * (i == j) for j in range(dim)] for i in range(dim + 1)])], positions=[(0.68, ) * dim]
        )
    before = snapshot(kwargs)
    first = None
    for i in range(3):
        result = canon_container(search.run(potential, **kwargs))
        same_arguments(kwargs, before)
        if first is None:
            first = result
        diff = first_difference(first, result)
        require(diff is None, 'the same search gives another result when it is run again: {}'.format(diff))
        # another search in between
        other, args = fresh((case['cfg'] + i + 1) % len(REAL))
        search.run(other, **args)
        stats.transition()
    stats.trace()
    stats.outcome(first)


def run(case, stats):
    dict(pair=run_pair, real=run_real, repeat=run_repeat)[case['kind']](case, stats)


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 300, 'vacuous exploration'
