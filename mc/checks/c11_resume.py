"""
C11: stop / fail / cancel / resume at every point of every (bounded) schedule, on the real
search with a real save file, under a controlled event loop.
"""
import asyncio
import copy
import itertools
import os

import numpy as np

from nodefinder import search, io

from ..impl import make_state, minimization_result
from ..core import explore_case, explore_pattern, require, Violation, scratch_dir
from ..aio import PlainWorld, run_plain
from ..search_world import make_world, search_kwargs, norm_simplex, some_values, Model, SearchFailure

ID = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of schedules x save ticks x stop / failure / cancellation points of the real asyncio search, followed by resumption from the real save file; reference scheduler model'
RULE = ('An execution is a chain of runs of the real search: completions with outcomes, timer ticks, and a stop, cancellation or failing evaluation at a chosen point, then '
        'a run resumed from the save file (which may be stopped again), and finally a resumption of the completed search. The file is compared with the reference state after every tick and at every stop.')
BOUNDS = {
    'quick': '1-3 starting simplices, parallel 1-3, up to 2 nodes with a 2-simplex stencil, up to 2 ticks; all choices within 3 (1 starting simplex), 2 (2), 1 (3) deviations, a stop, cancellation or failure being one of them; the save timer 3 iterations before to 3 after a completion, failure or cancellation, and those 0-4 iterations after a completion; fixed patterns with 40 and 90 simplices with nodes, save ticks and a stop / failure / cancellation early or late; save delays of 0.01 to 3600 seconds, evaluations which take 0.05 to 2.5 times as long',
    'thorough': 'all option combinations, up to 4 starting simplices (4 with parallel 2), with the time estimated from a sample of the cases; within 4 (1 starting simplex), 3 (some options) or 2 deviations',
}
ASSUMPTIONS = ['whether a simplex which was finished before the stop is evaluated again when a refinement after the stop produces exactly the same simplex is left open',
               'a stop loses everything but the contents of the save file; process kills inside a save are the subject of C12',
               'the explored potentials have infinite minimization tolerances, i.e. each minimization evaluates just its starting simplex']
CASE_LIMIT = 600.

D = 1 / 1024
STENCIL = [[[1 + 74 * D], [1 + 202 * D]], [[-1 - 118 * D], [-1 - 326 * D]]]


def cases(tier):
    thorough = tier == 'thorough'
    for end in ('stop', 'fail', 'cancel', 'none'):
        for m in (1, 2, 3, 4) if thorough else (1, 2, 3):
            for parallel in (1, 2, 3):
                if parallel > m + 1 or m == 4 and parallel != 2:
                    continue
                for periodic, check, recheck in ((True, 0, True), (False, 1, True), (True, 2, False)):
                    for cutoff in (0.625, 0.25):
                        # refinements are pending while other simplices are in progress
                        pending = cutoff == 0.25 and m in (2, 3) and parallel == m - 1 and periodic and recheck
                        if not thorough and (cutoff == 0.25 or not periodic or not recheck) and not m == parallel == 2 and not pending:
                            continue
                        depth = (3 if m == 1 or pending and m == 2 and (thorough or end != 'cancel') else 2) - (m == 3 and not thorough and not pending)
                        if end == 'none':
                            depth = min(depth, 2)
                        more = thorough and (m == 1 and cutoff == 0.625 and parallel == 1 or m == 2 and cutoff == 0.625 and parallel == min(m, 2) and periodic and recheck)
                        yield dict(end=end, bound=depth + bool(more), cfg=dict(
                            limits=[[0., 2.]], periodic=periodic, mesh_size=[m if periodic or m == 1 else m + (m == 4)],
                            cutoff=cutoff, parallel=parallel, stencil=STENCIL, max_nodes=2, simplex_check=check,
                            recheck=recheck, node_vertices=[0, 1], ticks=1 if pending and not thorough else 2
                        ))
    # a save just before, in between, or after what follows from a completion
    for end in ('none', 'fail', 'cancel', 'stop') if thorough else ('none', 'fail', 'cancel'):
        for m, parallel in ((1, 1), (2, 1), (2, 2)) + (((3, 2), ) if thorough else ()):
            if end != 'none' and (m == 1 and not thorough or m == 3):
                continue
            for cutoff in (0.625, 0.25):
                for recheck in (True, False):
                    if recheck and (m, cutoff) != (2, 0.25) or thorough and m == 1:
                        yield dict(end=end, bound=3 if (m, parallel, cutoff, end) == (2, 1, 0.625, 'none') or thorough and m == 1 and end == 'none' else 2, cfg=dict(
                            limits=[[0., 2.]], periodic=True, mesh_size=[m], cutoff=cutoff, parallel=parallel, stencil=STENCIL, max_nodes=2,
                            simplex_check=2, recheck=recheck, node_vertices=[0, 1], ticks=1, meet=True
                        ))
    # without refinement
    for end in ('stop', 'fail', 'cancel', 'none'):
        for parallel in (1, 2, 4):
            yield dict(end=end, bound=2 + thorough, cfg=dict(
                limits=[[0., 3.]], periodic=True, mesh_size=[3], cutoff=0.25, parallel=parallel,
                stencil=None, max_nodes=1, ticks=1
            ))
    # many simplices, nodes and refined positions: fixed patterns, with saves and a stop at some point
    for m, parallel in ((40, 3), (90, 70)) + (((300, 120), (700, 60)) if thorough else ()):
        for end in ('stop', 'fail', 'cancel', 'none'):
            for order in ('first', 'last', 7):
                for when in (0.3, 0.95) if end != 'none' else (1, ):
                    for tick in (1, int(m * when) - 1, int(m * when) - 7):
                        for stencil, cutoff in ((STENCIL, 0.25), (STENCIL, 0.75)):
                            if not thorough and (order == 7 and end != 'stop' or tick == 1 and when == 0.95 or cutoff == 0.25 and (end != 'stop' or order != 'first')):
                                continue
                            yield dict(end=end, cfg=dict(
                                limits=[[0., float(m)]], periodic=True, mesh_size=[m], cutoff=cutoff, parallel=parallel, stencil=stencil,
                                max_nodes=m, node_vertices=[0, 1], ticks=3, max_events=20 * m, simplex_check=2 if cutoff == 0.75 else 0,
                            ), pattern=dict(order=order, node_period=4, at={str(tick): 'tick', str(int(m * when)): end}))
    # how often the state is saved
    for delay in (0.01, 0.5, 3., 5., 60., 3600.):
        for part in (0.05, 0.3, 2.5):
            for parallel in (1, 3):
                yield dict(kind='period', delay=delay, part=part, parallel=parallel)
    # which changes of a state make it need saving
    for first in CHANGES:
        yield dict(kind='changes', first=first, length=4 if thorough else 3)


CHANGES = ('node', 'rejected', 'above', 'refined', 'simplices', 'positions', 'finish', 'taken')


def run_changes(case, stats):
    """All sequences of changes of a state; it is marked as saved after all, none, or the last but one of them."""
    for rest in itertools.product(CHANGES, repeat=case['length'] - 1):
        seq = (case['first'], ) + rest
        for saved in ('each', 'last'):
            state = make_state([(0., 1.)], True, 0.1, simplices=[[(0.1 * i, ), (0.5, )] for i in range(5)], positions=[(0.3 + 0.01 * i, ) for i in range(5)])
            require(state.needs_saving, 'a new state does not need saving')
            state.needs_saving = False
            require(not state.needs_saving, 'a state needs saving right after it was marked as saved')
            for i, change in enumerate(seq):
                if saved == 'each' or i == len(seq) - 1:
                    if change == 'finish':
                        simplex = state.simplex_queue.pop_queued()
                    state.needs_saving = False
                    require(not state.needs_saving, 'a state needs saving right after it was marked as saved', changes=seq[:i])
                elif change == 'finish':
                    simplex = state.simplex_queue.pop_queued()
                pos = [0.07 * i]
                if change in ('node', 'rejected', 'above'):
                    state.result.add_result(minimization_result(pos, 1. if change == 'above' else 0., success=change != 'rejected'))
                elif change == 'refined':
                    state.result.set_refined(np.array(pos))
                elif change == 'simplices':
                    state.simplex_queue.add_objects([[(10. + i, ), (0., )]])
                elif change == 'positions':
                    state.position_queue.add_objects([tuple(pos)])
                elif change == 'taken':
                    state.position_queue.pop_queued()
                else:
                    state.simplex_queue.set_finished(simplex)
                require(state.needs_saving, 'a state does not need saving after a change', changes=seq[:i + 1], saved=saved)
                stats.transition()
            stats.trace()
    stats.outcome(('changes', case['first']))


def run_period(case, stats):
    """Every evaluation takes a part of the save delay."""
    delay, duration, parallel = case['delay'], case['delay'] * case['part'], case['parallel']
    path = os.path.join(scratch_dir(), 'period.hdf5')
    if os.path.exists(path):
        os.remove(path)
    world = PlainWorld()
    times = []
    last = [None]

    def potential(_):
        world.activity += 1
        if os.path.exists(path):
            info = os.stat(path)
            if (info.st_ino, info.st_mtime_ns) != last[0]:
                last[0] = (info.st_ino, info.st_mtime_ns)
                times.append(world.loop.vtime)
        world.loop.vtime += duration
        return 1.
    run_plain(lambda: search.run_async(
        potential, limits=[[0., 1.]], save_file=path, save_delay=delay, initial_mesh_size=60, refinement_stencil=None,
        num_minimize_parallel=parallel, nelder_mead_kwargs=dict(xtol=float('inf'), ftol=float('inf'))
    ), world)
    end = world.loop.vtime
    os.remove(path)
    # a simplex has two vertices
    round_ = 2 * parallel * duration
    where = dict(times=times, end=end)
    require(times and times[0] <= 2 * delay + 5 * round_, 'the state is not saved when the search starts', **where)
    for before, after in zip(times, times[1:] + [end]):
        require(after - before <= 2 * delay + 5 * round_, 'with a save delay of {}, nothing is saved between {} and {}'.format(delay, before, after), **where)
    for before, after in zip(times, times[1:]):
        require(after - before >= delay - 2 * round_, 'with a save delay of {}, the state is saved at {} and {}'.format(delay, before, after), **where)
    stats.transition(len(times))
    stats.trace()
    stats.outcome(('period', len(times)))


def plain(pos):
    return tuple(float(x) for x in pos)


_CACHE = {}


def read_state(path):
    """The contents of the save file in plain form (cached by the bytes of the file)."""
    with open(path, 'rb') as file:
        key = file.read()
    if key not in _CACHE:
        if len(_CACHE) > 2000:
            _CACHE.clear()
        _CACHE[key] = _read_state(path)
    return copy.deepcopy(_CACHE[key])


def _read_state(path):
    state = io.load(path)
    res = state.result
    finished = {}
    for r in res.minimization_results:
        simplex = norm_simplex(r.simplex_history[0])
        finished.setdefault(simplex, []).append((plain(r.pos), float(r.value)))
    return dict(
        finished=finished,
        queue=[norm_simplex(s) for s in state.simplex_queue.objects],
        positions=[plain(p) for p in state.position_queue.objects],
        refined=[plain(p) for p in res.refined_results],
        nodes=[plain(n.pos) for n in res.nodes],
    )


class Monitor:
    """Checks the save file against what was delivered in the current run."""
    def __init__(self, world, path, base):
        self.world = world
        self.path = path
        self.base = base  # state at the start of the run
        self.acked = 0  # number of deliveries which must be in the file
        self.ticked = False
        world.on_event = self.on_event

    def on_event(self, event):
        world = self.world
        if self.ticked:
            # the settled state after a tick: everything so far is saved
            self.check_file(exact=True)
            self.acked = len(world.delivered)
        self.ticked = event[0] == 'tick'
        if event[0] == 'stop':
            self.check_file(exact=False)

    def check_file(self, exact, count=None):
        world = self.world
        log = list(world.log)
        require(os.path.exists(self.path), 'there is no save file', log=log)
        state = read_state(self.path)
        # results: each of them once; the acknowledged ones and only delivered ones
        expected = {s: [(p, v)] for s, p, v in world.delivered}
        for s, vals in self.base['finished'].items():
            expected[s] = vals
        must = set(self.base['finished']) | {s for s, _, _ in world.delivered[:(len(world.delivered) if exact else self.acked)]}
        for s, vals in state['finished'].items():
            require(expected.get(s) == vals, 'the save file contains a wrong result', simplex=s, found=vals,
                    expected=expected.get(s), log=log)
        require(must <= set(state['finished']), 'results are missing in the save file',
                missing=must - set(state['finished']), log=log)
        # unfinished work
        queue = state['queue']
        require(len(set(queue)) == len(queue), 'duplicate simplices in the saved queue', queue=queue, log=log)
        require(not set(queue) & set(state['finished']), 'a finished simplex is queued in the save file',
                queue=queue, log=log)
        check = world.model.copy()
        check.nodes = state['nodes']
        work = list(self.base['queue'])
        for pos in state['refined']:
            if pos not in self.base['refined']:
                work += world.model.stencil_at(pos)
        for s in work:
            require(
                s in state['finished'] or s in queue or check.near_vertices(s) > check.simplex_check,
                'simplex {} is lost in the save file'.format(s), state=state, log=log
            )
        require(set(queue) <= set(work), 'the save file contains unknown simplices', queue=queue, log=log)
        # pending refinement
        if world.stencil is not None:
            for node in state['nodes']:
                require(
                    any(world.box.distance(node, p) < world.cutoff for p in state['refined'] + state['positions']),
                    'the refinement of node {} is lost in the save file'.format(node), state=state, log=log
                )
            for pos in self.base['positions']:
                require(
                    pos in state['positions'] or any(world.box.distance(pos, p) < world.cutoff for p in state['refined']),
                    'queued position {} is lost in the save file'.format(pos), state=state, log=log
                )
            if state['positions']:
                world.stats.add('saved_with_pending_refinement')
        if exact and world.beliefs is not None:
            require(
                any(
                    sorted(m.queue + m.running) == sorted(queue) and m.posq == state['positions']
                    and sorted(m.refined) == sorted(state['refined']) for m in world.beliefs
                ), 'the saved queues are not those of the search', state=state, log=log,
                expected=[dict(queue=m.queue, running=m.running, positions=m.posq, refined=m.refined) for m in world.beliefs]
            )
        return state


def run(case, stats):
    if case.get('kind') == 'period':
        run_period(case, stats)
        return
    if case.get('kind') == 'changes':
        run_changes(case, stats)
        return
    cfg = case['cfg']
    stats.sample(case)
    end = case['end']
    path = os.path.join(scratch_dir(), 'state.hdf5')

    def single(chooser, base, values, load, first):
        kwargs = dict(ticks=cfg['ticks'] if first else 1)
        kwargs['stops'] = end == 'stop'
        kwargs['failures'] = ('lags' if cfg.get('meet') else True) if end == 'fail' and first else False
        kwargs['cancels'] = ('lags' if cfg.get('meet') else True) if end == 'cancel' and first else False
        if load:
            kwargs.update(initial=base['queue'], nodes=base['nodes'], refined=base['refined'], positions=base['positions'])
        world = make_world(cfg, chooser, stats, node_values=some_values(cfg), **kwargs)
        world.values = values
        world.num_nodes = len(base['nodes'])
        if not load:
            base = dict(base, queue=list(world.initial))
        monitor = Monitor(world, path, base)

        async def main():
            world.task = asyncio.ensure_future(search.run_async(world.potential, **search_kwargs(
                cfg, save_file=path, load=load, load_quiet=False
            )))
            return await world.task

        kind, result = world.run(main)
        return world, monitor, kind, result

    def run_one(chooser):
        if os.path.exists(path):
            os.remove(path)
        base = dict(finished={}, queue=[], positions=[], refined=[], nodes=[])
        values = {}
        load = False
        log = []
        for attempt in range(6):
            world, monitor, kind, result = single(chooser, base, values, load, attempt == 0)
            log.append(world.log)
            if kind == 'stopped':
                base = read_state(path)
            elif kind == 'exception':
                require(world.cancelled and isinstance(result, asyncio.CancelledError) or world.failed and isinstance(result, SearchFailure),
                        'the search raised {!r}'.format(result), log=log)
                # everything obtained before the failure is saved, the failed one is queued
                base = monitor.check_file(exact=False, count=None)
                missing = {s for s, _, _ in world.delivered} - set(base['finished'])
                # a completion just before the end may be unprocessed, and is queued then
                missing.discard(world.undecided)
                require(not missing, 'results obtained before the failure are not saved', missing=missing, log=log)
                for s in world.failed:
                    require(s in base['queue'], 'the failed simplex is not queued in the save file', log=log)
            else:
                require(not world.failed, 'the failure of an evaluation is not reported', log=log)
                require(world.cancelled != True, 'a cancelled search continues', log=log)
                extra = [v for vals in base['finished'].values() for v in vals]
                world.check_final(result, extra_results=extra)
                world.check_coverage(result, separated=False)
                state = monitor.check_file(exact=True)
                require(not state['queue'] and not state['positions'],
                        'a completed search is saved with queued work', state=state, log=log)
                break
            stats.seen('stop_states', base)
            load = True
        else:
            raise AssertionError('too many attempts')
        # resume the completed search
        before = read_state(path)
        results = world.final_results(result)
        world = make_world(cfg, chooser, stats, initial=[], nodes=before['nodes'], refined=before['refined'])

        async def main():
            return await search.run_async(world.potential, **search_kwargs(cfg, save_file=path, load=True, load_quiet=False))

        kind, result = world.run(main)
        if kind == 'exception':
            raise Violation('resuming the completed search raised {!r}'.format(result), log=log)
        require(not world.evaluations, 'resuming a completed search evaluates', evaluations=world.evaluations, log=log)
        require(world.final_results(result) == results, 'resuming a completed search changes the results', log=log)
        require(read_state(path) == before, 'resuming a completed search changes the save file', log=log)
        stats.outcome((log, results))

    if 'pattern' in case:
        explore_pattern(case, run_one, stats)
    else:
        explore_case(case, run_one, stats, bound=case['bound'])


def finish(stats, tier):
    assert len(stats.sets['stop_states']) > 40, 'vacuous exploration'
    assert stats.counts.get('saved_with_pending_refinement', 0) > 20, 'vacuous exploration'
