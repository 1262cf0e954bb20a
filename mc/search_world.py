"""
The environment of a search under the controlled loop.

The potential blocks on every first evaluation of a point; the explorer decides
which simplex gets its values next, and which values (node / no node) they are.
The minimization tolerances are infinite, such that each minimization evaluates
exactly the vertices of its starting simplex: the assignment of values to points
is the only thing that matters. A reference model of the scheduling, skipping and
refinement rules is run alongside.
"""
import copy
import asyncio
import itertools
import math
import zlib

import numpy as np

from .core import Violation, require
from .aio import Stop, run_controlled

INF = float('inf')
THRESHOLD = 0.5


class Box:
    """Reference implementation of the (periodic) box."""
    def __init__(self, limits, periodic):
        self.limits = [tuple(sorted(x)) for x in limits]
        self.periodic = periodic
        self.size = [b - a for a, b in self.limits]

    def distance(self, p, q):
        total = 0.
        for (x, y, s) in zip(p, q, self.size):
            delta = abs(x - y)
            if self.periodic:
                delta = math.fmod(delta, s)
                delta = min(delta, s - delta)
            total += delta * delta
        return math.sqrt(total)

    def normalize(self, p):
        if not self.periodic:
            return tuple(float(x) for x in p)
        return tuple(
            float((x - a) % s + a) for x, (a, _), s in zip(p, self.limits, self.size)
        )


def norm_simplex(simplex):
    return tuple(sorted(tuple(float(x) for x in v) for v in simplex))


def mesh_simplices(limits, mesh_size, periodic):
    """Reference initial mesh."""
    axes = []
    for (a, b), m in zip(limits, mesh_size):
        if periodic:
            axes.append([a + (b - a) * i / m for i in range(m)])
        elif m == 1:
            axes.append([a])
        else:
            axes.append([a + (b - a) * i / (m - 1) for i in range(m)])
    res = []
    for v in itertools.product(*axes):
        simplex = [v]
        for i, ((a, b), m) in enumerate(zip(limits, mesh_size)):
            w = list(v)
            w[i] += (b - a) / (2 * m)
            simplex.append(tuple(w))
        res.append(norm_simplex(simplex))
    return res


class Model:
    """Reference model of scheduling, skipping and refinement."""
    def __init__(self, box, cutoff, initial, stencil, parallel, recheck=True,
                 recheck_count=0, simplex_check=0, nodes=(), refined=(), positions=()):
        self.box = box
        self.cutoff = cutoff
        self.stencil = stencil
        self.parallel = parallel
        self.recheck = recheck
        self.recheck_count = recheck_count
        self.simplex_check = simplex_check
        self.queue = []
        self.seen = set()
        self.add(initial)
        self.running = []
        self.finished = []
        self.skipped = []
        self.nodes = list(nodes)
        self.refined = list(refined)
        self.posq = list(positions)
        self.posseen = set(positions)
        self.discarded = []

    def copy(self):
        new = copy.copy(self)
        for name in ('queue', 'running', 'finished', 'skipped', 'nodes', 'refined', 'posq', 'discarded'):
            setattr(new, name, list(getattr(self, name)))
        new.seen = set(self.seen)
        new.posseen = set(self.posseen)
        return new

    def key(self):
        return (
            tuple(self.queue), tuple(sorted(self.running)), tuple(self.nodes),
            tuple(self.refined), tuple(self.posq), tuple(sorted(self.finished)),
            tuple(sorted(self.skipped))
        )

    def add(self, simplices):
        for s in simplices:
            if s not in self.seen:
                self.seen.add(s)
                self.queue.append(s)

    def near_refined(self, pos):
        return sum(self.box.distance(pos, r) < self.cutoff for r in self.refined)

    def near_vertices(self, simplex):
        return sum(
            any(self.box.distance(v, n) < self.cutoff for n in self.nodes)
            for v in simplex
        )

    def stencil_at(self, pos):
        return [
            norm_simplex([[p + self.cutoff * x for p, x in zip(pos, v)] for v in s])
            for s in self.stencil
        ]

    def pump(self):
        while len(self.running) < self.parallel:
            while not self.queue and self.posq:
                pos = self.posq.pop(0)
                if not self.recheck or self.near_refined(pos) <= self.recheck_count:
                    self.add(self.stencil_at(pos))
                    self.refined.append(pos)
                else:
                    self.discarded.append(pos)
            if not self.queue:
                break
            simplex = self.queue.pop(0)
            if self.near_vertices(simplex) > self.simplex_check:
                self.skipped.append(simplex)
            else:
                self.running.append(simplex)

    def complete(self, simplex, node):
        self.running.remove(simplex)
        self.finished.append(simplex)
        if node is not None:
            self.nodes.append(node)
            if self.stencil is not None and self.near_refined(node) == 0:
                if node not in self.posseen:
                    self.posseen.add(node)
                    self.posq.append(node)

    @property
    def done(self):
        return not self.queue and not self.running and not self.posq


class SearchWorld:
    """Environment, monitor and reference model of one execution."""
    def __init__(self, chooser, stats, *, limits, periodic, mesh_size, cutoff, parallel,
                 stencil=None, recheck=True, recheck_count=0, simplex_check=0,
                 max_nodes=2, node_vertices=(0, ), pairs=False, ticks=False, stops=False,
                 initial=None, nodes=(), refined=(), positions=(), conform=True,
                 is_node=None, max_events=400, failures=False, node_fn=None, cancels=False,
                 node_values=(0., ), meet=False, cleanup=0, slow=False):
        self.chooser = chooser
        self.stats = stats
        self.box = Box(limits, periodic)
        self.cutoff = cutoff
        self.parallel = parallel
        self.stencil = stencil
        self.max_nodes = max_nodes
        self.node_vertices = node_vertices
        self.node_values = node_values
        self.pairs = pairs
        self.ticks = ticks
        self.slow = slow  # hours pass before every event
        self.waited = False
        self.cleanup = cleanup  # iterations until a cancelled evaluation has ended
        self.open_evaluations = 0
        self.meet = meet  # the save timer fires some iterations before or after a completion
        self.stops = stops
        self.failures = failures
        self.cancels = cancels
        self.cancelled = False
        self.undecided = None  # completed just before a cancellation or failure
        self.task = None  # the task of the search, if it can be cancelled
        self.conform = conform
        self.max_events = max_events
        self.node_fn = node_fn
        if initial is None:
            initial = mesh_simplices(self.box.limits, mesh_size, periodic)
        self.initial = initial
        self.model = Model(
            self.box, cutoff, initial, stencil, parallel, recheck=recheck,
            recheck_count=recheck_count, simplex_check=simplex_check, nodes=nodes,
            refined=refined, positions=positions
        )
        self.init_nodes = list(nodes)
        self.beliefs = None
        self.hint = self.model.copy()  # only used where it is open what is evaluated
        self.hint.pump()
        # observations
        self.activity = 0
        self.values = {}  # normalized position -> value
        self.pending = {}  # simplex -> [(position, future)]
        self.vertex_owner = {}  # raw position -> simplices
        self.unmatched = []  # new evaluations
        self.outstanding = {}  # delivered simplex -> vertices not evaluated yet
        self.started_set = set()
        self.started = []  # simplices in order of their first evaluation
        self.in_progress = set()
        self.delivered = []  # (simplex, best position, value) in order
        self.evaluations = []
        self.num_nodes = 0
        self.num_events = 0
        self.num_ticks = 0
        self.log = []
        self.failed = []
        self.loop = None
        self.on_event = None
        self.violation = None
        for simplex in self.initial:
            self.register(simplex)
        for pos in list(positions):
            self.register_refinement(pos)

    # -- bookkeeping of simplices
    def register(self, simplex):
        for v in simplex:
            owners = self.vertex_owner.setdefault(v, [])
            if simplex not in owners:
                owners.append(simplex)

    def register_refinement(self, pos):
        if self.stencil is not None:
            for simplex in self.model.stencil_at(pos):
                self.register(simplex)

    def violate(self, message):
        self.violation = Violation(message, log=list(self.log))
        raise self.violation

    # -- the potential
    async def potential(self, x):
        pos = tuple(float(v) for v in x)
        self.activity += 1
        self.evaluations.append(pos)
        if pos not in self.vertex_owner:
            self.violate('evaluated a point which belongs to no expected simplex: {}'.format(pos))
        # a minimization which evaluates its vertices one after the other
        for simplex, missing in self.outstanding.items():
            if pos in missing:
                missing.remove(pos)
                if simplex in self.failed:
                    raise SearchFailure(simplex)
                return self.values[self.box.normalize(pos)]
        fut = self.loop.create_future()
        self.unmatched.append((pos, fut))
        if self.loop.world is None:
            self.violate('evaluation outside of the search')
        self.open_evaluations += 1
        try:
            return await fut
        except asyncio.CancelledError:
            # an evaluation which needs some time to end
            for _ in range(self.cleanup):
                self.activity += 1
                await asyncio.sleep(0)
            raise
        finally:
            self.open_evaluations -= 1

    def match(self):
        """Assign the new evaluations to starting simplices."""
        while self.unmatched:
            available = [pos for pos, _ in self.unmatched]
            owners = [s for s in self.vertex_owner[available[0]] if s not in self.started_set]
            complete = [s for s in owners if all(v in available for v in s)]
            if complete:
                # the simplex whose evaluations directly follow each other
                complete.sort(key=lambda s: sum(available.index(v) for v in s))
                simplex = complete[0]
            elif owners:
                # vertices are evaluated one after the other
                likely = [s for s in owners if s in self.hint.running]
                simplex = (likely or owners)[0]
            else:
                self.violate('simplex {} is minimized again'.format(self.vertex_owner[available[0]][0]))
            futures = []
            for v in simplex:
                for i, (pos, fut) in enumerate(self.unmatched):
                    if pos == v:
                        futures.append((pos, fut))
                        del self.unmatched[i]
                        break
            self.started.append(simplex)
            self.started_set.add(simplex)
            self.in_progress.add(simplex)
            self.pending[simplex] = futures
        if len(self.in_progress) > self.parallel:
            self.violate(
                '{} minimizations are in progress, but only {} are allowed'.format(
                    len(self.in_progress), self.parallel
                )
            )

    # -- events
    def conformance(self):
        """Compare what is in progress with the possible states of the model."""
        if self.beliefs is None:
            model = self.model.copy()
            model.pump()
            self.beliefs = [model]
        observed = sorted(self.in_progress)
        started = set(self.started)
        matching = [
            m for m in self.beliefs
            if sorted(m.running) == observed and set(m.running) | set(m.finished) == started
        ]
        if not matching:
            raise Violation(
                'in progress: {}; the rules allow {}'.format(
                    observed, [sorted(m.running) for m in self.beliefs]
                ), log=self.log,
                expected=[dict(running=m.running, queue=m.queue, skipped=m.skipped, nodes=m.nodes,
                               refined=m.refined, positions=m.posq) for m in self.beliefs]
            )
        uniq = {m.key(): m for m in matching}
        self.beliefs = list(uniq.values())
        for m in self.beliefs:
            self.stats.state(m.key())

    def decide(self):
        """Called when the search is settled: choose and deliver the next event."""
        if self.slow and not self.waited:
            self.waited = True
            self.activity += 1
            self.loop.vtime += 1e4
            return
        self.waited = False
        event = self.chooser.pick(self.options(), 'event')
        self.apply(event)

    def options(self):
        """The events which are possible in a settled state."""
        self.match()
        self.num_events += 1
        if self.num_events > self.max_events:
            raise Violation('the search does not end', log=self.log[-50:])
        groups = [s for s in self.started if s in self.pending]
        if not groups:
            raise Violation(
                'the search neither ends nor evaluates anything', log=self.log,
                started=self.started
            )
        if self.conform:
            self.conformance()
        else:
            self.stats.state((tuple(sorted(self.in_progress)), tuple(sorted(self.delivered))))
        events = [('deliver', (g, )) for g in groups]
        if self.pairs:
            events += [('deliver', p) for p in itertools.permutations(groups, 2)]
            if self.pairs == 'lags':
                # the second one some iterations of the event loop later
                events += [('deliver', p, lag) for p in itertools.permutations(groups, 2) for lag in (1, 2, 3, 5)]
        if self.ticks and self.num_ticks < self.ticks:
            events.append(('tick', ))
            if self.meet:
                events += [('meet', (g, ), lag) for g in groups for lag in range(-3, 4)]
                if self.cancels:
                    events += [('cancel', lag) for lag in range(-2, 3)]
                if self.failures:
                    events += [('fail', g, None, lag) for g in groups for lag in range(-2, 3)]
        if self.stops:
            events.append(('stop', ))
        if self.cancels:
            events.append(('cancel', ))
            if self.cancels == 'lags':
                events += [('after', g, lag, 'cancel') for g in groups for lag in range(5)]
        if self.failures:
            events += [('fail', g) for g in groups]
            if self.failures == 'lags':
                events += [('after', g, lag, h) for g, h in itertools.permutations(groups, 2) for lag in range(5)]
                events += [('fail_cancel', g, lag) for g in groups for lag in range(5)]
            if self.failures in ('single', 'lags'):
                # one evaluation fails, the others of the same simplex are in progress
                events += [('fail', g, i) for g in groups for i in range(len(self.pending[g])) if len(self.pending[g]) > 1]
        return events

    def apply(self, event):
        """Let an event happen."""
        self.stats.transition()
        if self.on_event is not None:
            self.on_event(event)
        if event[0] == 'tick':
            self.num_ticks += 1
            self.log.append('tick')
            self.loop.advance()
        elif event[0] == 'stop':
            self.log.append('stop')
            raise Stop()
        elif event[0] == 'cancel':
            self.log.append('cancel')
            self.cancels = False
            self.cancelled = True
            if len(event) == 2:
                self.timer(event[1])
                self.later(1 + max(0, -event[1]), self.task.cancel)
            else:
                self.task.cancel()
        elif event[0] == 'fail':
            simplex = event[1]
            self.log.append('fail {}'.format(simplex))
            self.failed.append(simplex)
            if len(event) == 4:
                self.timer(event[3])
                self.later(1 + max(0, -event[3]), self.release, simplex, SearchFailure(simplex))
                self.failures = False
                self.activity += 1
                return
            if len(event) == 3:
                self.log.append('only evaluation {}'.format(event[2]))
                self.pending[simplex][event[2]][1].set_exception(SearchFailure(simplex))
            else:
                self.release(simplex, SearchFailure(simplex))
            self.failures = False
        elif event[0] == 'after':
            # a completion, and a cancellation or failure some iterations later
            self.undecided = event[1]
            done = [(event[1], self.deliver(event[1]))]
            if self.conform:
                self.advance_beliefs(done)
            self.log.append('{} iterations later: cancel or failure of {}'.format(event[2], event[3]))
            if event[3] == 'cancel':
                self.cancels = False
                self.later(event[2], self.cancel)
            else:
                self.failures = False
                self.failed.append(event[3])
                self.later(event[2], self.release, event[3], SearchFailure(event[3]))
        elif event[0] == 'fail_cancel':
            # cancelled while it ends because of a failure
            self.log.append('fail {}, and {} iterations later cancel'.format(event[1], event[2]))
            self.failures = False
            self.failed.append(event[1])
            self.release(event[1], SearchFailure(event[1]))
            self.later(event[2], self.cancel)
        else:
            release = self.release
            if event[0] == 'meet':
                self.timer(event[2])
                release = lambda simplex: self.later(1 + max(0, -event[2]), self.release, simplex)
            elif len(event) == 3:
                self.log.append('the second one {} iterations later'.format(event[2]))
            done = []
            for i, simplex in enumerate(event[1]):
                if i and len(event) == 3:
                    release = lambda simplex: self.later(event[2], self.release, simplex)
                done.append((simplex, self.deliver(simplex, release)))
            if self.conform:
                self.advance_beliefs(done)
        self.activity += 1

    def outcome(self, simplex):
        """Decide the values of the vertices of a simplex: {position: value}."""
        keys = [self.box.normalize(v) for v in simplex]
        if any(k in self.values for k in keys):
            options = [None]
        elif self.node_fn is not None:
            options = [self.node_fn(simplex)]
        elif self.num_nodes < self.max_nodes:
            options = [None] + [i for i in self.node_vertices if i < len(simplex)]
        else:
            options = [None]
        best = self.chooser.pick(options, 'outcome {}'.format(simplex))
        value = self.node_values[self.num_nodes % len(self.node_values)]
        for i, key in enumerate(keys):
            self.values.setdefault(key, value if i == best else 2. + i / 16.)
        if best is not None:
            self.num_nodes += 1
        return best

    def cancel(self):
        self.cancelled = 'late' if self.task.cancel() else False

    def timer(self, lag):
        """The save timer fires now or later."""
        self.num_ticks += 1
        self.log.append('save timer, relative to this: {}'.format(lag))
        self.later(max(0, lag), self.loop.advance)

    def later(self, num, fun, *args):
        """Call a function after a number of iterations of the event loop."""
        self.activity += 1
        if num:
            self.loop.call_soon(self.later, num - 1, fun, *args)
        else:
            fun(*args)

    def deliver(self, simplex, release=None):
        """Deliver the values for a simplex. Returns the node position or None."""
        best = self.outcome(simplex)
        vals = [self.values[self.box.normalize(v)] for v in simplex]
        idx = min(range(len(vals)), key=lambda i: vals[i])
        node = self.box.normalize(simplex[idx]) if vals[idx] < THRESHOLD else None
        self.delivered.append((simplex, self.box.normalize(simplex[idx]), vals[idx]))
        self.in_progress.discard(simplex)
        (release or self.release)(simplex)
        if simplex in self.hint.running:
            self.hint.complete(simplex, node)
            self.hint.pump()
        self.log.append('deliver {} -> {}'.format(simplex, 'node {}'.format(node) if node else 'no node'))
        if node is not None:
            self.register_refinement(node)
        return node

    def release(self, simplex, exc=None):
        futures = self.pending.pop(simplex)
        missing = list(simplex)
        for pos, fut in futures:
            missing.remove(pos)
            if not fut.done():
                if exc is not None:
                    fut.set_exception(exc)
                else:
                    fut.set_result(self.values[self.box.normalize(pos)])
        if missing:
            self.outstanding[simplex] = missing

    def advance_beliefs(self, done):
        new = []
        for model in self.beliefs:
            if len(done) == 1:
                model = model.copy()
                model.complete(*done[0])
                model.pump()
                new.append(model)
            else:
                # The order in which several completions take effect, and
                # whether new work is started in between, is left open.
                for order in itertools.permutations(done):
                    for between in (False, True):
                        cand = model.copy()
                        for item in order:
                            cand.complete(*item)
                            if between:
                                cand.pump()
                        cand.pump()
                        new.append(cand)
        self.beliefs = new

    # -- running
    def run(self, coro_fn):
        kind, val = run_controlled(self, coro_fn)
        if self.violation is not None:
            raise self.violation
        self.stats.trace()
        self.stats.evaluation()
        return kind, val

    # -- checks of the end state
    def final_results(self, result):
        return sorted(
            (tuple(float(x) for x in r.pos), float(r.value)) for r in result.minimization_results
        )

    def check_final(self, result, extra_results=()):
        """C08: everything minimized exactly once, the search ended when done."""
        expected = sorted(list(extra_results) + [(p, v) for _, p, v in self.delivered])
        require(
            self.final_results(result) == expected,
            'the results are not those of the minimizations which were run',
            results=self.final_results(result), expected=expected, log=self.log
        )
        require(
            not self.pending and not self.in_progress and not self.unmatched,
            'the search ended while minimizations were in progress', log=self.log
        )
        if self.conform:
            self.check_model_final(result)

    def check_model_final(self, result):
        refined = sorted(tuple(float(x) for x in p) for p in result.refined_results)
        if self.beliefs is None:
            model = self.model.copy()
            model.pump()
            self.beliefs = [model]
        matching = [
            m for m in self.beliefs
            if m.done and sorted(m.refined) == refined and sorted(m.finished) == sorted(self.started)
        ]
        require(
            matching, 'the search ended in a state which the rules do not allow', log=self.log,
            refined=refined, started=self.started,
            expected=[dict(running=m.running, queue=m.queue, skipped=m.skipped, nodes=m.nodes,
                           refined=m.refined, positions=m.posq) for m in self.beliefs]
        )
        for m in matching:
            self.stats.state(m.key())

    def check_coverage(self, result, *, separated):
        """C09: coverage and separation of the refined positions."""
        nodes = [tuple(float(x) for x in n.pos) for n in result.nodes]
        refined = [tuple(float(x) for x in p) for p in result.refined_results]
        if self.stencil is None:
            require(not refined, 'positions are marked as refined without refinement', log=self.log)
            return
        for pos in refined:
            require(pos in nodes, 'refined position {} is not a node'.format(pos), log=self.log, nodes=nodes)
        for node in nodes:
            if node in self.init_nodes:
                continue
            require(
                any(self.box.distance(node, r) < self.cutoff for r in refined),
                'node {} is not covered by a refined position'.format(node),
                log=self.log, refined=refined
            )
        if separated:
            for p, q in itertools.combinations(refined, 2):
                require(
                    self.box.distance(p, q) >= self.cutoff,
                    'refined positions {} and {} are too close'.format(p, q), log=self.log
                )
        # every simplex of the stencil was run or is justifiably skipped
        model = self.model.copy()
        model.nodes = nodes
        started = set(self.started)
        for pos in refined:
            if pos in self.model.refined:
                continue
            for simplex in model.stencil_at(pos):
                require(
                    simplex in started or model.near_vertices(simplex) > model.simplex_check,
                    'refinement simplex {} was neither minimized nor is it near known nodes'.format(simplex),
                    log=self.log, nodes=nodes
                )


class SearchFailure(Exception):
    """Raised by the potential."""


def some_values(cfg):
    """Values for the nodes of a configuration; different but fixed for each configuration."""
    offset = zlib.crc32(repr(sorted(cfg.items())).encode()) % 3
    return [(0., -1.5, 0.375)[(i + offset) % 3] for i in range(3)]


def search_kwargs(cfg, **kwargs):
    """Keyword arguments of nodefinder.search.run_async for a configuration."""
    res = dict(
        limits=[tuple(x) for x in cfg['limits']], periodic=cfg['periodic'],
        initial_mesh_size=tuple(cfg['mesh_size']),
        feature_size=3 * cfg['cutoff'], gap_threshold=THRESHOLD,
        refinement_stencil=None if cfg.get('stencil') is None else np.array(cfg['stencil']),
        nelder_mead_kwargs={'xtol': INF, 'ftol': INF},
        num_minimize_parallel=cfg['parallel'],
        recheck_pos_dist=cfg.get('recheck', True),
        recheck_count_cutoff=cfg.get('recheck_count', 0),
        simplex_check_cutoff=cfg.get('simplex_check', 0),
        save_delay=5.,
    )
    res.update(kwargs)
    return res


def make_world(cfg, chooser, stats, **kwargs):
    names = ('limits', 'periodic', 'mesh_size', 'cutoff', 'parallel', 'stencil', 'recheck',
             'recheck_count', 'simplex_check', 'max_nodes', 'node_vertices', 'pairs', 'ticks', 'stops', 'failures', 'node_values', 'max_events', 'conform', 'meet', 'slow')
    args = {name: cfg[name] for name in names if name in cfg}
    args['limits'] = [tuple(x) for x in args['limits']]
    args.update(kwargs)
    return SearchWorld(chooser, stats, **args)
