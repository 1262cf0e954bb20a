"""
Core of the model checker: violations, statistics, the choice tree explorer and
small helpers shared by the checks.
"""
import hashlib
import json
import os
import shutil
import signal
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NODEFINDER_REPO', '/repo')


class Violation(Exception):
    """The property does not hold for the current case.

    ``key`` identifies the specific failing input / call site, for comparison
    with the known findings.
    """
    def __init__(self, message, key=None, **detail):
        super().__init__(message)
        self.message = message
        self.key = key
        self.detail = detail
        self.schedule = None


class Divergence(Exception):
    """Replaying a recorded prefix did not give the same choice points."""


class Hang(KeyboardInterrupt):
    """The time limit of a case ran out (checked by SIGALRM)."""


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode()
    return int.from_bytes(
        hashlib.blake2b(obj, digest_size=8).digest(), 'big'
    )


class Stats:
    """What a run covered. Merged over the worker processes."""
    def __init__(self):
        self.counts = {}
        self.sets = {}
        self.samples = []
        self.known = {}

    def add(self, name, num=1):
        self.counts[name] = self.counts.get(name, 0) + num

    def seen(self, name, obj):
        """Add to a set of distinct objects; returns if it was new (in this worker)."""
        group = self.sets.setdefault(name, set())
        key = digest(obj)
        if key in group:
            return False
        group.add(key)
        return True

    # the vocabulary used by the checks
    def evaluation(self, num=1):
        self.add('evaluations', num)

    def nontrivial(self, obj):
        return self.seen('distinct_nontrivial', obj)

    def state(self, obj):
        return self.seen('states', obj)

    def transition(self, num=1):
        self.add('transitions', num)

    def trace(self, num=1):
        self.add('traces', num)

    def outcome(self, obj):
        return self.seen('outcomes', obj)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def merge(self, other):
        for key, val in other.counts.items():
            self.add(key, val)
        for key, val in other.sets.items():
            self.sets.setdefault(key, set()).update(val)
        self.samples.extend(other.samples)
        for key, val in other.known.items():
            self.known.setdefault(key, val)


class Chooser:
    """Resolves the choices of one execution: replay a prefix, then take 0."""
    def __init__(self, prefix=(), bound=None):
        self.prefix = list(prefix)
        self.points = []  # (label, n, costs, choice)
        self.cost = 0
        self.bound = bound

    def choose(self, n, label='', costs=None):
        """
        Choose one of n alternatives. ``costs`` are the deviations which each
        alternative costs (default: 0 for the first, 1 for the others).
        """
        assert n > 0
        if costs is None:
            costs = [0] + [1] * (n - 1)
        pos = len(self.points)
        if pos < len(self.prefix):
            want = self.prefix[pos]
            choice = want[0] if isinstance(want, (list, tuple)) else want
            if isinstance(want, (list, tuple)):
                _, want_n, want_label = want
                if want_n != n or want_label != label:
                    raise Divergence(
                        'choice {}: expected {} of {}, found {} of {}'.format(
                            pos, want_label, want_n, label, n
                        )
                    )
            if not 0 <= choice < n:
                raise Divergence(
                    'choice {}: {} is not in range({})'.format(pos, choice, n)
                )
        else:
            choice = 0
        self.points.append((label, n, costs, choice))
        self.cost += costs[choice]
        return choice

    def pick(self, options, label='', costs=None):
        return options[self.choose(len(options), label, costs)]

    @property
    def choices(self):
        return [p[3] for p in self.points]

    def recorded(self):
        return [[p[3], p[1], p[0]] for p in self.points]


def explore(run_one, stats, bound=None, prefix=(), limit=None):
    """
    Enumerate all executions of ``run_one(chooser)`` which deviate at most
    ``bound`` times (None: all executions).
    """
    stack = [[list(p) if isinstance(p, tuple) else p for p in prefix]]
    num = 0
    while stack:
        pre = stack.pop()
        chooser = Chooser(pre, bound)
        try:
            run_one(chooser)
        except Divergence:
            raise
        except BaseException as exc:
            if not isinstance(exc, Violation):
                if isinstance(exc, Hang):
                    raise
                import traceback
                exc = Violation(
                    'unexpected {}: {}'.format(type(exc).__name__, exc),
                    traceback=traceback.format_exc()
                )
            exc.schedule = chooser.recorded()
            raise exc
        if len(chooser.points) < len(pre):
            raise Divergence(
                'execution ended after {} of {} recorded choices'.format(
                    len(chooser.points), len(pre)
                )
            )
        num += 1
        stats.add('executions')
        stats.add('choice_points', len(chooser.points) - len(pre))
        if limit is not None and num >= limit and stack:
            stats.add('capped_trees')
            return num
        rec = chooser.recorded()
        cost = 0
        for i, (label, n, costs, choice) in enumerate(chooser.points):
            if i >= len(pre):
                for alt in range(n - 1, 0, -1):
                    if bound is None or cost + costs[alt] <= bound:
                        stack.append(rec[:i] + [[alt, n, label]])
            cost += costs[choice]
    return num


class PatternChooser(Chooser):
    """
    Resolves the choices of one long execution by a fixed pattern: which of the
    pending minimizations completes next (``order``: first, last, middle or a stride),
    every how many completions there is a node, and special events at given positions.
    """
    def __init__(self, order='first', node_period=0, at=None):
        super().__init__()
        self.order = order
        self.node_period = node_period
        self.at = dict(at or {})  # number of the event -> kind
        self.num_events = 0
        self.num_outcomes = 0

    def pick(self, options, label='', costs=None):
        idx = 0
        if label == 'event':
            kind = self.at.get(self.num_events, 'deliver')
            fitting = [i for i, o in enumerate(options) if o[0] == kind] or [i for i, o in enumerate(options) if o[0] == 'deliver']
            idx = fitting[self.position(len(fitting))]
            self.num_events += 1
        elif label.startswith('outcome'):
            if len(options) > 1:
                self.num_outcomes += 1
                if self.node_period and self.num_outcomes % self.node_period == 0:
                    idx = 1 + self.num_outcomes // self.node_period % (len(options) - 1)
        self.points.append((label, len(options), [0] * len(options), idx))
        return options[idx]

    def position(self, num):
        if self.order == 'first':
            return 0
        if self.order == 'last':
            return num - 1
        if self.order == 'middle':
            return num // 2
        return self.num_events * int(self.order) % num


def explore_pattern(case, run_one, stats):
    """A single long execution, with the choices given by the pattern (or recorded schedule) of the case."""
    if 'schedule' in case:
        return explore_case(case, run_one, stats)
    chooser = PatternChooser(**{k: {int(i): v for i, v in v.items()} if k == 'at' else v for k, v in case['pattern'].items()})
    try:
        run_one(chooser)
    except Violation as exc:
        exc.schedule = chooser.recorded()
        raise
    stats.add('executions')
    stats.add('choice_points', len(chooser.points))
    return 1


def explore_case(case, run_one, stats, bound=None, limit=None):
    """As explore, but replays only the schedule given in the case, if any."""
    if 'schedule' in case:
        chooser = Chooser(case['schedule'])
        try:
            run_one(chooser)
        except Violation as exc:
            exc.schedule = chooser.recorded()
            raise
        return 1
    return explore(run_one, stats, bound=bound, limit=limit)


class Alarm:
    """Raises Hang when the body takes longer than the limit."""
    def __init__(self, seconds):
        self.seconds = seconds

    def _handler(self, *_):
        raise Hang('no answer within {} s'.format(self.seconds))

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


_SCRATCH = []


def scratch_dir():
    """A per-process scratch directory, removed by cleanup_scratch."""
    if not _SCRATCH or _SCRATCH[0][0] != os.getpid():
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        path = tempfile.mkdtemp(prefix='nfmc_', dir=base)
        _SCRATCH[:] = [(os.getpid(), path)]
    return _SCRATCH[0][1]


def cleanup_scratch():
    if _SCRATCH and _SCRATCH[0][0] == os.getpid():
        path = _SCRATCH[0][1]
        if os.path.basename(path).startswith('nfmc_'):
            shutil.rmtree(path, ignore_errors=True)
        _SCRATCH.clear()


def require(cond, message, key=None, **detail):
    if not cond:
        raise Violation(message, key=key, **detail)


def jsonable(obj):
    """Best effort conversion for the replay and evidence files."""
    try:
        import numpy as np
    except ImportError:
        np = None
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in obj]
    if np is not None:
        if isinstance(obj, np.ndarray):
            return jsonable(obj.tolist())
        if isinstance(obj, np.generic):
            return jsonable(obj.item())
    if isinstance(obj, float) and (obj != obj or obj in (float('inf'), -float('inf'))):
        return repr(obj)
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


def decode(obj):
    """Inverse of jsonable for cases: restores inf / nan."""
    if isinstance(obj, dict):
        return {k: decode(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [decode(v) for v in obj]
    if obj in ('inf', '-inf', 'nan'):
        return float(obj)
    return obj
