"""
Reference model of the Nelder-Mead minimization, as a nondeterministic state
machine: where values are equal, all orders of the vertices are allowed, and
where several points are evaluated together, any order of evaluation.

Positions are tuples of floats; all arithmetic is done on tuples.
"""
import itertools
import math

INF = float('inf')
TOL = 1e-9


def close(p, q, scale):
    return all(abs(x - y) <= TOL * max(scale, abs(x)) for x, y in zip(p, q))


def comb(*terms):
    """Linear combination of positions: comb((factor, pos), ...)."""
    return tuple(sum(f * p[i] for f, p in terms) for i in range(len(terms[0][1])))


def orders(simplex):
    """
    All orders of the (position, value) pairs with ascending value. Vertices
    which are the same are not exchanged.
    """
    simplex = sorted(simplex, key=lambda pv: pv[1])
    groups = [list(g) for _, g in itertools.groupby(simplex, key=lambda pv: pv[1])]
    perms = []
    for group in groups:
        perms.append(sorted(set(itertools.permutations(group))))
    for choice in itertools.product(*perms):
        yield tuple(pv for group in choice for pv in group)


def canonical_level(simplex):
    return tuple(sorted(simplex, key=lambda pv: (pv[1], pv[0])))


class Options:
    """Stopping options of a minimization."""
    def __init__(self, dim, xtol, ftol, maxiter=None, maxfev=None, fprime_cutoff=None):
        self.dim = dim
        self.xtol = xtol
        self.ftol = ftol
        self.maxiter = 200 * dim if maxiter is None else maxiter
        self.maxfev = 200 * dim if maxfev is None else maxfev
        self.fprime_cutoff = fprime_cutoff

    def verdict(self, simplex, num_fev, num_iter):
        """None (continue) or the status with which the minimization stops."""
        if num_fev >= self.maxfev:
            return 1
        if num_iter >= self.maxiter:
            return 2
        pos = [p for p, _ in simplex]
        val = [v for _, v in simplex]
        if self.fprime_cutoff is not None:
            edge = max(math.dist(p, q) for p, q in itertools.combinations(pos, 2))
            estimate = val[0] / edge if edge else (INF if val[0] > 0 else math.nan if val[0] == 0 else -INF)
            if estimate > self.fprime_cutoff:
                return 3
        extent = max(abs(x - y) for p in pos[1:] for x, y in zip(p, pos[0]))
        if extent <= self.xtol:
            spreads = [abs(v - val[0]) for v in val[1:]]  # inf - inf: not within the tolerance
            if all(not math.isnan(s) and s <= self.ftol for s in spreads):
                return 0
        return None


class State:
    """
    One possible state. ``simplex`` is sorted, ``pending`` are the points which
    have to be evaluated next (in any order), ``got`` those which are done.
    """
    __slots__ = ('opt', 'simplex', 'phase', 'pending', 'got', 'num_fev', 'num_iter', 'past', 'past_hash', 'status', 'fxr', 'xr')

    def __init__(self, opt):
        self.opt = opt
        self.status = None
        self.fxr = self.xr = None

    def copy(self, **changes):
        new = State(self.opt)
        for name in self.__slots__[1:]:
            setattr(new, name, changes.get(name, getattr(self, name)))
        return new

    def key(self):
        return (self.simplex, self.phase, self.pending, self.got, self.num_fev, self.num_iter, self.status, self.fxr, self.past_hash)

    @property
    def history(self):
        """The simplices up to now, vertices with equal values in order of their position."""
        res = []
        past = self.past
        while past is not None:
            past, level = past
            res.append(level)
        return res[::-1]

    @property
    def done(self):
        return self.status is not None


def start(opt, simplex):
    """The state before anything is evaluated."""
    state = State(opt)
    state.simplex = ()
    state.phase = 'initial'
    state.pending = tuple(tuple(float(x) for x in p) for p in simplex)
    state.got = ()
    state.num_fev = 0
    state.num_iter = 1
    state.past = None
    state.past_hash = 0
    return state


def sorted_states(state, simplex, num_iter):
    """The simplex is complete: sort it, and decide whether to continue."""
    res = []
    level = canonical_level(simplex)
    past = (state.past, level)
    past_hash = hash((state.past_hash, level))
    for ordered in orders(simplex):
        new = state.copy(simplex=ordered, num_iter=num_iter, past=past, past_hash=past_hash, got=(), pending=(), phase=None, fxr=None, xr=None)
        new.status = state.opt.verdict(ordered, new.num_fev, new.num_iter)
        if new.status is None:
            n = state.opt.dim
            xbar = comb(*[(1 / n, p) for p, _ in ordered[:-1]])
            new.phase = 'reflect'
            new.pending = (comb((2, xbar), (-1, ordered[-1][0])), )
        res.append(new)
    return res


def feed(state, pos, value, scale):
    """All states which follow when the value at ``pos`` becomes known."""
    res = []
    if state.done:
        return res
    tried = set()
    for i, want in enumerate(state.pending):
        if want in tried or not close(pos, want, scale):
            continue
        tried.add(want)
        base = state.copy(num_fev=state.num_fev + 1)
        res.extend(_advance(base, i, pos, value))
    return res


def _advance(state, i, pos, value):
    opt = state.opt
    sim = state.simplex
    worst = sim[-1] if sim else None
    n = opt.dim
    phase = state.phase
    if phase in ('initial', 'shrink'):
        got = state.got + ((pos, value), )
        pending = state.pending[:i] + state.pending[i + 1:]
        if pending:
            return [state.copy(got=got, pending=pending)]
        if phase == 'initial':
            return sorted_states(state, got, 1)
        return sorted_states(state, (sim[0], ) + got, state.num_iter + 1)

    def replace(new):
        return sorted_states(state, sim[:-1] + (new, ), state.num_iter + 1)

    def shrink():
        pts = tuple(comb((.5, sim[0][0]), (.5, p)) for p, _ in sim[1:])
        return [state.copy(phase='shrink', pending=pts, got=(), fxr=None, xr=None)]

    xbar = comb(*[(1 / n, p) for p, _ in sim[:-1]])
    if phase == 'reflect':
        if value < sim[0][1]:
            return [state.copy(phase='expand', xr=pos, fxr=value, pending=(comb((3, xbar), (-2, worst[0])), ))]
        if value < sim[-2][1]:
            return replace((pos, value))
        if value < worst[1]:
            return [state.copy(phase='outside', xr=pos, fxr=value, pending=(comb((1.5, xbar), (-.5, worst[0])), ))]
        return [state.copy(phase='inside', xr=pos, fxr=value, pending=(comb((.5, xbar), (.5, worst[0])), ))]
    if phase == 'expand':
        return replace((pos, value) if value < state.fxr else (state.xr, state.fxr))
    if phase == 'outside':
        return replace((pos, value)) if value <= state.fxr else shrink()
    assert phase == 'inside'
    return replace((pos, value)) if value < worst[1] else shrink()


class Tracker:
    """Follows one minimization: the set of the possible states."""
    def __init__(self, opt, simplex, scale=None):
        self.opt = opt
        self.scale = scale or max([1.] + [abs(x) for p in simplex for x in p])
        self.states = [start(opt, simplex)]
        self.log = []

    def feed(self, pos, value):
        """Returns False if no state allows this evaluation."""
        pos = tuple(float(x) for x in pos)
        self.log.append((pos, value))
        new = {}
        for state in self.states:
            for nxt in feed(state, pos, value, self.scale):
                new[nxt.key()] = nxt
        expected = [(s.phase, s.pending, s.status) for s in self.states]
        self.states = list(new.values())
        self.expected = expected
        return bool(self.states)

    def would_accept(self, pos):
        pos = tuple(float(x) for x in pos)
        return any(close(pos, want, self.scale) for s in self.states if not s.done for want in s.pending)

    def finished(self):
        return [s for s in self.states if s.done]

    def any_open(self):
        return [s for s in self.states if not s.done]
