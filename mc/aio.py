"""
A controlled asyncio event loop: virtual time, and the environment (completion of
evaluations, timers, stops) only acts when the explorer decides so.
"""
import asyncio

from .core import Violation


class Stop(BaseException):
    """Raised out of the loop when the explorer stops (crashes) the run."""


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        self.loop.on_select(timeout)
        return []

    def close(self):
        pass


class ControlledLoop(asyncio.BaseEventLoop):
    """
    Event loop whose only sources of events are ready callbacks and the world
    object, which is asked for the next event when nothing happens anymore.

    The world needs the methods ``decide()`` (called when the system is settled;
    must deliver at least one event or raise) and an ``activity`` counter, which
    changes whenever the code under test does something observable.
    """
    SETTLE = 30  # iterations without activity until the system is settled
    MAX_BLOCKED = 10000

    def __init__(self, world=None):
        super().__init__()
        self._selector = _Selector(self)
        self.world = world
        self.vtime = 0.
        self.idle = 0
        self.last_activity = None
        self.iterations = 0
        self.auto_advance = 1e-1
        self.num_blocked = 0
        self.set_exception_handler(lambda *_: None)

    # -- parts of the event loop which depend on the operating system
    def time(self):
        return self.vtime

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    # -- control
    def pending_timers(self):
        return sorted(h.when() for h in self._scheduled if not h.cancelled())

    def advance(self):
        """Advance the time to the next timer; returns False if there is none."""
        timers = self.pending_timers()
        if not timers:
            return False
        self.vtime = max(self.vtime, timers[0])
        return True

    def on_select(self, timeout):
        world = self.world
        if world is None:
            if timeout is None:
                raise Violation('deadlock: the event loop waits forever')
            if timeout > 0:
                self.advance()
            return
        self.iterations += 1
        if world.activity != self.last_activity:
            self.last_activity = world.activity
            self.idle = 0
            self.num_blocked = 0
        else:
            self.idle += 1
        blocked = timeout is None or timeout > 0
        if blocked:
            # nothing is ready: short timers belong to polling of the code
            timers = self.pending_timers()
            if timers and timers[0] - self.vtime <= self.auto_advance:
                self.num_blocked += 1
                if self.num_blocked <= self.SETTLE:
                    self.advance()
                    return
        if blocked or self.idle >= self.SETTLE:
            self.idle = 0
            self.num_blocked = 0
            world.decide()


def run_controlled(world, coro_fn):
    """
    Run a coroutine on a controlled loop. Returns ('result', value),
    ('stopped', None) or ('exception', exc).
    """
    loop = ControlledLoop(world)
    world.loop = loop
    asyncio.set_event_loop(loop)
    try:
        try:
            return 'result', loop.run_until_complete(coro_fn())
        except Stop:
            return 'stopped', None
        except Violation:
            raise
        except (Exception, asyncio.CancelledError) as exc:  # pylint: disable=broad-except
            return 'exception', exc
    finally:
        asyncio.set_event_loop(None)
        loop.world = None
        if not loop.is_running():
            # Tasks are abandoned as they are; nothing of the code under test
            # is allowed to run anymore.
            loop._ready.clear()
            loop._scheduled.clear()
            loop.close()


class PlainWorld:
    """World without external events: a search which only uses the loop."""
    def __init__(self, max_idle=300):
        self.activity = 0
        self.idle = 0
        self.max_idle = max_idle
        self.last = None
        self.loop = None

    def decide(self):
        if self.activity != self.last:
            self.last = self.activity
            self.idle = 0
        self.idle += 1
        if self.loop.pending_timers() and self.idle % 10 == 0:
            self.loop.advance()
        if self.idle > self.max_idle:
            raise Violation('the search neither ends nor evaluates anything')


def run_plain(coro_fn, world=None):
    """Run a coroutine to its end on a controlled loop; raises its exception."""
    world = world or PlainWorld()
    kind, val = run_controlled(world, coro_fn)
    if kind == 'exception':
        raise val
    return val
