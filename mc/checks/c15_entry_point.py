"""
C15: the synchronous entry point in all calling contexts, for all kinds of
potentials, with the potential failing on each possible call. Every case runs
in a forked process with a deadline, as hanging is one of the possible failures.
"""
import asyncio
import os
import threading
import time

import numpy as np

from nodefinder import search

from ..child import in_child
from ..core import require, scratch_dir
from ..compare import canon_container
from ..search_world import INF

ID = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of calling contexts x kinds of potentials x fault points (failing call, exception), '
             'each executed on the real entry point in a separate process with a deadline')
RULE = ('A state is one combination of calling context, kind of potential, parallelism, index of the failing call and exception; the transitions are the '
        'evaluations of the potential; each one is executed, followed by a second search in the same context.')
BOUNDS = {
    'quick': '15 contexts, 4 kinds of potential, parallelism 1 and 3, failures at every call (up to 11) with 7 exceptions, errors of the arguments',
    'thorough': 'additionally parallelism 2 and 7, two dimensions, with a save file',
}
ASSUMPTIONS = [
    'the potential is deterministic and raises on one call only',
    'StopIteration and GeneratorExit are not raised by potentials (Python itself does not pass them through coroutines)',
]
CASE_LIMIT = 90.
DEADLINE = 25.


class CustomError(Exception):
    """Error with arguments of its own."""
    def __init__(self, one, two):
        super().__init__(one, two)
        self.one = one


class CustomBase(BaseException):
    """Not an Exception."""


EXCEPTIONS = {
    'ValueError': lambda: ValueError('failed'),
    'custom': lambda: CustomError(1, 'two'),
    'base': lambda: CustomBase('base'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('ki'),
    'SystemExit': lambda: SystemExit(3),
    'CancelledError': lambda: asyncio.CancelledError(),
    'Timeout': lambda: asyncio.TimeoutError('late'),
}
CONTEXTS = (
    'plain', 'idle_loop', 'after_asyncio_run', 'thread', 'thread_idle_loop', 'inside_loop', 'inside_task', 'inside_thread_loop',
    'nested', 'nested_async', 'nested_twice', 'nested_in_thread', 'two_threads', 'idle_loop_tasks', 'inside_set_loop'
)
POTENTIALS = ('sync', 'coroutine', 'coroutine_sleep', 'awaitable')


def cases(tier):
    for context in CONTEXTS:
        for pot in POTENTIALS:
            for parallel in (1, 3) + ((2, 7) if tier == 'thorough' else ()):
                for dim in (1, 2) if tier == 'thorough' else (1, ):
                    base = dict(context=context, potential=pot, parallel=parallel, dim=dim)
                    yield dict(base, fail=None, save=True)
                    yield dict(base, fail=None, save=False)
                    yield dict(base, fail='mesh', save=False)
                    yield dict(base, fail='load', save=True)
                    for exc in EXCEPTIONS:
                        if tier == 'quick' and pot == 'awaitable' and exc not in ('ValueError', 'base'):
                            continue
                        yield dict(base, fail=exc, save=False)
                        if tier == 'thorough':
                            yield dict(base, fail=exc, save=True)


class Potential:
    """The potential: counts its calls and fails on a given one."""
    def __init__(self, kind, fail_at=None, exc=None, hook=None):
        self.kind = kind
        self.fail_at = fail_at
        self.exc = exc
        self.calls = 0
        self.hook = hook
        self.function = getattr(self, kind)

    def value(self, x):
        return float(np.linalg.norm(np.array(x) - 0.25))

    def begin(self):
        self.calls += 1
        if self.hook is not None:
            self.hook(self.calls)
        return self.calls

    def end(self, idx):
        if self.fail_at is not None and idx == self.fail_at:
            raise self.exc

    def sync(self, x):
        self.end(self.begin())
        return self.value(x)

    async def coroutine(self, x):
        self.end(self.begin())
        return self.value(x)

    async def coroutine_sleep(self, x):
        idx = self.begin()
        await asyncio.sleep(0)
        self.end(idx)
        return self.value(x)

    def awaitable(self, x):
        idx = self.begin()
        fut = asyncio.get_event_loop().create_future()
        if self.fail_at is not None and idx == self.fail_at:
            fut.get_loop().call_soon(fut.set_exception, self.exc)
        else:
            fut.get_loop().call_soon(fut.set_result, self.value(x))
        return fut


def kwargs_for(case, save=None, **other):
    res = dict(
        limits=[(0, 1)] * case['dim'], periodic=True, initial_mesh_size=3 if case['dim'] == 1 else 2, gap_threshold=0.1, feature_size=0.3,
        refinement_stencil='auto' if case['dim'] == 1 else None, num_minimize_parallel=case['parallel'],
        nelder_mead_kwargs={'xtol': INF, 'ftol': INF}, save_file=save
    )
    res.update(other)
    return res


def in_context(context, call, after):
    """
    Call a function in the given context, returns ('result', ...) or ('error', exc).
    Functions which check the state of the context afterwards are added to ``after``.
    """
    def attempt():
        try:
            return ('result', call())
        except BaseException as exc:  # pylint: disable=broad-except
            return ('error', exc)

    async def attempt_in_loop():
        loop = asyncio.get_running_loop()
        res = attempt()
        await asyncio.sleep(0)
        assert asyncio.get_running_loop() is loop
        return res

    def in_thread(func):
        out = []
        thread = threading.Thread(target=lambda: out.append(func()), daemon=True)
        thread.start()
        thread.join()
        return out[0]

    def new_loop_run(coro_fn):
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            return loop.run_until_complete(coro_fn())
        finally:
            asyncio.set_event_loop(None)
            loop.close()

    if context == 'plain':
        return attempt
    if context == 'idle_loop':
        asyncio.set_event_loop(asyncio.new_event_loop())
        return attempt
    if context == 'idle_loop_tasks':
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        future = loop.create_future()

        async def wait(aw, value):
            await aw
            return value

        # one which has not started, one which has already started
        tasks = [loop.create_task(wait(future, 'a')), loop.create_task(wait(asyncio.sleep(0.001), 'b')), loop.create_task(wait(future, 'c'))]
        loop.run_until_complete(asyncio.sleep(0))
        tasks.append(loop.create_task(wait(future, 'd')))

        def check():
            if asyncio.get_event_loop() is not loop:
                return 'another event loop is set'
            if loop.is_closed() or loop.is_running():
                return 'the event loop is closed or running'
            if any(task.cancelled() for task in tasks):
                return 'other tasks of the loop are cancelled'
            future.set_result(None)
            res = loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
            return None if res == ['a', 'b', 'c', 'd'] else 'other tasks of the loop end with {!r}'.format(res)
        after.append(check)
        return attempt
    if context == 'inside_set_loop':
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)

        def check():
            try:
                if asyncio.get_event_loop_policy().get_event_loop() is not loop:
                    return 'another event loop is set'
            except RuntimeError as exc:
                return 'no event loop is set any more: {}'.format(exc)
            return 'the event loop is closed' if loop.is_closed() else None
        after.append(check)
        return lambda: loop.run_until_complete(attempt_in_loop())
    if context == 'after_asyncio_run':
        async def nothing():
            await asyncio.sleep(0)
        asyncio.run(nothing())
        return attempt
    if context == 'thread':
        return lambda: in_thread(attempt)
    if context == 'thread_idle_loop':
        def with_loop():
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                return attempt()
            finally:
                assert not loop.is_closed() and not loop.is_running()
                loop.close()
        return lambda: in_thread(with_loop)
    if context == 'inside_loop':
        return lambda: asyncio.run(attempt_in_loop())
    if context == 'inside_task':
        async def with_tasks():
            ticks = []

            async def other():
                while len(ticks) < 5:
                    ticks.append(1)
                    await asyncio.sleep(0)
            task = asyncio.ensure_future(other())
            await asyncio.sleep(0)
            res = await asyncio.ensure_future(attempt_in_loop())
            await task
            return res
        return lambda: asyncio.run(with_tasks())
    if context == 'inside_thread_loop':
        return lambda: in_thread(lambda: new_loop_run(attempt_in_loop))
    raise ValueError(context)


def scenario(case, fail_at, path):
    """Runs in the child process. Returns plain data describing what happened."""
    exc = EXCEPTIONS[case['fail']]() if case['fail'] in EXCEPTIONS else None
    context = case['context']
    save = path if case['save'] else None
    out = dict(threads=threading.active_count())

    def search_once(pot, **other):
        return search.run(pot.function, **kwargs_for(case, save=save, **other))

    def describe(kind, val):
        if kind == 'result':
            return ('result', canon_container(val))
        return ('error', type(val).__name__, repr(val.args), val is exc)

    extra = {}
    if case['fail'] == 'mesh':
        extra = dict(initial_mesh_size=(2, ) * (case['dim'] + 1))
    elif case['fail'] == 'load':
        extra = dict(load=True, load_quiet=False)

    pots = []
    after = []

    def first():
        pots.append(Potential(case['potential'], fail_at, exc))
        return search_once(pots[-1], **extra)

    def second():
        pots.append(Potential(case['potential']))
        return search_once(pots[-1])

    if context.startswith('nested'):
        inner_out = []

        def outer(func):
            """A search whose potential runs the inner search on its second call."""
            def hook(idx):
                if idx == 2:
                    if context == 'nested_twice':
                        # a search in a search in a search
                        def hook2(idx2):
                            if idx2 == 2:
                                inner_out.append(func())
                        search.run(Potential('sync', hook=hook2).function, **kwargs_for(case))
                    else:
                        inner_out.append(func())
            kind = 'coroutine_sleep' if context == 'nested_async' else 'sync'
            pot = Potential(kind, hook=hook)
            outer_result = search.run(pot.function, **kwargs_for(case))
            out['outer'] = canon_container(outer_result)
            return inner_out.pop()

        attempt1 = in_context('thread' if context == 'nested_in_thread' else 'plain', lambda: outer(first), after)
        attempt2 = in_context('thread' if context == 'nested_in_thread' else 'plain', lambda: outer(second), after)
    elif context == 'two_threads':
        def both(func, results):
            def target():
                try:
                    results.append(('result', func()))
                except BaseException as err:  # pylint: disable=broad-except
                    results.append(('error', err))
            other = Potential(case['potential'])
            other_res = []
            threads = [
                threading.Thread(target=target, daemon=True),
                threading.Thread(target=lambda: other_res.append(search.run(other.function, **kwargs_for(case))), daemon=True)
            ]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join()
            out['outer'] = canon_container(other_res[0])
            return results[0]
        attempt1 = lambda: both(first, [])
        attempt2 = lambda: both(second, [])
    else:
        attempt1 = in_context(context, first, after)
        attempt2 = None

    out['first'] = describe(*attempt1())
    out['calls'] = pots[0].calls if pots else 0
    if save and os.path.exists(save) and case['fail'] is None:
        from nodefinder import io
        out['saved'] = canon_container(io.load(save).result)
    if attempt2 is None:
        # the same context, not a new one
        def again():
            return second()
        if context in ('plain', 'idle_loop', 'after_asyncio_run', 'idle_loop_tasks'):
            try:
                res = ('result', again())
            except BaseException as err:  # pylint: disable=broad-except
                res = ('error', err)
        else:
            res = in_context(context, again, after)()
    else:
        res = attempt2()
    out['second'] = describe(*res)
    # the loop of the first search, unless another one was set in between
    out['after'] = after[-1]() if after else None
    deadline = time.time() + 2
    while threading.active_count() > out['threads'] and time.time() < deadline:
        time.sleep(0.01)
    out['threads'] = threading.active_count() - out['threads']
    return out


_REFERENCE = {}


def reference(case):
    """Result of the asynchronous search, and the number of evaluations."""
    key = (case['potential'], case['parallel'], case['dim'])
    if key not in _REFERENCE:
        def func():
            pot = Potential(case['potential'])
            res = asyncio.run(search.run_async(pot.function, **kwargs_for(case)))
            return canon_container(res), pot.calls
        kind, val = in_child(func, DEADLINE)
        require(kind == 'ok', 'the asynchronous search does not work: {} {}'.format(kind, val))
        _REFERENCE[key] = val
    return _REFERENCE[key]


def run(case, stats):
    stats.sample(case)
    expected, num_calls = reference(case)
    fault_points = range(1, num_calls + 1) if case['fail'] in EXCEPTIONS else [None]
    for fail_at in fault_points:
        if 'fail_at' in case and case['fail_at'] != fail_at:
            continue
        run_fault(case, stats, expected, num_calls, fail_at)


def run_fault(case, stats, expected, num_calls, fail_at):
    path = os.path.join(scratch_dir(), 'c15.hdf5')
    if os.path.exists(path):
        os.remove(path)
    kind, out = in_child(lambda: scenario(case, fail_at, path), DEADLINE)
    where = dict(fail_at=fail_at)
    require(kind != 'hang', 'the call hangs (failing call: {})'.format(fail_at), **where)
    require(kind == 'ok', 'the call did not return or raise in its context: {} {}'.format(kind, out), **where)
    stats.trace()
    stats.state((sorted(case.items()), fail_at))
    stats.transition(out['calls'])
    first = out['first']
    stats.outcome((first[0], first[1] if first[0] == 'error' else None, out['calls']))
    if case['fail'] is None:
        require(first[0] == 'result', 'the search raised {}'.format(first[1:]), **where)
        require(first[1] == expected, 'the result is not the one of the asynchronous search', **where)
        require(out['calls'] == num_calls, 'wrong number of evaluations', **where)
        if case['save']:
            require(out.get('saved') == expected, 'the save file does not hold the result', **where)
    else:
        require(first[0] == 'error', 'no exception is raised, although {} failed'.format(fail_at or case['fail']), **where)
        if case['fail'] == 'mesh':
            require(first[1] == 'ValueError', 'expected ValueError, got {}'.format(first[1:]), **where)
        elif case['fail'] == 'load':
            require(first[1] in ('OSError', 'FileNotFoundError'), 'expected the read error, got {}'.format(first[1:]), **where)
        else:
            want = EXCEPTIONS[case['fail']]()
            require(first[1:3] == (type(want).__name__, repr(want.args)),
                    'the caller receives {} instead of the exception of the potential'.format(first[1:]), **where)
    require(out['second'] == ('result', expected), 'a second search in the same context gives {}'.format(out['second'][:2] if out['second'][0] == 'error' else 'another result'), **where)
    require(out['after'] is None, 'after the search: {}'.format(out['after']), **where)
    if 'outer' in out:
        ref, _ = reference(dict(case, potential='coroutine_sleep' if case['context'] == 'nested_async' else case['potential'] if case['context'] == 'two_threads' else 'sync'))
        require(out['outer'] == ref, 'the surrounding search gives another result', **where)
    require(out['threads'] <= 0, '{} threads are left behind'.format(out['threads']), **where)


def finish(stats, tier):
    assert len(stats.sets['outcomes']) > 20, 'vacuous exploration'
