"""
C26: breadth-first search over the operation sequences of the work queues, real
objects against a list-and-set reference model.
"""
import itertools
import os
from collections import deque

import h5py
import numpy as np
from fsc import hdf5_io

from ..core import require, Violation, scratch_dir
from ..impl import SimplexQueue, PositionQueue
from ..search_world import norm_simplex

ID = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state breadth-first search over operation sequences on the real queues (fresh object and replay per transition), list-and-set reference model'
RULE = ('A transition replays an operation history (construct / add / add many with duplicates and permuted vertices / pop / finish / mark saved / store and '
        'reload) on a fresh real queue; a state is the canonical model state (waiting order, in progress, known, changed flag).')
BOUNDS = {
    'quick': '3 simplices (each in two vertex orders) in one to three dimensions, all operation sequences up to length 7 modulo equal states; positions likewise; fixed histories with up to 2600 objects',
    'thorough': '4 simplices, sequences up to length 9 modulo equal states; fixed histories with up to 9000 objects',
}
ASSUMPTIONS = ['equal model states have equal futures (the model contains everything that determines the answers)']

SIMPLICES = {
    1: [[[0.], [1.]], [[2.], [1.]], [[-1.], [0.5]], [[1.], [3.]]],
    2: [[[0., 0.], [1., 0.], [0., 1.]], [[0., 0.], [0., 1.], [2., 2.]], [[1., 0.], [0., 0.], [0.5, -1.]], [[3., 0.], [0., 3.], [0., 0.]]],
    3: [[[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
        [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 2.]],
        [[1., 0., 0.], [0., 0., 0.], [0., 0., 1.], [0., -1., 0.]],
        [[1., 1., 1.], [0., 0., 0.], [0., 0., 1.], [0., -1., 0.]]],
}
POSITIONS = {1: [[0.], [1.], [-0.], [0.5]], 2: [[0., 1.], [1., 0.], [0., 0.], [2., 1.]], 3: [[0., 1., 2.], [2., 1., 0.], [0., 0., 0.], [1., 1., 1.]]}


def cases(tier):
    thorough = tier == 'thorough'
    num = 4 if thorough else 3
    depth = 9 if thorough else 7
    for kind in ('simplex', 'position'):
        for dim in (1, 2, 3):
            for start in [[], [0], [0, 1], [1, 0, 1], [2, 1, 0]]:
                yield dict(kind=kind, dim=dim, start=start, num=num, depth=depth)
    for kind in ('simplex', 'position'):
        for dim in (1, 2, 3):
            for num in (10, 11, 12, 16, 17, 25, 33, 60, 130, 700, 2600) + ((9000, ) if thorough else ()):
                for chunk in sorted({1, 7, 100, num}) if num < 1000 or thorough else (100, num):
                    if chunk <= num and (num < 8000 or chunk > 1):
                        yield dict(kind='large', of=kind, dim=dim, num=num, chunk=chunk)


class Model:
    def __init__(self, objects):
        self.waiting = list(dict.fromkeys(objects))
        self.known = set(self.waiting)
        self.running = []
        self.changed = True
        # after a reload, the order of those which were in progress is open
        self.open_order = 0

    def key(self):
        return (tuple(self.waiting), tuple(sorted(self.running)), tuple(sorted(self.known)), self.changed, self.open_order)


def run(case, stats):
    stats.sample(case)
    if case['kind'] == 'large':
        run_large(case, stats)
        return
    is_simplex = case['kind'] == 'simplex'
    pool = (SIMPLICES if is_simplex else POSITIONS)[case['dim']][:case['num']]
    cls = SimplexQueue if is_simplex else PositionQueue
    norm = norm_simplex if is_simplex else (lambda p: tuple(float(x) for x in p))
    path = os.path.join(scratch_dir(), 'queue.hdf5')
    plain = [norm(o) for o in pool]

    def variants(idx):
        obj = pool[idx]
        res = [np.array(obj)]
        if is_simplex:
            res.append([tuple(v) for v in reversed(obj)])
        else:
            res.append(tuple(obj))
        return res

    adds = [[(i, k)] for i in range(len(pool)) for k in (0, 1)]
    adds += [[(0, 0), (0, 1)], [(1, 0), (2, 1), (1, 1)], [(2, 0), (0, 0)], []]
    if is_simplex:
        adds.append([(0, 0), (1, 0), (2, 0)])

    def enabled(model):
        for add in adds:
            yield ('add', add)
        yield ('pop', )
        if is_simplex:
            for obj in model.running:
                yield ('finish', obj)
        yield ('saved', )
        yield ('reload', )

    def observe(obj, model, hist):
        def need(cond, message):
            require(cond, message, history=hist, model=model.key(), objects=repr(obj.objects))
        need(obj.has_queued == bool(model.waiting), 'wrong answer whether something is waiting')
        if is_simplex:
            need(obj.num_running == len(model.running), 'wrong number of objects in progress')
            need(obj.finished == (not model.waiting and not model.running), 'wrong answer whether the queue is finished')
        objects = [norm(o) for o in obj.objects]
        head = objects[:len(model.running)]
        need(sorted(head) == sorted(model.running), 'objects in progress are not listed first')
        tail = objects[len(model.running):]
        if model.open_order:
            need(sorted(tail[:model.open_order]) == sorted(model.waiting[:model.open_order]), 'wrong objects waiting')
            model.waiting[:model.open_order] = tail[:model.open_order]
            model.open_order = 0
        need(tail == model.waiting, 'wrong objects waiting, or wrong order')
        need(obj.needs_saving or not model.changed, 'a change is not reported')

    def apply(obj, model, op, hist):
        if op[0] == 'add':
            obj.add_objects([variants(i)[k] for i, k in op[1]])
            for i, _ in op[1]:
                if plain[i] not in model.known:
                    model.known.add(plain[i])
                    model.waiting.append(plain[i])
                    model.changed = True
        elif op[0] == 'pop':
            if model.waiting:
                res = obj.pop_queued()
                want = model.waiting.pop(0)
                require(norm(res) == want, 'wrong object handed out', got=res, want=want, history=hist)
                if is_simplex:
                    model.running.append(want)
                else:
                    # positions are finished once they were handed out
                    model.changed = True
            else:
                try:
                    obj.pop_queued()
                except Exception:  # any kind of error
                    pass
                else:
                    raise Violation('an empty queue hands out an object', history=hist)
        elif op[0] == 'finish':
            # objects are finished as they were handed out
            obj.set_finished(op[1])
            model.running.remove(op[1])
            model.changed = True
        elif op[0] == 'saved':
            obj.needs_saving = False
            model.changed = False
        elif op[0] == 'reload':
            if os.path.exists(path):
                os.remove(path)
            hdf5_io.save(obj, path)
            obj = hdf5_io.load(path)
            require(type(obj) is cls, 'wrong type after reload', history=hist)
            waiting = model.running + model.waiting
            num = len(model.running)
            model.__init__(waiting)
            model.open_order = num
            model.changed = False  # whether a reloaded queue counts as changed is left open
        return obj

    def build(hist):
        objects = [variants(i)[k % 2] for k, i in enumerate(case['start'])]
        obj = cls(objects)
        model = Model([plain[i] for i in case['start']])
        observe(obj, model, [])
        for n, op in enumerate(hist):
            obj = apply(obj, model, op, hist[:n + 1])
            observe(obj, model, hist[:n + 1])
        return obj, model

    _, model = build([])
    seen = {model.key()}
    frontier = deque([[]])
    while frontier:
        hist = frontier.popleft()
        _, model = build(hist)
        for op in enabled(model):
            _, new = build(hist + [op])
            stats.transition()
            stats.trace()
            key = new.key()
            if key not in seen:
                seen.add(key)
                stats.state((case['kind'], case['dim'], case['start'], key))
                if len(hist) + 1 < case['depth']:
                    frontier.append(hist + [op])


def run_large(case, stats):
    """Fixed histories with many objects: none is lost, repeated, or out of order."""
    is_simplex = case['of'] == 'simplex'
    dim, num, chunk = case['dim'], case['num'], case['chunk']
    cls = SimplexQueue if is_simplex else PositionQueue
    norm = norm_simplex if is_simplex else (lambda p: tuple(float(x) for x in p))

    def make(i):
        # an order which is not sorted
        x = float(i * 7919 % 100003)
        if is_simplex:
            return [[x + (j == k) for k in range(dim)] for j in range(dim + 1)]
        return [x + k for k in range(dim)]

    def other(obj):
        return obj[::-1] if is_simplex else list(obj)

    objects = [make(i) for i in range(num)]
    plain = [norm(o) for o in objects]

    def answers(queue, running, waiting, what):
        found = [norm(o) for o in queue.objects]
        require(sorted(found[:len(running)]) == sorted(running), what + ': objects in progress are not listed first', case=case)
        require(found[len(running):] == waiting, what + ': wrong objects waiting, or wrong order', case=case,
                num_found=len(found) - len(running), num_expected=len(waiting))
        require(queue.has_queued == bool(waiting), what + ': wrong answer whether something is waiting', case=case)
        if is_simplex:
            require(queue.num_running == len(running), what + ': wrong number in progress', case=case)
            require(queue.finished == (not running and not waiting), what + ': wrong answer whether it is finished', case=case)
        stats.transition()
        stats.state((case['of'], dim, num, chunk, what))

    def pop(queue, want):
        got = norm(queue.pop_queued())
        require(got == want, 'wrong object handed out', got=got, want=want, case=case)
        stats.transition()

    for built in ('constructed', 'added', 'half'):
        first = {'constructed': num, 'added': 0, 'half': num // 2}[built]
        queue = cls(objects[:first] + [other(o) for o in objects[:first:3]])
        for i in range(first, num, chunk):
            queue.add_objects(np.array(objects[i:i + chunk]) if i % 2 else objects[i:i + chunk])
        answers(queue, [], plain, built)
        queue.add_objects([other(o) for o in objects])
        answers(queue, [], plain, built + ', added again')
        done = num // 3
        for want in plain[:done]:
            pop(queue, want)
        running = list(plain[:done]) if is_simplex else []
        answers(queue, running, plain[done:], built + ', some popped')
        if is_simplex:
            for obj in plain[:done:2]:
                queue.set_finished(obj)
            running = plain[1:done:2]
        queue.needs_saving = False
        for i in range(0, num, chunk):
            queue.add_objects([other(o) for o in objects[i:i + chunk]])
        answers(queue, running, plain[done:], built + ', all added again')
        extra = [make(num + i) for i in range(5)]
        queue.add_objects(extra[:2] + objects[:3] + extra[1:] + objects[-2:])
        require(queue.needs_saving, 'a change is not reported', case=case)
        waiting = plain[done:] + [norm(o) for o in extra]
        answers(queue, running, waiting, built + ', new ones added')
        path = os.path.join(scratch_dir(), 'queue.hdf5')
        if os.path.exists(path):
            os.remove(path)
        hdf5_io.save(queue, path)
        new = hdf5_io.load(path)
        found = [norm(o) for o in new.objects]
        require(sorted(found[:len(running)]) == sorted(running), 'reloaded: objects in progress are not first', case=case)
        answers(new, [], found[:len(running)] + waiting, built + ', reloaded')
        new.add_objects(objects[done:])
        for obj in (queue, new):
            rest = waiting if obj is queue else found[:len(running)] + waiting
            for want in rest:
                pop(obj, want)
                if is_simplex and obj is new:
                    obj.set_finished(want)
            require(not obj.has_queued, 'objects are left', case=case)
            obj.add_objects([other(o) for o in objects[done:]])
            require(not obj.has_queued, 'finished objects are handed out again', case=case)
        if is_simplex:
            require(new.finished and not queue.finished, 'wrong answer whether it is finished', case=case)
        stats.trace()
