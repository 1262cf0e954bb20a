"""
C04: all sequences of added results up to a depth, classified and kept by the real
container, compared with a reference list; rebuilt with other thresholds directly
and through a search which continues from the state.
"""
import itertools

import numpy as np

from nodefinder import search
from nodefinder.search.result import JoinedMinimizationResult

from ..aio import run_plain
from ..boxes import ExactBox
from ..compare import canon_min_result, canon
from ..core import require
from ..impl import make_container, make_state, minimization_result

ID = 'C04'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of sequences of added results (success, value around the threshold, position, one or two stages) up to a depth on the real container and search, against a reference list'
RULE = 'A history is nontrivial if its sequence of operations, thresholds or boundary condition differ.'
BOUNDS = {
    'quick': 'all sequences of up to 3 operations out of 23 (results with 2 outcomes x 5 values x positions, two-stage results, refined positions), rebuilt with 4 thresholds and 3 cutoffs; through the search up to 2 operations',
    'thorough': 'all sequences of up to 4 operations out of 14 and 3 out of 40; through the search up to 3 operations',
}
ASSUMPTIONS = ['values are numbers (not nan)']
INF = float('inf')
THRESHOLD = 0.3


def operations(big, small=False):
    values = [0.1, THRESHOLD, np.nextafter(THRESHOLD, 1), 2., INF, -1.]
    spots = [0.2, 1.7, -0.1, 0.]
    ops = []
    for success in (True, False):
        for i, value in enumerate(values):
            for j, spot in enumerate(spots):
                if small:
                    keep = j == i % 2 and i in (1, 2, 3) or (i, j) == (1, 3)
                elif big:
                    keep = j <= 1 or i < 2
                else:
                    keep = j == i % 4 or i == 1 and success
                if keep:
                    ops.append(('plain', success, float(value), spot))
    ops += [('joined', True, 0.1, 1.7), ('joined', False, 0.1, 0.2), ('joined', True, 1., 0.2), ('types', True, 0.2, 0.9), ('refined', True, 0., 0.2)]
    if not small:
        ops += [('types', False, 0.2, 0.9), ('joined', True, THRESHOLD, -0.1)]
    return ops


def cases(tier):
    big = tier == 'thorough'
    for periodic in (True, False):
        for number in (70, 300, 2700) + ((9000, ) if big else ()):
            yield dict(kind='many', periodic=periodic, dim=1, ops='normal', number=number)
        for dim in (1, 2):
            ops = operations(big)
            for i in range(len(ops)):
                yield dict(kind='container', periodic=periodic, dim=dim, ops='big' if big else 'normal', first=i, depth=2)
            if big:
                for i in range(len(operations(False, True))):
                    yield dict(kind='container', periodic=periodic, dim=dim, ops='small', first=i, depth=3)
            for i in range(len(operations(False))):
                yield dict(kind='search', periodic=periodic, dim=dim, ops='normal' if not big else 'normal', first=i, depth=1 if not big else 2)


def make_result(op, dim, idx):
    kind, success, value, spot = op
    pos = [spot + 0.01 * i for i in range(dim)]
    message = 'result {}'.format(idx)
    if kind == 'joined':
        return JoinedMinimizationResult(
            child=minimization_result(pos, value, success, message=message),
            ancestor=minimization_result([x + 0.5 for x in pos], INF, not success, message='first stage')
        )
    res = minimization_result(pos, value, success, message=message)
    if kind == 'types':
        res.success = np.bool_(success)
        res.value = np.float64(value)
        res.status = np.int64(0 if success else 2)
    return res


def expected(op, threshold):
    return bool(op[1]) and op[2] <= threshold


def snapshot(res):
    form = canon_min_result(res)
    form.pop('pos')
    for part in ('child', 'ancestor'):
        if part in form:
            form[part] = dict(form[part])
            if part == 'child':
                form[part].pop('pos')
    return form


def check(container, entries, threshold, box, **where):
    """``entries`` are (operation, index, snapshot, position)."""
    nodes = list(container.nodes)
    rejected = list(container.rejected_results)
    everything = list(container.minimization_results)
    by_message = {}
    for name, group in (('node', nodes), ('rejected', rejected), ('all', everything)):
        for res in group:
            by_message.setdefault(res.message, []).append(name)
    require(len(everything) == len(entries), '{} instead of {} results'.format(len(everything), len(entries)), **where)
    require(len(nodes) == len(container.nodes), 'wrong number of nodes', **where)
    by_name = {r.message: r for r in everything}
    for op, idx, snap, pos in entries:
        message = 'result {}'.format(idx)
        kinds = sorted(by_message.get(message, []))
        want = ['all', 'node'] if expected(op, threshold) else ['all', 'rejected']
        require(kinds == want, '{} (threshold {}) is listed as {}'.format(op, threshold, kinds), **where)
        res = by_name[message]
        if box is not None:
            found = tuple(float(x) for x in res.pos)
            if box.periodic:
                require(box.same(found, pos, 1e-12) and all(float(a) <= x <= float(b) for x, (a, b) in zip(found, box.limits)), 'position {} instead of the image of {} in the limits'.format(found, pos), **where)
            else:
                require(found == tuple(pos), 'position {} instead of {}'.format(found, pos), **where)
        require(snapshot(res) == snap, 'result {} was changed'.format(idx), **where)


def run(case, stats):
    stats.sample(case, limit=1)
    dim = case['dim']
    limits = [(0., 1.)] * dim
    box = ExactBox(limits, case['periodic'])
    ops = operations(case['ops'] == 'big', case['ops'] == 'small')
    if case['kind'] == 'many':
        sequence = [ops[(i * 7 + i // len(ops)) % len(ops)] for i in range(case['number'])]
        for part in (sequence, [op for op in sequence if op[1] is not False], [op for op in sequence if op[1] is False or op[2] > THRESHOLD]):
            run_container(case, stats, part, limits, box)
            run_search(case, stats, part, limits, box)
        stats.nontrivial((case['kind'], case['periodic'], case['number']))
        return
    for length in range(case['depth'] + 1):
        for rest in itertools.product(ops, repeat=length):
            sequence = (ops[case['first']], ) + rest
            if case['kind'] == 'container':
                run_container(case, stats, sequence, limits, box)
            else:
                run_search(case, stats, sequence, limits, box)
            stats.nontrivial((case['kind'], case['periodic'], dim, sequence))


def run_container(case, stats, sequence, limits, box):
    dim = case['dim']
    cutoff = 0.3
    container = make_container(limits, case['periodic'], cutoff, gap_threshold=THRESHOLD)
    entries = []
    refined = []
    where = dict(sequence=sequence, periodic=case['periodic'])
    for i, op in enumerate(sequence):
        if op[0] == 'refined':
            pos = [op[3]] * dim
            container.set_refined(np.array(pos))
            refined.append(pos)
        else:
            res = make_result(op, dim, i)
            pos = [float(x) for x in res.pos]
            entry = (op, i, snapshot(res), pos)
            is_node = container.add_result(res)
            require(bool(is_node) == expected(op, THRESHOLD), 'adding {} returns {}'.format(op, is_node), **where)
            entries.append(entry)
        if i % (len(sequence) // 5 if case['kind'] == 'many' else 1) == 0:
            check(container, entries, THRESHOLD, box, **where)
        stats.evaluation()
    require([canon(np.array(x)) for x in container.refined_results] == [canon(np.array(x)) for x in refined], 'the refined positions were changed', **where)
    if len(sequence) < 3:
        thresholds = (0.1, THRESHOLD, 5., -3., INF)
    else:
        thresholds = (0.1, )
    for threshold in thresholds:
        for new_cutoff in (cutoff, 0.07, 2.)[:3 if len(sequence) < 3 else 1]:
            new = make_container(
                limits, case['periodic'], new_cutoff, gap_threshold=threshold, results=container.minimization_results, refined=container.refined_results
            )
            check(new, entries, threshold, box, rebuilt=(threshold, new_cutoff), **where)
            stats.evaluation()
    # the original one is not disturbed by that
    check(container, entries, THRESHOLD, box, **where)


def run_search(case, stats, sequence, limits, box):
    """A search without any work, which continues from a state with the results."""
    dim = case['dim']
    results = [make_result(op, dim, i) for i, op in enumerate(sequence) if op[0] != 'refined']
    entries = [(op, i, snapshot(res), [float(x) for x in res.pos]) for (i, op), res in zip([x for x in enumerate(sequence) if x[1][0] != 'refined'], results)]
    refined = [[op[3]] * dim for op in sequence if op[0] == 'refined']
    state = make_state(limits, case['periodic'], 0.3, results=results, refined=refined, gap_threshold=THRESHOLD)

    def potential(x):
        raise AssertionError('evaluation without work')

    for threshold in (THRESHOLD, 1.5):
        result = run_plain(lambda: search.run_async(
            potential, limits=limits, periodic=case['periodic'], initial_state=state, feature_size=0.5, gap_threshold=threshold, refinement_stencil='auto'
        ))
        check(result, entries, threshold, box, sequence=sequence, periodic=case['periodic'], new_threshold=threshold)
        check(state.result, entries, THRESHOLD, box, sequence=sequence, periodic=case['periodic'], given_state=True)
        require(len(list(result.refined_results)) == len(refined), 'refined positions are lost')
        stats.evaluation()


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 10000
