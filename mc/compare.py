"""Deep comparison of result objects."""
import h5py
import numpy as np


def canon(obj):
    """
    Plain, comparable form of a value: numbers and arrays by value, strings as
    strings (bytes are different), containers recursively.
    """
    if obj is None or isinstance(obj, (str, bytes)):
        return (type(obj).__name__, obj)
    if isinstance(obj, (bool, np.bool_)):
        return ('number', float(obj))
    if isinstance(obj, (int, float, np.integer, np.floating)):
        return ('number', repr(float(obj)))
    if isinstance(obj, np.ndarray):
        if obj.ndim == 0:
            return canon(obj[()])
        return ('array', obj.shape, tuple(repr(float(x)) for x in obj.ravel()))
    if isinstance(obj, (list, tuple)):
        try:
            arr = np.array(obj, dtype=float)
        except (TypeError, ValueError):
            return ('list', tuple(canon(x) for x in obj))
        return canon(arr) if arr.ndim else ('list', ())
    if isinstance(obj, dict):
        return ('dict', tuple(sorted((repr(canon(k)), canon(v)) for k, v in obj.items())))
    raise TypeError('cannot compare {!r}'.format(type(obj)))


RESULT_KEYS = ('pos', 'value', 'num_iter', 'num_fev', 'status', 'success', 'message',
               'simplex_history', 'fun_simplex_history')


def canon_min_result(res):
    """All attributes of a (joined) minimization result."""
    out = {'type': type(res).__name__}
    for key in RESULT_KEYS:
        try:
            val = getattr(res, key)
        except AttributeError:
            out[key] = 'missing'
            continue
        val = canon(val)
        if key == 'success':
            val = ('bool', bool(getattr(res, key)))
        out[key] = val
    if type(res).__name__.startswith('Joined'):
        out['ancestor'] = canon_min_result(res.ancestor)
        out['child'] = canon_min_result(res.child)
    else:
        # further attributes
        for key, val in vars(res).items():
            if key not in out:
                out[key] = canon(val)
    return out


def canon_system(cs):
    return dict(limits=canon(cs.limits), periodic=bool(cs.periodic), dim=int(cs.dim), size=canon(cs.size))


def canon_container(res):
    return dict(
        type=type(res).__name__, coordinate_system=canon_system(res.coordinate_system),
        gap_threshold=canon(res.gap_threshold), dist_cutoff=canon(res.dist_cutoff),
        nodes=[canon_min_result(n) for n in res.nodes],
        rejected=[canon_min_result(n) for n in res.rejected_results],
        all=[canon_min_result(n) for n in res.minimization_results],
        refined=[canon(np.array(p)) for p in res.refined_results],
    )


def canon_state(state):
    return dict(
        type=type(state).__name__, result=canon_container(state.result),
        simplex_queue=[canon(np.array(s)) for s in state.simplex_queue.objects],
        position_queue=[canon(np.array(p)) for p in state.position_queue.objects],
    )


def first_difference(a, b, path=''):
    """Describe where two canonical forms differ (None if they are the same)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for key in sorted(set(a) | set(b)):
            if key not in a or key not in b:
                return '{}.{}: only on one side'.format(path, key)
            res = first_difference(a[key], b[key], path + '.' + key)
            if res:
                return res
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '{}: {} instead of {} entries'.format(path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            res = first_difference(x, y, '{}[{}]'.format(path, i))
            if res:
                return res
        return None
    if a != b:
        return '{}: {} instead of {}'.format(path, str(b)[:200], str(a)[:200])
    return None


def dump_h5(path):
    """The logical contents of an HDF5 file."""
    out = {}

    def visit(name, obj):
        if isinstance(obj, h5py.Dataset):
            val = obj[()]
            if isinstance(val, np.ndarray):
                val = (val.shape, val.dtype.kind, repr(val.tolist()))
            out[name] = repr(val)
        else:
            out[name] = 'group'

    with h5py.File(path, 'r') as file:
        file.visititems(visit)
    return out
