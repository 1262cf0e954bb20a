"""Access to classes of the code under test, independent of where they are defined."""
import nodefinder  # pylint: disable=unused-import
import nodefinder.search
import nodefinder.identify
import nodefinder.io
from fsc import hdf5_io


def registered(tag):
    """The class which is registered for an HDF5 type tag."""
    try:
        from fsc.hdf5_io import _subscribe
        return _subscribe.SERIALIZE_MAPPING[tag]
    except (ImportError, AttributeError):
        from nodefinder.search import _queue
        return {'nodefinder.simplex_queue': _queue.SimplexQueue,
                'nodefinder.position_queue': _queue.PositionQueue}[tag]


SimplexQueue = registered('nodefinder.simplex_queue')
PositionQueue = registered('nodefinder.position_queue')


def minimization_result(pos, value, success=True, dim=None, **kwargs):
    """A minimization result as the search creates them."""
    import numpy as np
    from nodefinder.search.result import MinimizationResult
    pos = np.array(pos, dtype=float)
    dim = len(pos)
    data = dict(
        pos=pos, value=value, num_iter=1, num_fev=dim + 1, status=0 if success else 1,
        success=success, message='ok' if success else 'failed',
        simplex_history=np.array([[pos] * (dim + 1)]),
        fun_simplex_history=np.array([[value] * (dim + 1)])
    )
    data.update(kwargs)
    return MinimizationResult(**data)


def make_container(limits, periodic, cutoff, nodes=(), refined=(), gap_threshold=0.5, results=()):
    import numpy as np
    from nodefinder.search.result import SearchResultContainer
    from nodefinder.coordinate_system import CoordinateSystem
    return SearchResultContainer(
        coordinate_system=CoordinateSystem(limits=limits, periodic=periodic),
        minimization_results=[minimization_result(p, 0.) for p in nodes] + list(results),
        gap_threshold=gap_threshold, dist_cutoff=cutoff,
        refined_results=[np.array(p, dtype=float) for p in refined]
    )


def make_state(limits, periodic, cutoff, nodes=(), refined=(), simplices=(), positions=(),
               gap_threshold=0.5, results=()):
    from nodefinder.search.result import ControllerState
    return ControllerState(
        result=make_container(limits, periodic, cutoff, nodes, refined, gap_threshold, results),
        simplex_queue=SimplexQueue(list(simplices)), position_queue=PositionQueue(list(positions))
    )
