"""What a matplotlib axes object shows: markers, segments and surfaces."""
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib import colors  # noqa: E402
from matplotlib.collections import LineCollection, PathCollection  # noqa: E402
from mpl_toolkits.mplot3d import art3d  # noqa: E402


def rgba(color):
    return tuple(round(float(x), 6) for x in colors.to_rgba(color))


class Shown:
    """Markers (position, colour, value), segments (start, end, colour), other artists; ``old`` ones are left out."""
    def __init__(self, axis, old=()):
        self.markers = []
        self.segments = []
        self.surfaces = []
        self.curves = []
        self.other = []
        is_3d = hasattr(axis, 'get_zlim')
        for line in axis.lines:
            if not line.get_visible() or any(line is x for x in old):
                continue
            data = line.get_data_3d() if is_3d else line.get_data()
            pts = [tuple(float(x) for x in p) for p in zip(*data)]
            color = rgba(line.get_color())
            if line.get_alpha() is not None:
                color = color[:3] + (float(line.get_alpha()), )
            if line.get_linestyle() not in ('None', '', ' ') and line.get_linewidth() > 0:
                self.curves.append((pts, color))
                self.segments += [(p, q, color) for p, q in zip(pts, pts[1:])]
            if line.get_marker() not in ('None', '', ' ', None):
                self.markers += [(p, rgba(line.get_markerfacecolor()), None) for p in pts]
        for coll in axis.collections:
            if not coll.get_visible() or any(coll is x for x in old):
                continue
            if isinstance(coll, art3d.Poly3DCollection):
                self.surfaces.append(coll)
            elif isinstance(coll, (LineCollection, art3d.Line3DCollection)):
                color = rgba(coll.get_colors()[0])
                for pts in (coll._segments3d if is_3d else coll.get_segments()):
                    pts = [tuple(float(x) for x in p) for p in pts]
                    self.curves.append((pts, color))
                    self.segments += [(p, q, color) for p, q in zip(pts, pts[1:])]
            elif isinstance(coll, PathCollection):
                offsets = np.ma.getdata(np.array(coll._offsets3d, dtype=float)).T if is_3d else np.ma.getdata(coll.get_offsets())
                values = coll.get_array()
                face = coll.get_facecolor()
                for i, p in enumerate(offsets):
                    color = rgba(face[i % len(face)]) if len(face) else None
                    self.markers.append((tuple(float(x) for x in p), color, None if values is None else float(np.ravel(values)[i])))
            else:
                self.other.append(coll)
        self.other += list(axis.patches) + list(axis.images) + list(axis.texts) + list(axis.tables)


def limits(axis):
    res = [axis.get_xlim(), axis.get_ylim()]
    if hasattr(axis, 'get_zlim'):
        res.append(axis.get_zlim())
    return res


def new_axis(dim):
    fig = plt.figure()
    return fig.add_subplot(111, projection='3d' if dim == 3 else None)


def fill(axis):
    """Draw something else; returns the artists."""
    num = 3 if hasattr(axis, 'get_zlim') else 2
    return axis.plot(*[[0.1, 0.2, 0.4]] * num, color='k') + [axis.scatter(*[[0.5, 0.7]] * num, c=['r', 'g'])]


def unchanged(axis, old):
    """Whether what was drawn before is still there as it was."""
    have = list(axis.lines) + list(axis.collections)
    return all(any(x is y for y in have) for x in old) and all(x.get_visible() for x in old) and (
        not old or [float(x) for x in old[0].get_data()[0]] == [0.1, 0.2, 0.4] and rgba(old[0].get_color()) == rgba('k'))


def wipe(axis):
    """Remove everything which was drawn."""
    for artist in list(axis.lines) + list(axis.collections) + list(axis.patches) + list(axis.texts):
        artist.remove()


def quietly(fun, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fun(*args, **kwargs)
