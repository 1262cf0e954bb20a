"""
C21: straight lines, rings through the boundary and circles at enumerated places,
with enumerated numbers of points, spacings, directions and orders.
"""
import itertools
import math

from nodefinder import identify
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.identify.result import NodalLine

from ..boxes import ExactBox
from ..clusters import quiet
from ..core import require
from ..draws import GOLDEN, Policy
from ..impl import make_container

ID = 'C21'
LEVEL = 'exploration'
CASE_LIMIT = 400.
TECHNIQUE = 'exhaustive enumeration of lines, rings and circles (number of points, spacing, direction, place, order, box, method, way of calling) on the real identification, against the shape known by construction'
RULE = 'An input is nontrivial if the arrangement, box, feature size, order of the positions or method differ.'
BOUNDS = {
    'quick': 'lines of 3-25, 120 and 310 points along the axes, lines of 6-25 points in any direction with a bend of at most 60 degrees, rings of 6-36, 120 and 310 points, circles and arcs of 34-60 points, crossings of 3 and 4 arms of 6-13 points, feature sizes 1.2-4.5 times the spacing (less for some methods), dimensions 1-3, 2-3 boxes, 3 places, one of 3 orders each, 3 methods; pairs of objects',
    'thorough': 'lines of 3-60 points, bent ones of 6-40, rings of 5-70 points, circles and arcs of 34-100 points, arms of 6-20 points, more places and orders',
}
ASSUMPTIONS = [
    'sufficiently sampled: ratio of feature size to spacing at most 2.5 for lines with shortest_path; rings of at least 5 (ballistic) or 12 (others; with dominating_set 24 for ratios above 3; with shortest_path 36 for ratios of 2 to 3 and none above) points; circles and arcs of at least 34 points with feature sizes of at most 2.2 times the spacing; bends of at most 60 degrees with at most 2.2 times the spacing',
    'crossings: an inconclusive dimension is accepted (counted), an open line or a loop is not',
]
METHODS = ('ballistic', 'shortest_path', 'dominating_set')
BOX = [
    [(0., 1.), (0., 1.), (0., 1.)],
    [(-3., 2.), (10., 12.), (-0.5, 0.25)],
    [(100., 101.), (0., 8.), (2., 3.5)],
]
RATIOS = (1.2, 1.7, 2.2, 2.5, 3.3, 4.5)


def cases(tier):
    big = tier == 'thorough'
    for dim in (1, 2, 3):
        for box in range(3 if big or dim < 3 else 2):
            for periodic in (True, False):
                for num in (3, 4, 5, 6, 8, 11, 16, 25) + ((7, 9, 10, 13, 19, 22, 30, 40, 60) if big else ()):
                    yield dict(kind='line', dim=dim, box=box, periodic=periodic, num=num, big=big)
                # long ones
                for num in (120, 310) if big or dim == 2 else (120, ):
                    yield dict(kind='line', dim=dim, box=box, periodic=periodic, num=num, big=False)
            for num in (120, 310) if big or dim == 2 else (120, ):
                yield dict(kind='ring', dim=dim, box=box, num=num, big=False)
            for num in (6, 7, 9, 12, 15, 20, 29, 36) + ((5, 8, 10, 11, 13, 17, 24, 48, 70) if big else ()):
                yield dict(kind='ring', dim=dim, box=box, num=num, big=big)
            if dim > 1:
                for periodic in (True, False):
                    for num in (36, 45, 60) + ((34, 40, 52, 77, 100) if big else ()):
                        yield dict(kind='circle', dim=dim, box=box, periodic=periodic, num=num, big=big)
                    for num in (34, 48) + ((40, 61, 90) if big else ()):
                        yield dict(kind='arc', dim=dim, box=box, periodic=periodic, num=num, big=big)
                    for num in (6, 9, 14, 25) + ((7, 11, 18, 40) if big else ()):
                        yield dict(kind='bend', dim=dim, box=box, periodic=periodic, num=num, big=big)
                    for num in (6, 9, 13) + ((7, 11, 20) if big else ()):
                        yield dict(kind='cross', dim=dim, box=box, periodic=periodic, num=num, big=big)
                    for num in (12, 20) + ((30, 16) if big else ()):
                        yield dict(kind='pair', dim=dim, box=box, periodic=periodic, num=num, big=big)


def allowed(kind, method, num, ratio):
    if kind == 'line':
        return method == 'ballistic' or num - 1 > 2 * ratio and (method != 'shortest_path' or ratio <= 2.5)
    if 2 * ratio >= num:
        return False
    if method == 'ballistic':
        return True
    if method == 'dominating_set':
        return num >= (12 if ratio < 3 else 24)
    return num >= 12 if ratio < 2 else num >= 36 and ratio < 3


def orders(positions, big):
    n = len(positions)
    res = [positions, positions[::-1]]
    s = max(2, round(n * GOLDEN))
    while math.gcd(s, n) != 1:
        s += 1
    res.append([positions[i * s % n] for i in range(n)])
    if big:
        res.append(positions[n // 2:] + positions[:n // 2])
        res.append(positions[::2] + positions[1::2])
    return res


def into(box, pos):
    """Map into the limits of a periodic box."""
    res = []
    for x, (a, b) in zip(pos, box):
        y = a + (x - a) % (b - a)
        res.append(a if y >= b else y)
    return tuple(res)


def identified(stats, positions, lims, periodic, fs, method, call, policy=0):
    cs = CoordinateSystem(limits=lims, periodic=periodic)
    with Policy(('stride', policy), GOLDEN, policy).active():
        if call == 'run':
            size = max(b - a for a, b in lims)
            if size / (fs / 3) > 60 and len(lims) > 1:
                call = 'positions'
            else:
                container = make_container(lims, periodic, fs / 3, nodes=positions)
                res, warned = quiet(identify.run, container, evaluate_line_method=method) if method != 'ballistic' else quiet(identify.run, container)
        if call == 'positions':
            kwargs = {} if method == 'shortest_path' else dict(evaluate_line_method=method)
            res, warned = quiet(identify.run_from_positions, positions, coordinate_system=cs, feature_size=fs, **kwargs)
    stats.evaluation()
    return res, warned


def check_shape(obj, name, warned, **where):
    require(obj.dimension == 1, 'dimension {}'.format(obj.dimension), **where)
    require(isinstance(obj.shape, NodalLine), 'shape {} ({})'.format(obj.shape, warned), **where)
    require(obj.shape.shape_name == name, 'shape {} instead of {}: {}'.format(obj.shape.shape_name, name, obj.shape), **where)
    degrees = {}
    for node, deg in obj.shape.graph.degree:
        degrees.setdefault(deg, []).append(tuple(float(x) for x in node))
    return degrees


def run(case, stats):
    stats.sample(case, limit=1)
    globals()['run_' + case['kind']](case, stats)


def check_ends(degrees, positions, box, fs, where):
    ends = degrees.get(1, [])
    require(len(ends) == 2, 'ends {}'.format(ends), **where)
    first, last = positions[0], positions[-1]
    tol = fs * (1 + 1e-9)
    dist = [[box.distance(p, q) for q in ends] for p in (first, last)]
    require(dist[0][0] <= tol and dist[1][1] <= tol or dist[0][1] <= tol and dist[1][0] <= tol, 'ends {} instead of {}'.format(ends, (first, last)), **where)


def run_line(case, stats):
    dim, num = case['dim'], case['num']
    lims = BOX[case['box']][:dim]
    box = ExactBox(lims, case['periodic'])
    sizes = [b - a for a, b in lims]
    count = 0
    for axis in range(dim):
        for fill in (0.3, 0.6) if num < 100 else (0.6, ):
            spacing = fill * sizes[axis] / (num - 1)
            for place in ((0.05, 0.31, 0.9) if case['periodic'] else (0., 0.2, 0.395)) + ((0.999, ) if case['periodic'] and case['big'] else ()):
                line = []
                for i in range(num):
                    pos = [a + place * s for (a, _), s in zip(lims, sizes)]
                    pos[axis] += i * spacing
                    line.append(into(lims, pos) if case['periodic'] else tuple(pos))
                for ratio in RATIOS:
                    if ratio * spacing > (1 - fill) * sizes[axis] * 0.9 or ratio > num - 1 and ratio > 2:
                        continue
                    fs = ratio * spacing
                    if case['periodic'] and any(2 * fs >= s for s in sizes):
                        continue
                    for method in METHODS:
                        if not allowed('line', method, num, ratio):
                            continue
                        for order, positions in enumerate(orders(line, case['big'])):
                            count += 1
                            if num > 100 and (method == 'dominating_set' and ratio != 1.7 or ratio > 3 or count % 2):
                                continue
                            call = ('positions', 'run')[count // 3 % 2]
                            if not case['big'] and count % 3 != count // 3 % 3:
                                continue
                            res, warned = identified(stats, positions, lims, case['periodic'], fs, method, call, count % num)
                            where = dict(case=case, axis=axis, place=place, ratio=ratio, method=method, order=order, call=call, fill=fill)
                            require(len(res) == 1, '{} objects instead of one line'.format(len(res)), **where)
                            degrees = check_shape(res[0], 'OPEN LINE', warned, **where)
                            check_ends(degrees, line, box, fs, where)
                            stats.nontrivial(('line', dim, case['box'], case['periodic'], num, axis, place, fill, ratio, method, order))
                            stats.outcome(('line', method))


def run_ring(case, stats):
    dim, num = case['dim'], case['num']
    lims = BOX[case['box']][:dim]
    sizes = [b - a for a, b in lims]
    count = 0
    for axis in range(dim):
        spacing = sizes[axis] / num
        for place in (0., 0.31, 0.9) + ((0.5, 0.999) if case['big'] else ()):
            ring = []
            for i in range(num):
                pos = [a + place * s for (a, _), s in zip(lims, sizes)]
                pos[axis] += i * spacing
                ring.append(into(lims, pos))
            for ratio in RATIOS:
                fs = ratio * spacing
                if any(2 * fs >= s for s in sizes):
                    continue
                for method in METHODS:
                    if not allowed('ring', method, num, ratio):
                        continue
                    for order, positions in enumerate(orders(ring, case['big'])):
                        count += 1
                        if num > 100 and (method == 'dominating_set' and ratio != 1.7 or ratio > 3 or count % 2):
                            continue
                        call = ('positions', 'run')[count // 3 % 2]
                        if not case['big'] and count % 3 != count // 3 % 3:
                            continue
                        res, warned = identified(stats, positions, lims, True, fs, method, call, count % num)
                        where = dict(case=case, axis=axis, place=place, ratio=ratio, method=method, order=order, call=call)
                        require(len(res) == 1, '{} objects instead of one ring'.format(len(res)), **where)
                        check_shape(res[0], 'CLOSED LOOP', warned, **where)
                        stats.nontrivial(('ring', dim, case['box'], num, axis, place, ratio, method, order))
                        stats.outcome(('ring', method))
                # the same points without the boundary condition are a line
                if place == 0.:
                    res, warned = identified(stats, ring, lims, False, fs, 'ballistic', 'run', count % num)
                    check_shape(res[0], 'OPEN LINE', warned, case=case, axis=axis, ratio=ratio, periodic=False)


def run_circle(case, stats):
    dim, num = case['dim'], case['num']
    lims = BOX[case['box']][:dim]
    sizes = [b - a for a, b in lims]
    radius = 0.3 * min(sizes)
    spacing = 2 * math.pi * radius / num
    for axes in itertools.combinations(range(dim), 2):
        for place in ((0.5, 0.02, 0.9) if case['periodic'] else (0.5, )):
            for phase in (0., 0.3):
                circle = []
                for i in range(num):
                    pos = [a + place * s for (a, _), s in zip(lims, sizes)]
                    phi = 2 * math.pi * i / num + phase
                    pos[axes[0]] += radius * math.cos(phi)
                    pos[axes[1]] += radius * math.sin(phi)
                    circle.append(into(lims, pos) if case['periodic'] else tuple(pos))
                for ratio in (1.2, 1.7, 2.2):
                    for order, positions in enumerate(orders(circle, case['big'])):
                        res, warned = identified(stats, positions, lims, case['periodic'], ratio * spacing, 'ballistic', ('run', 'positions')[order % 2], order)
                        where = dict(case=case, axes=axes, place=place, phase=phase, ratio=ratio, order=order)
                        require(len(res) == 1, '{} objects instead of one circle'.format(len(res)), **where)
                        check_shape(res[0], 'CLOSED LOOP', warned, **where)
                        stats.nontrivial(('circle', dim, case['box'], case['periodic'], num, axes, place, phase, ratio, order))
                        stats.outcome('circle')


def plane_directions(dim):
    """Pairs of orthogonal unit vectors."""
    if dim == 2:
        yield (1., 0.), (0., 1.)
    else:
        yield (1., 0., 0.), (0., 0.8, 0.6)
        yield (2 / 3, 1 / 3, 2 / 3), (1 / 3, 2 / 3, -2 / 3)


def at(origin, first, second, x, y):
    return tuple(o + a * x + b * y for o, a, b in zip(origin, first, second))


def origins(case, lims):
    for place in ((0.5, 0.03, 0.9) if case['periodic'] else (0.5, )):
        yield [a + place * (b - a) for a, b in lims]


def run_bend(case, stats):
    """Lines in any direction which change their direction once, by at most 60 degrees."""
    dim, num = case['dim'], case['num']
    lims = BOX[case['box']][:dim]
    box = ExactBox(lims, case['periodic'])
    small = min(b - a for a, b in lims)
    spacing = 0.4 * small / (num - 1)
    count = 0
    for (first, second), origin in itertools.product(list(plane_directions(dim)), list(origins(case, lims))):
        for bend in (0, 20, 40, 60):
            for start in range(10, 370, 30 if case['big'] else 70):
                for part in (0.3, 0.5):
                    x = y = 0.
                    angle = math.radians(start)
                    line = [at(origin, first, second, x, y)]
                    for i in range(num - 1):
                        if i == max(2, int(part * num)):
                            angle += math.radians(bend)
                        x += spacing * math.cos(angle)
                        y += spacing * math.sin(angle)
                        line.append(at(origin, first, second, x, y))
                    if case['periodic']:
                        line = [into(lims, p) for p in line]
                    for ratio in (1.2, 1.7, 2.2):
                        for method in METHODS:
                            if not allowed('line', method, num, ratio):
                                continue
                            for order, positions in enumerate(orders(line, case['big'])):
                                count += 1
                                if count % (13 if not case['big'] else 17):
                                    continue
                                call = ('positions', 'run')[count // 13 % 2]
                                res, warned = identified(stats, positions, lims, case['periodic'], ratio * spacing, method, call, count % num)
                                where = dict(case=case, first=first, origin=origin, bend=bend, start=start, part=part, ratio=ratio, method=method, order=order, call=call)
                                require(len(res) == 1, '{} objects instead of one line'.format(len(res)), **where)
                                degrees = check_shape(res[0], 'OPEN LINE', warned, **where)
                                check_ends(degrees, line, box, ratio * spacing, where)
                                stats.nontrivial(('bend', dim, case['box'], case['periodic'], num, first, origin, bend, start, part, ratio, method, order))
                                stats.outcome(('bend', method))


def run_arc(case, stats):
    """Circles with all methods, and parts of circles."""
    dim, num = case['dim'], case['num']
    lims = BOX[case['box']][:dim]
    box = ExactBox(lims, case['periodic'])
    radius = 0.3 * min(b - a for a, b in lims)
    count = 0
    for (first, second), origin in itertools.product(list(plane_directions(dim)), list(origins(case, lims))):
        for total in (90, 180, 270, 360):
            step = math.radians(total) / (num if total == 360 else num - 1)
            spacing = 2 * radius * math.sin(step / 2)
            for phase in (0., 0.3, 1.1, 2.9, 4.):
                arc = [at(origin, first, second, radius * math.cos(phase + i * step), radius * math.sin(phase + i * step)) for i in range(num)]
                if case['periodic']:
                    arc = [into(lims, p) for p in arc]
                for ratio in (1.2, 1.7, 2.2):
                    for method in METHODS:
                        for order, positions in enumerate(orders(arc, case['big'])):
                            count += 1
                            if count % (17 if not case['big'] else 13):
                                continue
                            call = ('positions', 'run')[count // 17 % 2]
                            res, warned = identified(stats, positions, lims, case['periodic'], ratio * spacing, method, call, count % num)
                            where = dict(case=case, first=first, origin=origin, total=total, phase=phase, ratio=ratio, method=method, order=order, call=call)
                            require(len(res) == 1, '{} objects instead of one'.format(len(res)), **where)
                            degrees = check_shape(res[0], 'CLOSED LOOP' if total == 360 else 'OPEN LINE', warned, **where)
                            if total != 360:
                                check_ends(degrees, arc, box, ratio * spacing, where)
                            stats.nontrivial(('arc', dim, case['box'], case['periodic'], num, first, origin, total, phase, ratio, method, order))
                            stats.outcome(('arc', total, method))


def run_cross(case, stats):
    """Several lines which start from one point are neither an open line nor a loop."""
    dim, num = case['dim'], case['num']
    lims = BOX[case['box']][:dim]
    spacing = 0.3 * min(b - a for a, b in lims) / num
    count = 0
    for (first, second), origin in itertools.product(list(plane_directions(dim)), list(origins(case, lims))):
        for arms in ((0, 90, 180, 270), (0, 90, 180), (0, 120, 240)):
            for phase in (0., 0.3, 0.77):
                star = [tuple(origin)]
                for arm in arms:
                    phi = math.radians(arm) + phase
                    star += [at(origin, first, second, i * spacing * math.cos(phi), i * spacing * math.sin(phi)) for i in range(1, num + 1)]
                if case['periodic']:
                    star = [into(lims, p) for p in star]
                for ratio in (1.2, 1.7, 2.2):
                    for method in METHODS:
                        for order, positions in enumerate(orders(star, case['big'])):
                            count += 1
                            if count % (5 if not case['big'] else 2):
                                continue
                            call = ('positions', 'run')[count // 5 % 2]
                            res, warned = identified(stats, positions, lims, case['periodic'], ratio * spacing, method, call, count % num)
                            where = dict(case=case, first=first, origin=origin, arms=arms, phase=phase, ratio=ratio, method=method, order=order, call=call)
                            require(len(res) == 1, '{} objects instead of one'.format(len(res)), **where)
                            if res[0].dimension is None:
                                stats.add('inconclusive')
                                continue
                            check_shape(res[0], 'UNKNOWN', warned, **where)
                            stats.nontrivial(('cross', dim, case['box'], case['periodic'], num, first, origin, arms, phase, ratio, method, order))
                            stats.outcome(('cross', len(arms), method))


def run_pair(case, stats):
    """A line and a parallel ring (or two lines) are separate objects."""
    dim, num = case['dim'], case['num']
    lims = BOX[case['box']][:dim]
    box = ExactBox(lims, case['periodic'])
    sizes = [b - a for a, b in lims]
    for axis in range(dim):
        other = (axis + 1) % dim
        for place in (0.1, 0.45):
            line, second = [], []
            for i in range(num):
                pos = [a + place * s for (a, _), s in zip(lims, sizes)]
                pos[axis] += i * 0.5 * sizes[axis] / num
                line.append(tuple(pos))
                far = list(pos)
                far[other] = lims[other][0] + (place + 0.4) * sizes[other]
                far[axis] = lims[axis][0] + sizes[axis] * i / num
                second.append(tuple(far))
            for ratio in (1.2, 2.2):
                fs = ratio * max(0.5 * sizes[axis] / num, sizes[axis] / num)
                if fs >= 0.39 * sizes[other] or 2 * fs >= min(sizes) or fs > 0.45 * sizes[axis]:
                    continue
                for mixed in (line + second, [p for pair in zip(second, line) for p in pair]):
                    for method in ('ballistic', 'dominating_set'):
                        res, warned = identified(stats, mixed, lims, case['periodic'], fs, method, 'run', 1)
                        where = dict(case=case, axis=axis, place=place, ratio=ratio, method=method)
                        require(len(res) == 2, '{} objects instead of two'.format(len(res)), **where)
                        for obj in res:
                            is_line = abs(float(obj.positions[0][other]) - line[0][other]) < 0.1 * sizes[other]
                            degrees = check_shape(obj, 'OPEN LINE' if is_line or not case['periodic'] else 'CLOSED LOOP', warned, **where)
                            if is_line:
                                check_ends(degrees, line, box, fs, where)
                            stats.outcome(('pair', is_line, method))
                        stats.nontrivial(('pair', dim, case['box'], case['periodic'], num, axis, place, ratio, method))


def finish(stats, tier):
    assert len(stats.sets['distinct_nontrivial']) > 3000
