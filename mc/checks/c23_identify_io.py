"""
C23: saving and loading of identification results: all sequences of kinds of
objects up to a length, single objects and shapes, results of real
identifications, and files in the earlier format.
"""
import itertools
import os
import random
from collections import Counter

import h5py
import networkx as nx
import numpy as np
from fsc.hdf5_io import to_hdf5

from nodefinder import identify, io
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.identify.result import IdentificationResult, IdentificationResultContainer, NodalLine, NodalPoint

from ..clusters import quiet
from ..compare import canon, canon_system, dump_h5, first_difference
from ..core import require, scratch_dir

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of identification results (all sequences of kinds of objects up to a length, shapes, options, real identifications) and of the save / load transitions on the real code'
RULE = ('A state is an identification result, object or shape; transitions are save, load, save again and load again; all attributes, their order, and the contents of '
        'the files are compared after each.')
BOUNDS = {
    'quick': 'all sequences of up to 2 objects (one from 65 with 5 dimensions x 13 shapes, the other from 10 of them; points; lines without links, open, closed, branched, disconnected), boxes of dimension 1-3 (all pairs in one of them), both boundary conditions; 144 real identifications; earlier format; objects with up to 1301 positions, lines with up to 1301 nodes, containers of up to 331 objects',
    'thorough': 'all sequences of up to 2 objects in all boxes, sequences of 3 from a reduced alphabet, up to 10007 positions and nodes, up to 1301 objects',
}
ASSUMPTIONS = ['numbers are compared by value, not by their (numpy) type; the order of the nodes and links of a line is free, but degree count and shape name are not']

LIMITS = {1: [(0., 1.)], 2: [(-1., 1.5), (0., 0.25)], 3: [(0., 1.), (1e3, 2e3), (-0.1, 0.)]}


def point(i, dim):
    """Distinct positions, some with many digits."""
    base = [0., 1. / 3, 0.7, -0.1, 1e-17, 12345.678901234567][i % 6]
    return tuple(float(base + i // 6 + k * 0.1) for k in range(dim))


def line(dim, num, edges, order=None):
    graph = nx.Graph()
    pts = [point(i, dim) for i in range(num)]
    graph.add_nodes_from(pts if order is None else [pts[i] for i in order])
    graph.add_edges_from((pts[i], pts[j]) for i, j in edges)
    return lambda: NodalLine(graph=graph.copy(), degree_count=Counter({d: n for d, n in Counter(d for _, d in graph.degree).items() if d != 2}))


def shapes(dim):
    ring = [(i, (i + 1) % 5) for i in range(5)]
    res = dict(
        none=lambda: None,
        point=lambda: NodalPoint(position=np.array(point(1, dim))),
        point_tuple=lambda: NodalPoint(position=point(3, dim)),
        point_list=lambda: NodalPoint(position=list(point(4, dim))),
        dot=line(dim, 1, []),
        dots=line(dim, 3, []),
        link=line(dim, 2, [(0, 1)]),
        chain=line(dim, 4, [(0, 1), (1, 2), (2, 3)], [3, 1, 0, 2]),
        ring=line(dim, 5, ring),
        tail=line(dim, 7, ring + [(4, 6)]),
        star=line(dim, 4, [(0, 1), (0, 2), (0, 3)]),
        two=line(dim, 8, [(0, 1), (1, 2), (0, 2), (3, 4), (5, 6), (6, 7)]),
        long=line(dim, 24, [(i, i + 1) for i in range(11)] + [(i, i + 1) for i in range(12, 23)] + [(23, 12)]),
    )
    return res


POSITIONS = {
    'one': lambda dim: [point(2, dim)],
    'many': lambda dim: [point(i, dim) for i in (5, 3, 8, 0, 2, 11, 10, 7, 13, 12, 1)],
    'arrays': lambda dim: [np.array(point(i, dim)) for i in (1, 0)],
    'array': lambda dim: np.array([point(i, dim) for i in range(12)]),
    'lists': lambda dim: [list(point(i, dim)) for i in range(3)],
}
DIMENSIONS = [None, 0, 1, 2, 3]


def alphabet(dim, size):
    names = list(shapes(dim))
    pos = list(POSITIONS)
    res = []
    for i, (shape, d) in enumerate(itertools.product(names, DIMENSIONS)):
        if size == 'all' or (size == 'some' and (i % 2 == 0 or d is None)) or (size == 'few' and i % 7 == 0):
            res.append((shape, d, pos[i % len(pos)]))
    return res


def cases(tier):
    big = tier == 'thorough'
    for dim in (1, 2, 3):
        for periodic in (True, False):
            names = alphabet(dim, 'all')
            yield dict(kind='containers', dim=dim, periodic=periodic, prefix=[], size=0)
            for first in names:
                # in one box with all pairs
                yield dict(kind='containers', dim=dim, periodic=periodic, prefix=[list(first)], size=1 if big or dim == 2 and periodic else 0, alphabet='some' if big else 'few')
            if big:
                for pair in itertools.product(alphabet(dim, 'few'), repeat=2):
                    yield dict(kind='containers', dim=dim, periodic=periodic, prefix=[list(x) for x in pair], size=1, alphabet='some')
        for name in shapes(dim):
            yield dict(kind='single', dim=dim, shape=name)
        for periodic in (True, False):
            for method in ('ballistic', 'shortest_path', 'dominating_set'):
                yield dict(kind='real', dim=dim, periodic=periodic, method=method, num=8 if not big else 14)
        yield dict(kind='earlier', dim=dim)
        for what in LARGE:
            yield dict(kind='large', dim=dim, what=what, big=big)


def canon_graph(graph):
    nodes = sorted(tuple(float(x) for x in n) for n in graph.nodes)
    for n in graph.nodes:
        require(isinstance(n, tuple), 'the nodes of a line are {}'.format(type(n)))
    edges = sorted(tuple(sorted((tuple(float(x) for x in p), tuple(float(x) for x in q)))) for p, q in graph.edges)
    return dict(nodes=[repr(n) for n in nodes], edges=[repr(e) for e in edges], directed=graph.is_directed(), multi=graph.is_multigraph())


def canon_shape(shape):
    if shape is None:
        return dict(type='None')
    if isinstance(shape, NodalPoint):
        return dict(type='point', position=canon(np.array(shape.position)))
    assert isinstance(shape, NodalLine)
    return dict(
        type='line', graph=canon_graph(shape.graph), name=shape.shape_name,
        degree_count=[(int(d), int(n)) for d, n in sorted(shape.degree_count.items())]
    )


def canon_object(obj):
    for p in obj.positions:
        require(isinstance(p, tuple), 'the positions of an object are {}'.format(type(p)))
    return dict(
        type=type(obj).__name__, positions=[repr(tuple(float(x) for x in p)) for p in obj.positions],
        dimension=canon(obj.dimension), shape=canon_shape(obj.shape)
    )


def canon_any(obj):
    if isinstance(obj, IdentificationResult):
        return canon_object(obj)
    if isinstance(obj, (NodalPoint, NodalLine)):
        return canon_shape(obj)
    return dict(
        type=type(obj).__name__, coordinate_system=canon_system(obj.coordinate_system), feature_size=canon(obj.feature_size),
        results=[canon_object(x) for x in obj], length=len(obj), indexed=[canon_object(obj[i]) for i in range(len(obj))]
    )


def verify(obj, stats, **where):
    path = os.path.join(scratch_dir(), 'result.hdf5')
    again = os.path.join(scratch_dir(), 'again.hdf5')
    before = canon_any(obj)
    io.save(obj, path)
    stats.transition()
    diff = first_difference(before, canon_any(obj))
    require(diff is None, 'saving changes the result: {}'.format(diff), **where)
    loaded = io.load(path)
    stats.transition()
    diff = first_difference(before, canon_any(loaded))
    require(diff is None, 'after loading: {}'.format(diff), **where)
    first = dump_h5(path)
    io.save(loaded, again)
    stats.transition()
    second = dump_h5(again)
    require(normal(first) == normal(second), 'saving the loaded result writes something else', **where)
    diff = first_difference(before, canon_any(io.load(again)))
    require(diff is None, 'after loading again: {}'.format(diff), **where)
    # over the file it was loaded from
    io.save(loaded, path)
    stats.transition(2)
    diff = first_difference(before, canon_any(io.load(path)))
    require(diff is None, 'after saving over the same file: {}'.format(diff), **where)
    stats.trace()
    stats.evaluation()
    return loaded


def normal(contents):
    """Lines may be written in any order: the values of their nodes and links are left out."""
    return {k: v for k, v in contents.items() if not k.endswith(('/nodes', '/edges'))}


def make_object(item, dim):
    shape, dimension, pos = item
    return IdentificationResult(positions=POSITIONS[pos](dim), dimension=dimension, shape=shapes(dim)[shape]())


def run(case, stats):
    stats.sample(case, limit=1)
    globals()['run_' + case['kind']](case, stats)


def run_containers(case, stats):
    dim = case['dim']
    count = 0
    options = alphabet(dim, case['alphabet']) if case['size'] else []
    for length in range(case['size'] + 1):
        for rest in itertools.product(options, repeat=length):
            items = [tuple(x) for x in case['prefix']] + list(rest)
            if length < case['size'] and len(case['prefix']) == 2:
                continue
            count += 1
            objects = [make_object(x, dim) for x in items]
            cs = CoordinateSystem(limits=LIMITS[dim], periodic=case['periodic'])
            fs = [0.1, 2, 1e-30, 1. / 3][count % 4]
            if not count % 2:
                objects = tuple(objects)
            verify(IdentificationResultContainer(coordinate_system=cs, feature_size=fs, results=objects), stats, objects=items)
            stats.state((dim, case['periodic'], tuple(items)))


def run_single(case, stats):
    dim = case['dim']
    shape = shapes(dim)[case['shape']]
    if case['shape'] != 'none':
        verify(shape(), stats, shape=case['shape'])
        stats.state((dim, case['shape']))
    for dimension in DIMENSIONS:
        for pos in POSITIONS:
            verify(make_object((case['shape'], dimension, pos), dim), stats, object=(case['shape'], dimension, pos))
            stats.state((dim, case['shape'], dimension, pos))


def patches(dim, num):
    """Positions of different kinds of objects, also of several of them."""
    single = [(0.5, ) * dim]
    close = [tuple(0.5 + 0.001 * i for _ in range(dim)) for i in range(4)]
    row = [(i / num, ) + (0.25, ) * (dim - 1) for i in range(num)]
    half = row[:num // 2 + 1]
    res = [single, close, row, half, half + single, close + half, [single[0], half[0]]]
    if dim > 1:
        res.append([(0.3 + 0.04 * i, 0.6 + 0.04 * j) + (0.25, ) * (dim - 2) for i in range(5) for j in range(5)])
    if dim > 2:
        res.append([(0.3 + 0.05 * i, 0.6 + 0.05 * j, 0.05 * k) for i in range(3) for j in range(3) for k in range(3)])
    return res


# beyond every number in the exhaustive part, and not round
LARGE = ['positions', 'chain', 'ring', 'star', 'chains', 'grid', 'dots', 'objects', 'lines']


def large_line(dim, what, num):
    if what == 'chain':
        return line(dim, num, [(i, i + 1) for i in range(num - 1)], [i * 7 % num for i in range(num)] if num % 7 else None)
    if what == 'ring':
        return line(dim, num, [(i, (i + 1) % num) for i in range(num)])
    if what == 'star':
        return line(dim, num, [(0, i) for i in range(1, num)])
    if what == 'chains':
        return line(dim, num, [(i, i + 1) for i in range(num - 1) if i % 3 != 2])
    if what == 'grid':
        width = int(num**0.5)
        return line(dim, width * width, [(i, i + 1) for i in range(width * width) if i % width != width - 1] + [(i, i + width) for i in range(width * (width - 1))])
    assert what == 'dots'
    return line(dim, num, [])


def run_large(case, stats):
    dim, what = case['dim'], case['what']
    cs = CoordinateSystem(limits=LIMITS[dim], periodic=True)
    names = alphabet(dim, 'all')
    for num in (30, 67, 130, 331, 1301) if not case['big'] else (30, 67, 130, 258, 331, 513, 1025, 1301, 4099, 10007):
        small = [make_object(('ring', 1, 'one'), dim)]
        if what == 'positions':
            pts = [point(i * 7 % num if num % 7 else i, dim) for i in range(num)]
            objects = small + [IdentificationResult(positions=pts, dimension=2), IdentificationResult(positions=pts[::-1], dimension=None, shape=shapes(dim)['tail']())]
        elif what == 'objects':
            if num > 400 and not case['big'] or num > 1400:
                continue
            objects = [make_object(names[i * 7 % len(names)], dim) for i in range(num)]
        elif what == 'lines':
            # many objects, and every one with a line
            if num > 150 and not case['big'] or num > 520:
                continue
            objects = [make_object((['chain', 'ring', 'dot', 'long'][i % 4], 1, 'lists'), dim) for i in range(num)]
        else:
            shape = large_line(dim, what, num)
            objects = [IdentificationResult(positions=[point(0, dim)], dimension=1, shape=shape())] + small + [IdentificationResult(positions=list(shape().graph.nodes), dimension=None, shape=shape())]
            verify(shape(), stats, shape=what, num=num)
        verify(objects[0], stats, what=what, num=num)
        verify(IdentificationResultContainer(coordinate_system=cs, feature_size=0.1, results=objects), stats, what=what, num=num)
        stats.state((dim, what, num))


def run_real(case, stats):
    dim = case['dim']
    cs = CoordinateSystem(limits=[(0., 1.)] * dim, periodic=case['periodic'])
    for i, positions in enumerate(patches(dim, case['num'])):
        for fs in (0.2, 0.1, 0.3):
            random.seed(0)
            res, _ = quiet(identify.run_from_positions, positions, coordinate_system=cs, feature_size=fs, evaluate_line_method=case['method'])
            verify(res, stats, case=case, patch=i, feature_size=fs)
            stats.state((dim, case['periodic'], case['method'], i, fs))
            stats.outcome(tuple((x.dimension, type(x.shape).__name__) for x in res))


def run_earlier(case, stats):
    """Files of earlier versions: dimension as number, positions as list."""
    dim = case['dim']
    path = os.path.join(scratch_dir(), 'earlier.hdf5')
    for item in alphabet(dim, 'all'):
        if item[1] is None:
            continue
        obj = make_object(item, dim)
        cs = CoordinateSystem(limits=LIMITS[dim], periodic=True)
        container = IdentificationResultContainer(coordinate_system=cs, feature_size=0.5, results=[obj])
        io.save(container, path)
        with h5py.File(path, 'r+') as file:
            group = file['results/0']
            del group['dimension']
            group['dimension'] = item[1]
            del group['positions']
            to_hdf5([tuple(float(x) for x in p) for p in obj.positions], group.create_group('positions'))
        diff = first_difference(canon_any(container), canon_any(io.load(path)))
        require(diff is None, 'file of an earlier version: {}'.format(diff), object=item)
        stats.transition(2)
        stats.evaluation()
        stats.state((dim, 'earlier', item))


def finish(stats, tier):
    assert len(stats.sets['states']) > 1500
