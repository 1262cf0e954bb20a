"""
Reference for the grouping of positions, with exact distances, and helpers for
running the identification quietly.
"""
import warnings
from fractions import Fraction

from .boxes import ExactBox


class Grouper:
    """Exact comparison of distances with the feature size, remembered by pair."""
    def __init__(self, box, feature_size):
        self.box = box
        self.limit = Fraction(feature_size)**2
        self.memory = {}

    def margin(self, p, q):
        """Squared distance minus squared feature size."""
        key = (p, q)
        if key not in self.memory:
            res = sum(d * d for d in self.box.delta(p, q)) - self.limit
            self.memory[key] = self.memory[(q, p)] = res
        return self.memory[key]

    def linked(self, p, q):
        return self.margin(p, q) <= 0

    def doubtful(self, p, q, tol):
        """Rounding may decide the comparison."""
        margin = self.margin(p, q)
        return margin != 0 and abs(margin) < tol

    def clusters(self, positions):
        """The set of the clusters, which are frozensets of positions."""
        left = set(tuple(p) for p in positions)
        res = []
        while left:
            todo = [left.pop()]
            group = set(todo)
            while todo:
                p = todo.pop()
                near = {q for q in left if self.linked(p, q)}
                left -= near
                group |= near
                todo += near
            res.append(frozenset(group))
        return frozenset(res)


def quiet(fun, *args, **kwargs):
    """Run without showing warnings; returns the result and the warnings."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        res = fun(*args, **kwargs)
    return res, [str(w.message) for w in caught]


def unwrap(box, positions, feature_size):
    """
    Positions of a cluster in unwrapped (exact) coordinates, and whether it closes
    on itself through the boundary.
    """
    grouper = Grouper(box, feature_size)
    positions = [tuple(p) for p in positions]
    place = {positions[0]: [Fraction(x) for x in positions[0]]}
    todo = [positions[0]]
    closed = False
    while todo:
        p = todo.pop()
        for q in positions:
            if q != p and grouper.linked(p, q):
                image = [x + d for x, d in zip(place[p], box.delta(p, q))]
                if q not in place:
                    place[q] = image
                    todo.append(q)
                elif place[q] != image:
                    closed = True
    return place, closed
