"""checkEdgeCrossing() counts the pairs of arcs that cross, exactly."""
from itertools import combinations, product

from mathutils import Vector
import core
import roof
from roof import B

CASES = [((0, 0), (10., 10.)), ((-7.5, 3.25), (.5, .5)), ((1000, -500), (4., 4.)), ((0, 0), (250., .25))]


def orient(p, q, r):
    v = (q[0]-p[0])*(r[1]-p[1])-(q[1]-p[1])*(r[0]-p[0])
    return (v > 0)-(v < 0)


def crossing(a, b, c, d):
    """exact: the open segments ab and cd meet in one point"""
    return orient(a, b, c)*orient(a, b, d) < 0 and orient(c, d, a)*orient(c, d, b) < 0


def near_end():
    """two segments that cross at every place of a fine subdivision, also next to their ends, or just miss"""
    N = 400
    for k in range(-1, N+2):
        for a, b in ((1, 1), (1, 399), (399, 1), (150, 3), (0, 5), (-1, 7)):
            if 0 < k < N or a:                                  # not through an end
                yield ((0, 0), (N, 0)), ((k, -a), (k, b))
                yield ((N, 0), (0, 0)), ((k, b), (k, -a))
                yield ((0, 0), (N, N)), ((k-a, k+a), (k+b, k-b))
    for k in range(1, N):                                       # almost parallel
        yield ((0, 0), (N, 1)), ((0, 1), (k, 0))
        yield ((0, 0), (N, 3)), ((k, 3), (0, -1))


def many():
    """grids of m x n segments, pencils of n segments through a point, complete graphs"""
    for m, n in product(range(1, 8), repeat=2):
        H = [((-1, 2*i), (2*n, 2*i)) for i in range(m)]
        V = [((2*j, -1), (2*j, 2*m)) for j in range(n)]
        yield tuple(H+V)
        yield tuple(V[::-1]+H)
    for n in range(2, 10):
        yield tuple(((-10*i, -7*(10-i)), (30*i, 21*(10-i))) for i in range(n))
        P = [(i*7-i*i, i*i) for i in range(n)]                  # in convex position
        yield tuple(combinations(P, 2))
        yield tuple((b, a) for a, b in combinations(P, 2))


class C13(core.Check):
    id = 'C13'
    technique = 'exhaustive enumeration of sets of arcs on a lattice, compared with an exact reference'
    rule = ('all ordered pairs of directed segments on a 4x3 lattice and all triples of segments on a 3x3 lattice '
            'as separate arcs or as one node with several sinks, in 4 placements; '
            'all crossings on a subdivision of two segments into 400 parts; grids, pencils and complete graphs')
    assumptions = ['at most 3 arcs on small lattices; quadruples of the 2x3 lattice in the thorough tier']

    def tasks(self, tier):
        self.tier = tier
        return [('pair', i) for i in range(24)]+[('triple', i) for i in range(24)] + \
               [('near end', i) for i in range(24)]+[('many', i) for i in range(24)] + \
               ([('quad', i) for i in range(24)] if tier == 'thorough' else [])

    def cases(self, kind):
        if kind == 'near end':
            return near_end()
        if kind == 'many':
            return many()
        if kind == 'pair':
            pts = list(product(range(4), range(3)))
            seg = [(a, b) for a in pts for b in pts if a != b]
            return product(seg, repeat=2)
        pts = list(product(range(3), range(3) if kind == 'triple' else range(2)))
        seg = list(combinations(pts, 2))
        return combinations(seg, 3 if kind == 'triple' else 4)

    def run(self, task, rec):
        kind, i = task
        f = getattr(B, 'checkEdgeCrossing', None)
        if f is None:
            rec.notes.add('there is no function checkEdgeCrossing')
            return
        for n, S in enumerate(self.cases(kind)):
            if n % 24 != i:
                continue
            rec.state()
            bad = self.one(S, rec)
            if bad:
                rec.violation('arcs '+repr(S).replace(' ', ''), bad, {'arcs': S})
                if len(rec.viol) > core.MAX_VIOLATIONS:
                    return
            rec.sample({'arcs': S})

    def one(self, S, rec):
        want = sum(crossing(*a, *b) for a, b in combinations(S, 2))
        for (dx, dy), s in CASES:
            def vec(p):
                return Vector((dx+s[0]*p[0], dy+s[1]*p[1]))
            # separate arcs; and the arcs of a common source as one node
            group = {}
            for a, b in S:
                group.setdefault(a, []).append(b)
            for sk in ([B.Subtree(vec(a), 1., [vec(b)]) for a, b in S],
                       [B.Subtree(vec(a), 1., [vec(b) for b in bs]) for a, bs in group.items()]):
                got, err = roof.outcome(B.checkEdgeCrossing, sk)
                rec.execution()
                rec.transition(len(S)*(len(S)-1)//2)
                if err:
                    return err
                if got != want:
                    return '%r crossings are counted instead of %d' % (got, want)
        rec.outcome(want)

    def replay(self, data):
        bad = self.one([tuple(map(tuple, s)) for s in data['arcs']], core.Recorder())
        return [bad] if bad else []


CHECK = C13()
