"""The geometry kernel on every small lattice configuration, against exact rational arithmetic."""
import inspect
import math
from fractions import Fraction as Fr
from itertools import combinations, permutations, product

from mathutils import Vector
import core
import roof
from roof import B
from bpypolyskel import bpyeuclid as G
try:
    from bpypolyskel import poly2FacesGraph as PG
except ImportError:
    PG = None


def cross(u, v):
    return u[0]*v[1]-u[1]*v[0]


def sub(a, b):
    return (a[0]-b[0], a[1]-b[1])


def meet(p, u, q, v):
    """exact parameters (s, t) with p+s*u == q+t*v or None, if parallel"""
    d = cross(u, v)
    if d == 0:
        return None
    w = sub(q, p)
    return Fr(cross(w, v), d), Fr(cross(w, u), d)


def near(a, b, scale):
    return abs(a-b) <= 2e-6*scale


PLACES = [((0, 0), 1), ((-64, 32), 8), ((512, -256), 2), ((0, 0), Fr(1, 4)),        # exact in single precision
          ((0, 0), Fr(1, 1024))]
ROUNDED = [((Fr(1, 10), Fr(7, 10)), Fr(3, 10)), ((Fr(-33, 10), Fr(9, 7)), Fr(10, 3))]
GRID = list(product(range(3), range(3)))
DIRS = [d for d in product(range(-2, 3), range(-2, 3)) if d != (0, 0)]


class C17(core.Check):
    id = 'C17'
    technique = 'exhaustive enumeration of lattice configurations, compared with exact rational arithmetic'
    rule = ('every pair of lines/rays through points of a 3x3 lattice with directions of a 5x5 lattice in 7 placements, long and almost parallel ones, every '
            'point-line pair, every 4 points in general position (segments), all triangles (circles), all pairs of directions '
            '(angles), all edges')
    assumptions = ['coordinates are exactly representable or rounded once']

    KINDS = ('lines', 'distance', 'segments', 'circle', 'angle', 'edge')

    def tasks(self, tier):
        self.tier = tier
        return [(k, i) for k in self.KINDS for i in range(16 if k == 'lines' else 8)]

    def run(self, task, rec):
        kind, i = task
        m = 16 if kind == 'lines' else 8
        for n, case in enumerate(getattr(self, 'gen_'+kind)()):
            if n % m != i:
                continue
            rec.state()
            bad, err = None, None
            bad, err = self.guard(kind, case, rec)
            if bad or err:
                rec.violation('%s %r' % (kind, case), bad or err, {'kind': kind, 'case': case})
                if len(rec.viol) > core.MAX_VIOLATIONS:
                    return
            rec.sample({'kind': kind, 'case': repr(case)})

    def guard(self, kind, case, rec):
        return roof.outcome(getattr(self, 'do_'+kind), case, rec)

    def gen_lines(self):
        for p, q in product(GRID, GRID):
            for u, v in product(DIRS, DIRS):
                yield p, u, q, v
        # long and almost parallel directions
        for p, q in product(GRID, GRID):
            for i, j in product(range(-3, 4), repeat=2):
                for su, sv in ((1, 1), (1, -1), (-1, -1)):
                    if i != j:
                        yield p, (512*su, i*su), q, (512*sv, j*sv)
                        yield p, (i*su, 512*su), q, (j*sv, 512*sv)

    def place(self, p, at):
        (dx, dy), s = at
        return (dx+s*p[0], dy+s*p[1])

    def do_lines(self, case, rec):
        p, u, q, v = case
        ref = meet(p, u, q, v)
        for at in PLACES+ROUNDED:
            P, Q = self.place(p, at), self.place(q, at)
            U, W = (at[1]*u[0], at[1]*u[1]), (at[1]*v[0], at[1]*v[1])
            if at in ROUNDED and (ref is None or abs(u[0])+abs(u[1]) > 9):     # parallel up to rounding
                continue
            VP, VU, VQ, VW = (Vector((float(a[0]), float(a[1]))) for a in (P, U, Q, W))
            for ka, kb in product('LR', 'LR'):
                a = G.Line2(VP, VU, 'pv') if ka == 'L' else G.Ray2(VP, VU)
                b = G.Line2(VQ, VQ+VW, 'pp') if kb == 'L' else G.Ray2(VQ, VW)
                got = a.intersect(b)
                rec.execution()
                rec.transition()
                want = ref is not None and (ka == 'L' or ref[0] >= 0) and (kb == 'L' or ref[1] >= 0)
                if got is not None and not want and ref is not None and all(
                        k == 'L' or t*math.hypot(*V) > -.002 for k, t, V in ((ka, ref[0], U), (kb, ref[1], W))):
                    want = True         # behind the origin by less than the tolerance of the library
                if (got is not None) != want:
                    return '%s%s at %s: intersection %s instead of %s' % (ka, kb, at, got, want)
                rec.outcome(want)
                if want:
                    x, y = P[0]+ref[0]*U[0], P[1]+ref[0]*U[1]
                    s = 10*at[1]+abs(at[0][0])+abs(at[0][1])
                    if abs(u[0])+abs(u[1]) > 9:                 # rounding is amplified
                        s = 4*(s+abs(x)+abs(y))
                    if not (near(got[0], x, s) and near(got[1], y, s)):
                        return '%s%s at %s: intersection in %s instead of (%s, %s)' % (ka, kb, at, got, x, y)

    def gen_distance(self):
        for a, b in permutations(GRID, 2):
            for p in product(range(-2, 5), range(-2, 5)):
                yield a, b, p

    def do_distance(self, case, rec):
        a, b, p = case
        d = math.sqrt(Fr(cross(sub(b, a), sub(p, a))**2, (b[0]-a[0])**2+(b[1]-a[1])**2))
        for at in PLACES+ROUNDED:
            A, E, P = (Vector(tuple(float(x) for x in self.place(x, at))) for x in case)
            for L in (G.Line2(G.Edge2(A, E)), G.Line2(A, E, 'pp'), G.Line2(A, E-A, 'pv')):
                got = L.distance(P)
                rec.execution()
                rec.transition()
                if not near(got, d*at[1], 100*(at[1]+abs(at[0][0])/50)):
                    return 'at %s: distance %s instead of %s' % (at, got, d*at[1])
        rec.outcome(round(d, 3))

    def gen_segments(self):
        for c in product(product(range(3), range(4)), repeat=4):
            if len(set(c)) == 4 and all(cross(sub(y, x), sub(z, x)) for x, y, z in combinations(c, 3)):
                yield c

    def do_segments(self, case, rec):
        f = getattr(B, 'intersect', None)
        if f is None:
            return None
        a, b, c, d = case

        def side(x, y, z):
            return cross(sub(y, x), sub(z, x)) > 0
        want = side(a, b, c) != side(a, b, d) and side(c, d, a) != side(c, d, b)
        for at in PLACES[:2]:
            got = f(*(Vector(tuple(float(x) for x in self.place(x, at))) for x in case))
            rec.execution()
            rec.transition()
            if bool(got) != want:
                return 'at %s: the segments cross: %s instead of %s' % (at, got, want)
        rec.outcome(want)

    def gen_circle(self):
        for c in permutations(GRID, 3):
            if cross(sub(c[1], c[0]), sub(c[2], c[0])):
                yield c

    def do_circle(self, case, rec):
        f = getattr(G, 'fitCircle3Points', None)
        if f is None:
            return None
        a, b, c = case
        for extra in (0, 1, 2):
            # the first, the middle and the last one of the points
            pts = [a]+[(9, 7)]*extra+[b]+[(-5, 8)]*extra+[c]
            for at in PLACES:
                V = [Vector(tuple(float(x) for x in self.place(x, at))) for x in pts]
                (m, R) = f(V)
                rec.execution()
                rec.transition()
                s = float(at[1])
                for p in (V[0], V[len(V)//2], V[-1]):
                    if abs(math.dist(p, m)-R) > 1e-3*s or R <= 0:
                        return 'at %s: center %s, radius %g, but %s is at the distance %g' % (at, m, R, p, math.dist(p, m))
            rec.outcome(round(R/s, 4))

    def gen_angle(self):
        R = [d for d in product(range(-4, 5), range(-4, 5)) if d != (0, 0)]
        return product(R, R)

    def do_angle(self, case, rec):
        f = getattr(PG, 'pseudoangle', None)
        if f is None:
            return None
        u, v = case
        x, y = f(Vector((float(u[0]), float(u[1])))), f(Vector((float(v[0])*3, float(v[1])*3, 5.)))
        rec.execution(2)
        rec.transition()

        def half(w):
            return 0 if w[1] > 0 or w[1] == 0 and w[0] > 0 else 1
        k = half(u)-half(v) or -cross(u, v)
        if not (0 <= x <= 4 and 0 <= y <= 4):
            return 'the pseudo angles %s and %s are not in [0, 4]' % (x, y)
        o = f(Vector((1., 0.)))                                 # only the circular order matters
        x, y = (0. if a > 4-1e-6 else a for a in ((x-o) % 4, (y-o) % 4))
        if (abs(x-y) > 1e-6) != (k != 0) or k and (x < y) != (k < 0):
            return 'pseudo angles %s and %s' % (x, y)
        rec.outcome(k > 0)

    def gen_edge(self):
        yield from permutations(product(range(-1, 4), range(-1, 4)), 2)
        # almost unit vectors (with the scale 1/1024)
        for i, k in product(range(-3, 4), range(13)):
            for d in ((1024+i, k), (-k, 1024+i), (-1024-i, -k)):
                yield (0, 0), d

    def do_edge(self, case, rec):
        a, b = case
        L = math.dist(a, b)
        for at in PLACES+ROUNDED:
            A, E = (Vector(tuple(float(x) for x in self.place(x, at))) for x in case)
            V = [Vector((9., 9., 9.)), Vector((E[0], E[1], 3.)), Vector((1., 1., 1.)), Vector((A[0], A[1], -3.))]
            u = Vector((float(b[0]-a[0])/L, float(b[1]-a[1])/L, 0.))
            cen = Vector((2., -1., 0.))
            for e, o in ((G.Edge2(A, E), (0., 0.)), (G.Edge2(A, E, u), (0., 0.)), (G.Edge2(3, 1, None, V, cen), (2., -1.)),
                         (G.Edge2(3, 1, u, V, cen), (2., -1.))):
                rec.execution()
                rec.transition()
                if max(math.dist(e.p1, (A[0]-o[0], A[1]-o[1])), math.dist(e.p2, (E[0]-o[0], E[1]-o[1]))) > 1e-6*(1+A.length+E.length):
                    return 'end points %s, %s' % (e.p1, e.p2)
                if math.dist(e.norm, u.xy) > 1e-6:
                    return 'direction %s instead of %s' % (e.norm, u)
                if abs(e.length_squared()-L*L*float(at[1])**2) > 1e-4*L*L*float(at[1])**2:
                    return 'squared length %s' % e.length_squared()
            if (e.i1, e.i2) != (3, 1):
                return 'indices %s, %s' % (e.i1, e.i2)
        rec.outcome(round(L, 3))

    def replay(self, data):
        def tup(x):
            return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x
        bad, err = self.guard(data['kind'], tup(data['case']), core.Recorder())
        return [x for x in (bad, err) if x]


CHECK = C17()
