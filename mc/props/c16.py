"""Face tracing: the faces of every small plane graph, against an exact independent walk."""
import math
from functools import lru_cache
from itertools import combinations

from mathutils import Vector
import core
import roof

try:
    from bpypolyskel.poly2FacesGraph import poly2FacesGraph as Graph
except ImportError:
    Graph = None

POINTS = {
    'grid 3x2': [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)],
    'pentagon with center': [(0, 0), (4, -1), (6, 3), (2, 6), (-1, 4), (2, 2)],
    'nested triangles': [(0, 0), (9, 0), (4, 8), (3, 2), (5, 2), (4, 4)],
    'hexagon': [(2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2)],
    'grid 3x2 and one': [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (1, 3)],
}


def orient(p, q, r):
    v = (q[0]-p[0])*(r[1]-p[1])-(q[1]-p[1])*(r[0]-p[0])
    return (v > 0)-(v < 0)


def between(p, a, b):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


@lru_cache(None)
def segments(name):
    P = POINTS[name]
    S = [(i, j) for i, j in combinations(range(len(P)), 2)
         if not any(between(P[k], P[i], P[j]) for k in range(len(P)) if k not in (i, j))]
    X = {}
    for a in range(len(S)):
        for b in range(a):
            p, q = (P[k] for k in S[a])
            r, s = (P[k] for k in S[b])
            X[a, b] = orient(p, q, r)*orient(p, q, s) < 0 and orient(r, s, p)*orient(r, s, q) < 0
    return S, X


def plane(name, first):
    """all plane subsets of the segments with the given choice of the first segments"""
    S, X = segments(name)

    def rec(k, chosen):
        if k == len(S):
            yield [S[i] for i in chosen]
            return
        if k >= len(first) or not first[k]:
            yield from rec(k+1, chosen)
        if k >= len(first) or first[k]:
            if not any(X[k, c] for c in chosen):
                yield from rec(k+1, chosen+[k])
    return rec(0, [])


def half(v):
    return 0 if v[1] > 0 or v[1] == 0 and v[0] > 0 else 1


def ccw_sorted(P, c, nb):
    """neighbours of c counterclockwise, exact"""
    from functools import cmp_to_key

    def cmp(a, b):
        u = (P[a][0]-P[c][0], P[a][1]-P[c][1])
        v = (P[b][0]-P[c][0], P[b][1]-P[c][1])
        if half(u) != half(v):
            return half(u)-half(v)
        x = u[0]*v[1]-u[1]*v[0]
        return -1 if x > 0 else 1 if x < 0 else 0
    return sorted(nb, key=cmp_to_key(cmp))


def reference(P, E):
    """all face walks with the face on the left, as canonical cycles of vertices"""
    nb = {}
    for a, b in E:
        nb.setdefault(a, []).append(b)
        nb.setdefault(b, []).append(a)
    order = {c: ccw_sorted(P, c, n) for c, n in nb.items()}
    todo = {(a, b) for a, b in E} | {(b, a) for a, b in E}
    out = []
    while todo:
        e = first = min(todo)
        cyc = []
        while True:
            todo.discard(e)
            cyc.append(e[0])
            o = order[e[1]]
            # the next edge clockwise after the way back
            e = (e[1], o[(o.index(e[0])-1) % len(o)])
            if e == first:
                break
        out.append(cyc)
    return out


def canon(c):
    return min(tuple(c[i:]+c[:i]) for i in range(len(c)))


def circle(k, R, ph=0.):
    return [(round(R*math.cos(2*math.pi*(i+ph)/k)), round(R*math.sin(2*math.pi*(i+ph)/k))) for i in range(k)]


def big(tier):
    """larger graphs with many edges at a vertex: stars, fans, wheels, double wheels, prisms and grids"""
    for k in range(1, 40 if tier == 'thorough' else 22):
        for ph in (0., .5, .21):
            P = circle(k, 1000, ph)+[(0, 0)]
            spokes = [(i, k) for i in range(k)]
            rim = [(i, (i+1) % k) for i in range(k)]
            yield 'star %d %g' % (k, ph), P, spokes
            if k > 2:
                yield 'wheel %d %g' % (k, ph), P, rim+spokes
                yield 'fan %d %g' % (k, ph), P, rim[:-1]+spokes
                yield 'half wheel %d %g' % (k, ph), P, rim+spokes[::2]
                Q = circle(k, 1000, ph)+circle(k, 400, ph+.25)
                yield 'prism %d %g' % (k, ph), Q, rim+[(a+k, b+k) for a, b in rim]+[(i, i+k) for i in range(k)]
                yield 'two rings %d %g' % (k, ph), Q, rim+[(a+k, b+k) for a, b in rim]
                W = circle(2*k, 1000, ph)[:k+1]+[(0, 0)]        # half a circle and its center
                if ph == 0.:
                    yield 'gable %d' % k, W, [(i, i+1) for i in range(k)]+[(i, k+1) for i in range(k+1)]
    for m in range(1, 6):
        for n in range(1, 6):
            P = [(100*i+7*j, 100*j-3*i) for i in range(m+1) for j in range(n+1)]
            ix = lambda i, j: i*(n+1)+j
            E = [(ix(i, j), ix(i+1, j)) for i in range(m) for j in range(n+1)]
            E += [(ix(i, j), ix(i, j+1)) for i in range(m+1) for j in range(n)]
            yield 'grid %dx%d' % (m, n), P, E
            yield 'diagonals %dx%d' % (m, n), P, E+[(ix(i, j), ix(i+1, j+1)) for i in range(m) for j in range(n)]


class C16(core.Check):
    id = 'C16'
    technique = 'exhaustive enumeration of plane graphs on small point sets, compared with an exact face walk'
    rule = ('every plane subset of the segments between the points of each set, three numberings of the vertices, every '
            'number of contour vertices, both orders of insertion of the edges; wheels, fans, stars, prisms and grids with up to 22 (39) edges at a vertex')
    assumptions = ['graphs with at most 7 vertices (drawn with straight edges)', 'point sets: '+', '.join(POINTS)]

    def tasks(self, tier):
        T = []
        for name in POINTS:
            if tier != 'thorough' and name == 'grid 3x2 and one':
                continue
            for m in range(64):
                T.append((name, tuple(bool(m >> i & 1) for i in range(6))))
        return T+[('big', i) for i in range(16)]

    def numberings(self, n):
        yield list(range(n))
        yield list(range(n-1, -1, -1))
        yield [(next(q for q in (3, 5, 7, 11, 13) if n % q)*i+1) % n for i in range(n)]

    def run(self, task, rec):
        if Graph is None:
            rec.notes.add('there is no class poly2FacesGraph')
            return
        name, first = task
        if name == 'big':
            for i, (what, P, E) in enumerate(big(core.TIER)):
                if i % 16 == first:
                    rec.state()
                    for perm in self.numberings(len(P)):
                        for ins in (0, 1):
                            ks = sorted({0, 1, len(P)//2, len(P)-1, len(P)})
                            bad = self.one(what, E, perm, ins, rec, P, ks)
                            if bad:
                                rec.violation(what.replace(' ', '-'), bad,
                                              {'points': P, 'edges': E, 'perm': perm, 'insertion': ins})
            return
        for E in plane(name, first):
            rec.state()
            for nn, perm in enumerate(self.numberings(len(POINTS[name]))):
                for ins in (0, 1):
                    bad = self.one(name, E, perm, ins, rec)
                    if bad:
                        rec.violation('%s %s' % (name.replace(' ', '-'), repr(E).replace(' ', '')), bad,
                                      {'name': name, 'edges': E, 'perm': perm, 'insertion': ins})
                        if len(rec.viol) > core.MAX_VIOLATIONS:
                            return
            rec.sample({'points': name, 'edges': E})

    def one(self, name, E, perm, ins, rec, P0=None, ks=None):
        P0 = P0 or POINTS[name]
        n = len(P0)
        P = [None]*n
        for i, p in enumerate(P0):
            P[perm[i]] = p
        F = [(perm[a], perm[b]) for a, b in E]
        # heights and a scale must not matter
        V = [Vector((x*7.5-3., y*7.5+2., 1.3*i)) for i, (x, y) in enumerate(P)]
        want = reference(P, F)

        def build():
            g = Graph()
            for a, b in (reversed(F) if ins else F):
                g.add_edge((b, a) if ins else (a, b))
            return g, g.circular_embedding(V, 'CCW')
        r, err = roof.outcome(build)
        if err:
            return err
        g, emb = r
        for k in ks or range(n+1):
            got, err = roof.outcome(g.faces, emb, k)
            rec.execution()
            rec.transition(2*len(F))
            if err:
                return '%d contour vertices: %s' % (k, err)
            ref = sorted(canon(c) for c in want if any(i >= k for i in c))
            if sorted(canon(list(f)) for f in got) != ref:
                return '%d contour vertices: faces %r instead of %r' % (k, got, ref)
            for f in got:
                E2 = list(zip(f, f[1:]+f[:1]))
                if any(a < k and b < k for a, b in E2) and not (f[0] < k and f[1] < k):
                    return '%d contour vertices: face %r does not start with an edge of the contour' % (k, f)
            rec.outcome((k, len(ref)))
        return None

    def replay(self, data):
        bad = self.one(data.get('name'), [tuple(e) for e in data['edges']], data['perm'], data['insertion'], core.Recorder(),
                       data.get('points'))
        return [bad] if bad else []


CHECK = C16()
