"""Runs the code under test and judges the roof against an independent certificate."""
import math
import os
import signal
import sys

REPO = os.environ.get('MC_REPO', '/repo')
sys.dont_write_bytecode = True
os.environ.setdefault('BPYPOLYSKEL_MC', '1')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
from mathutils import Vector                                    # noqa: E402
from bpypolyskel import bpypolyskel as B                        # noqa: E402
if not os.path.realpath(B.__file__).startswith(os.path.realpath(REPO)+os.sep):
    raise SystemExit('bpypolyskel does not come from %s: %s' % (REPO, B.__file__))

TIMEOUT = 4.0       # CPU seconds; a footprint of these domains takes some milliseconds
TOL = 0.15          # the code merges nodes nearer than 0.1 (Manhattan distance)


timeouts = 0


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def limited(fn, *a, **k):
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, TIMEOUT)
    try:
        return fn(*a, **k)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def outcome(fn, *a, **k):
    """(value, None) or (None, description of the exception)"""
    try:
        return limited(fn, *a, **k), None
    except Timeout:
        global timeouts
        timeouts += 1
        return None, 'does not terminate (%.0f s of CPU time)' % TIMEOUT
    except Exception as e:
        return None, 'raises %s: %s' % (type(e).__name__, str(e)[:80])


class Roof:
    """polygonize() on contours, with everything that a caller can observe"""

    def __init__(self, contours, tan=1.0, height=0.0, z=0.0, unit=None, faces=None, pad=None):
        self.contours, self.tan, self.height, self.z = contours, tan, height, z
        self.verts = verts = []
        self.infos = infos = []
        for c in contours:
            if pad:                                             # an unused vertex before every contour
                verts.append(Vector(pad))
            infos.append((len(verts), len(c)))
            verts.extend(Vector((p[0], p[1], z)) for p in c)
        if pad:
            verts.append(Vector(pad))
        self.n0 = len(verts)
        self.faces, self.error = outcome(B.polygonize, verts, infos[0][0], infos[0][1],
                                         infos[1:] or None, height, tan, faces, unit)
        self.V = [(v[0], v[1], v[2]) for v in verts]

    def walls(self):
        """directed wall edges, as a dict edge -> (unit direction, point)"""
        w = {}
        for s, n in self.infos:
            for i in range(n):
                a, b = s+i, s+(i+1) % n
                A, Bp = self.V[a], self.V[b]
                L = math.hypot(Bp[0]-A[0], Bp[1]-A[1])
                w[a, b] = ((Bp[0]-A[0])/L, (Bp[1]-A[1])/L, A[0], A[1])
        return w


def walldist(w, p):
    """signed distance of p to the line of wall w, positive on the side of the building"""
    return w[0]*(p[1]-w[3]) - w[1]*(p[0]-w[2])


def fedges(f):
    return list(zip(f, f[1:]+f[:1]))


def _isint(i):
    return isinstance(i, int) and not isinstance(i, bool)


# Every certificate returns a list of complaints about a Roof that has been computed without error.
def wellformed(R):
    out = []
    if not isinstance(R.faces, list):
        return ['the result is not a list of faces: %r' % (R.faces,)]
    if not R.faces:
        out.append('no faces at all')
    for f in R.faces:
        if not isinstance(f, list) or not all(_isint(i) for i in f):
            out.append('face %r is not a list of indices' % (f,))
        elif any(i < 0 or i >= len(R.V) for i in f):
            out.append('face %r has an index outside of the %d vertices' % (f, len(R.V)))
        elif len(f) < 3:
            out.append('face %r has less than 3 vertices' % (f,))
        elif len(set(f)) != len(f):
            out.append('face %r repeats a vertex' % (f,))
    if not all(math.isfinite(x) for v in R.V for x in v):
        out.append('a vertex is not finite')
    if len({tuple(f[f.index(min(f)):]+f[:f.index(min(f))]) for f in R.faces if f}) != len(R.faces):
        out.append('a face is returned twice')
    return out


def usable(R):
    """the other certificates need valid indices"""
    return R.error is None and isinstance(R.faces, list) and R.faces and \
        all(isinstance(f, list) and f and all(_isint(i) and 0 <= i < len(R.V) for i in f) for f in R.faces)


def wallcover(R):
    W = R.walls()
    seen = dict.fromkeys(W, 0)
    out = []
    for f in R.faces:
        if len(f) < 2 or (f[0], f[1]) not in W:
            out.append('face %r does not start with a wall edge' % (f,))
        for e in fedges(f):
            if e in seen:
                seen[e] += 1
            elif (e[1], e[0]) in seen:
                out.append('face %r runs against wall %r' % (f, (e[1], e[0])))
    for e, k in seen.items():
        if k != 1:
            out.append('wall %r belongs to %d faces' % (e, k))
    return out


def watertight(R):
    W = R.walls()
    out, de = [], {}
    for f in R.faces:
        if area2xy([R.V[i] for i in f]) <= 1e-6:
            out.append('face %r is not counterclockwise' % (f,))
        for e in fedges(f):
            de[e] = de.get(e, 0)+1
    for e, k in de.items():
        if k > 1:
            out.append('edge %r is used %d times in the same direction' % (e, k))
        if e not in W and (e[1], e[0]) not in de:
            out.append('edge %r has no second face' % (e,))
    A = sum(area2xy(c) for c in R.contours)
    S = sum(area2xy([R.V[i] for i in f]) for f in R.faces)
    if abs(A-S) > 1e-4*abs(A):
        out.append('the faces cover an area of %.5g, the footprint has %.5g' % (S/2, A/2))
    return out


def properly(a, b, c, d, eps):
    """the segments ab and cd cross in their interiors, every end point by more than eps"""
    def o(p, q, r):
        L = math.hypot(q[0]-p[0], q[1]-p[1])
        return ((q[0]-p[0])*(r[1]-p[1])-(q[1]-p[1])*(r[0]-p[0]))/L if L else 0.
    u, v = o(a, b, c), o(a, b, d)
    if u*v >= 0 or min(abs(u), abs(v)) <= eps:
        return False
    u, v = o(c, d, a), o(c, d, b)
    return u*v < 0 and min(abs(u), abs(v)) > eps


def simple(R, eps=0.02):
    """no face crosses itself in plan (together with watertight(): the faces do not overlap)"""
    out = []
    for f in R.faces:
        E = fedges(f)
        n = len(E)
        if n < 4:
            continue
        E = [(R.V[a], R.V[b]) for a, b in E]
        for i in range(n):
            for j in range(i+2, n):
                if (j+1) % n != i and properly(*E[i], *E[j], eps):
                    out.append('face %r crosses itself' % (f,))
                    break
            else:
                continue
            break
    return out


def tiling(R):
    return watertight(R)+simple(R)


def area2xy(P):
    return sum(P[i-1][0]*P[i][1]-P[i][0]*P[i-1][1] for i in range(len(P)))


def slope(R, tol=TOL, tan=None):
    """every vertex of a face lies in the roof plane of every wall of the face"""
    W = R.walls()
    out = []
    tan = R.tan if tan is None else tan
    for f in R.faces:
        for e in fedges(f):
            w = W.get(e)
            if w is None:
                continue
            for i in f:
                p = R.V[i]
                want = R.z + tan*walldist(w, p)
                if not abs(p[2]-want) <= tol*max(tan, 0.1):
                    out.append('vertex %d of face %r is at height %.4f, the plane of wall %r is there at %.4f'
                               % (i, f, p[2], e, want))
    return out


def coplanar(W):
    """partition of the walls (end points) into roof planes: walls on one line, that face the same side, and
    everything linked by such pairs (so the partition does not depend on the order of the walls)"""
    n = len(W)
    D = []
    for (a, b) in W:
        L = math.hypot(b[0]-a[0], b[1]-a[1])
        D.append((L, (b[0]-a[0])/L, (b[1]-a[1])/L))
    group = list(range(n))
    for i in range(n):
        for j in range(i):
            if group[i] == group[j]:
                continue
            k, m = (i, j) if D[i][0] >= D[j][0] else (j, i)     # the line through the longer one
            (c, d), (L, x, y), (M, u, v) = W[k], D[k], D[m]
            if abs(x*v-y*u) <= 0.01 and x*u+y*v > 0 and all(abs(x*(p[1]-c[1])-y*(p[0]-c[0])) <= TOL for p in W[m]):
                group = [group[i] if g == group[j] else g for g in group]
    return [[W[i] for i in range(n) if group[i] == g] for g in dict.fromkeys(group)]


def wallareas(R):
    """geometric signature: roof plane (end points of its first wall) -> plan area, perimeter and highest
    point of its faces"""
    W = R.walls()
    face = {}
    for k, f in enumerate(R.faces):
        for e in fedges(f):
            if e in W:
                face[R.V[e[0]][:2], R.V[e[1]][:2]] = k
    sig = {}
    for g in coplanar([(R.V[a][:2], R.V[b][:2]) for a, b in W]):
        ks = {face[w] for w in g if w in face}
        area = per = 0.
        top = -math.inf
        for k in ks:
            P = [R.V[i] for i in R.faces[k]]
            area += area2xy(P)/2
            per += sum(math.hypot(p[0]-q[0], p[1]-q[1]) for p, q in zip(P, P[1:]+P[:1]))
            top = max(top, max(p[2] for p in P))
        sig[tuple(g)] = (area, per, top)
    return sig


def samefaces(R, S, move=lambda p: p, tol=TOL, mirrored=False):
    """complaints, if a roof plane of R has another area or height than the moved plane in S"""
    a, b = wallareas(R), wallareas(S)
    out = []
    at = [(w, s) for g, s in b.items() for w in g]
    for g, (ar, per, top) in a.items():
        u, v = (move(g[0][1]), move(g[0][0])) if mirrored else (move(g[0][0]), move(g[0][1]))
        w, s = min(at, key=lambda x: math.dist(x[0][0], u)+math.dist(x[0][1], v))
        if math.dist(w[0], u)+math.dist(w[1], v) > 0.02:
            out.append('the wall from %s to %s is missing' % (u, v))
        elif not (abs(s[0]-ar) <= tol*per+1e-3*abs(ar) and abs(s[2]-top) <= 2*tol):
            out.append('the roof plane of the wall from (%.3f, %.3f) to (%.3f, %.3f) has the area %.4f and height %.4f '
                       'instead of %.4f and %.4f' % (u[0], u[1], v[0], v[1], s[0], s[2], ar, top))
    return out
