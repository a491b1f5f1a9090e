"""Exhaustive enumerators of footprints (all arithmetic here is exact, on integers).

A footprint is a list of contours [outer, hole, ...]; a contour is a list of (x, y) floats.
Outer contours are counterclockwise, holes clockwise.  Every domain is split in tasks, so that
the workers enumerate (and not only execute) in parallel.
"""
import math
from itertools import combinations, product


# ------------------------------------------------------------------ exact predicates
def cross(o, a, b):
    return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])


def onseg(a, b, p):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) \
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def segint(a, b, c, d):
    """closed segments ab and cd have a common point"""
    s = lambda v: (v > 0) - (v < 0)
    d1, d2, d3, d4 = s(cross(a, b, c)), s(cross(a, b, d)), s(cross(c, d, a)), s(cross(c, d, b))
    if d1*d2 < 0 and d3*d4 < 0:
        return True
    return onseg(a, b, c) or onseg(a, b, d) or onseg(c, d, a) or onseg(c, d, b)


def area2(P):
    return sum(P[i-1][0]*P[i][1] - P[i][0]*P[i-1][1] for i in range(len(P)))


def rots(P):
    P = list(P)
    return [P[r:]+P[:r] for r in range(len(P))]


def inside(P, q):
    """q strictly inside polygon P (exact, on integers)"""
    n = len(P)
    if any(onseg(P[i-1], P[i], q) for i in range(n)):
        return False
    c = False
    for i in range(n):
        a, b = P[i-1], P[i]
        if (a[1] > q[1]) != (b[1] > q[1]):
            # x of crossing > q.x, without division
            t = (b[0]-a[0])*(q[1]-a[1]) - (q[0]-a[0])*(b[1]-a[1])
            if (t > 0) == (b[1] > a[1]):
                c = not c
    return c


def nested(outer, hole):
    n, m = len(outer), len(hole)
    return all(inside(outer, q) for q in hole) and \
        not any(segint(outer[i-1], outer[i], hole[j-1], hole[j]) for i in range(n) for j in range(m))


def disjoint(h1, h2):
    n, m = len(h1), len(h2)
    return not any(segint(h1[i-1], h1[i], h2[j-1], h2[j]) for i in range(n) for j in range(m)) and \
        not inside(h1, h2[0]) and not inside(h2, h1[0])


def valid(contours):
    """exact validity of a footprint with integer coordinates: simple contours, holes nested and disjoint"""
    for k, c in enumerate(contours):
        n = len(c)
        if n < 3 or len(set(c)) != n:
            return False
        for i in range(n):
            a, b, d = c[i-1], c[i], c[(i+1) % n]
            if onseg(a, b, d) or onseg(b, d, a):
                return False        # spike
            for j in range(i+1, n):
                if j == i or (j+1) % n == i or (i+1) % n == j:
                    continue
                if segint(c[i-1], c[i], c[j-1], c[j]):
                    return False
        if (area2(c) > 0) != (k == 0):
            return False
    return all(nested(contours[0], h) for h in contours[1:]) and \
        all(disjoint(a, b) for a, b in combinations(contours[1:], 2))


# ------------------------------------------------------------------ lattice polygons
class Lattice:
    """All simple polygons (counterclockwise, smallest vertex index first) on a point set."""

    def __init__(self, pts, nmax, nmin=3, collinear=False):
        self.pts, self.nmax, self.nmin, self.collinear = pts, nmax, nmin, collinear
        n = len(pts)
        pairs = list(combinations(range(n), 2))
        self.pid = pid = {}
        for k, (i, j) in enumerate(pairs):
            pid[i, j] = pid[j, i] = k
        self.conf = conf = [0]*len(pairs)
        for k, (i, j) in enumerate(pairs):
            for l, (p, q) in enumerate(pairs):
                sh = {i, j} & {p, q}
                if len(sh) == 2:
                    continue
                if not sh:
                    if segint(pts[i], pts[j], pts[p], pts[q]):
                        conf[k] |= 1 << l
                else:
                    s = sh.pop()
                    o1 = i if j == s else j
                    o2 = p if q == s else q
                    if onseg(pts[s], pts[o1], pts[o2]) or onseg(pts[s], pts[o2], pts[o1]):
                        conf[k] |= 1 << l

    def prefixes(self):
        n = len(self.pts)
        return [(s, v) for s in range(n) for v in range(s+1, n)]

    def gen(self, prefix):
        pts, pid, conf = self.pts, self.pid, self.conf
        n, nmin, nmax, collinear = len(pts), self.nmin, self.nmax, self.collinear

        def ok3(a, b, c):
            return collinear or cross(pts[a], pts[b], pts[c]) != 0

        def rec(path, used, bad):
            if len(path) >= nmin:
                k = pid[path[-1], path[0]]
                if not (bad >> k) & 1 and ok3(path[-2], path[-1], path[0]) and ok3(path[-1], path[0], path[1]):
                    P = [pts[i] for i in path]
                    if area2(P) > 0:
                        yield P
            if len(path) < nmax:
                for v in range(path[0]+1, n):
                    if used >> v & 1:
                        continue
                    k = pid[path[-1], v]
                    if bad >> k & 1 or (len(path) >= 2 and not ok3(path[-2], path[-1], v)):
                        continue
                    path.append(v)
                    yield from rec(path, used | 1 << v, bad | conf[k])
                    path.pop()
        s, v = prefix
        yield from rec([s, v], 1 << s | 1 << v, conf[pid[s, v]])


def grid(xs, ys):
    return [(x, y) for y in ys for x in xs]


def sheared(w, h, XS=(0, 13, 29, 41, 58), YS=(0, 11, 25, 38, 47)):
    """a lattice in general position: no two edges parallel by construction, no symmetric ties"""
    return [(XS[i]+2*j+(i*j) % 3, YS[j]+3*i+(i*i*j) % 2) for j in range(h) for i in range(w)]


def polyominoes(n):
    S = {frozenset([(0, 0)])}
    for _ in range(n-1):
        N = set()
        for s in S:
            for x, y in s:
                for d in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                    c = (x+d[0], y+d[1])
                    if c not in s:
                        t = set(s) | {c}
                        mx, my = min(a for a, _ in t), min(b for _, b in t)
                        N.add(frozenset((a-mx, b-my) for a, b in t))
        S = N
    return sorted(map(sorted, S))


def outline(cells):
    """contours of a polyomino (outer first), None if it touches itself in a vertex"""
    cells = set(cells)
    nx = {}
    for x, y in cells:
        for a, b, o in (((x, y), (x+1, y), (x, y-1)), ((x+1, y), (x+1, y+1), (x+1, y)),
                        ((x+1, y+1), (x, y+1), (x, y+1)), ((x, y+1), (x, y), (x-1, y))):
            if o not in cells:
                if a in nx:
                    return None
                nx[a] = b
    loops = []
    while nx:
        s = min(nx)
        l, c = [], s
        while True:
            l.append(c)
            c = nx.pop(c)
            if c == s:
                break
        loops.append([p for i, p in enumerate(l) if cross(l[i-1], p, l[(i+1) % len(l)]) != 0])
    loops.sort(key=lambda l: -area2(l))
    return loops


def canon(contours):
    """Canonical key of a footprint with integer coordinates, up to translation, the 8 symmetries
    of the square, start vertices and the order of the holes."""
    best = None
    for sx, sy, sw in product((1, -1), (1, -1), (0, 1)):
        C = []
        for c in contours:
            q = [((y, x) if sw else (x, y)) for x, y in ((sx*x, sy*y) for x, y in c)]
            if sx*sy*(-1 if sw else 1) < 0:
                q.reverse()
            C.append(q)
        mx, my = min(p[0] for p in C[0]), min(p[1] for p in C[0])
        C = [[(x-mx, y-my) for x, y in c] for c in C]
        C = [c[c.index(min(c)):] + c[:c.index(min(c))] for c in C]
        C = [C[0]] + sorted(C[1:])
        if best is None or C < best:
            best = C
    return '/'.join('_'.join('%d,%d' % p for p in c) for c in best)


# ------------------------------------------------------------------ parametric families
def regular(n, r, phase=0.0, cx=0.0, cy=0.0):
    return [(cx+r*math.cos(2*math.pi*(i+phase)/n), cy+r*math.sin(2*math.pi*(i+phase)/n)) for i in range(n)]


def star(n, r1, r2, phase=0.0):
    return [((r1 if i % 2 == 0 else r2)*math.cos(math.pi*(i+phase)/n),
             (r1 if i % 2 == 0 else r2)*math.sin(math.pi*(i+phase)/n)) for i in range(2*n)]


def dormer_rect(W, H, specs):
    """rectangle W x H with protrusions; specs: side 0..3 (bottom, right, top, left), position, width, depth"""
    corners = [(0., 0.), (W, 0.), (W, H), (0., H)]
    dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    P = []
    for s in range(4):
        P.append(corners[s])
        dx, dy = dirs[s]
        nx, ny = dy, -dx            # outward normal
        x0, y0 = corners[s]
        for (side, pos, w, d) in sorted(specs):
            if side != s:
                continue
            a = (x0+dx*pos, y0+dy*pos)
            b = (x0+dx*(pos+w), y0+dy*(pos+w))
            P += [a, (a[0]+nx*d, a[1]+ny*d), (b[0]+nx*d, b[1]+ny*d), b]
    return P


def apse(W, H, k, r, tip=1.0):
    """rectangle with a round apse of k segments, radius r, centred on its right side"""
    cx, cy = W, H/2.
    P = [(0., 0.), (W, 0.)]
    if r < H/2.:
        P.append((W, cy-r))
    arc = [(cx+tip*r*math.cos(math.pi*i/k-math.pi/2), cy+r*math.sin(math.pi*i/k-math.pi/2)) for i in range(1, k)]
    P += arc
    if r < H/2.:
        P.append((W, cy+r))
    P += [(W, H), (0., H)]
    return P


def comb(teeth, tw, gap, depth, back, skew=0.0):
    """comb: teeth of width tw and gaps between; a slightly different depth per tooth by skew"""
    W = teeth*tw + (teeth-1)*gap
    P = [(0., 0.), (W, 0.)]
    x = W
    for t in range(teeth):
        d = back+depth+skew*t
        P += [(x, d), (x-tw, d)]
        x -= tw
        if t < teeth-1:
            P += [(x, back), (x-gap, back)]
            x -= gap
    return P
