"""Runs skeletonize() and judges the skeleton."""
import math

from mathutils import Vector
import roof
from roof import B, TOL


class Skel:
    def __init__(self, contours):
        self.contours = contours
        cont = []
        for c in contours:
            V = [Vector((x, y)) for x, y in c]
            cont.append([B.Edge2(V[i], V[(i+1) % len(V)]) for i in range(len(V))])
        self.before = [[(e.p1[0], e.p1[1]) for e in c] for c in cont]
        self.skel, self.error = roof.outcome(B.skeletonize, cont)
        self.corner = [(e.p1[0], e.p1[1]) for c in cont for e in c]
        self.after = [[(e.p1[0], e.p1[1]) for e in c] for c in cont]
        self.walls = [((e.p1[0], e.p1[1]), (e.p2[0], e.p2[1])) for c in cont for e in c]
        if self.error is None:
            try:
                self.nodes = [((a.source[0], a.source[1]), float(a.height), [(s[0], s[1]) for s in a.sinks])
                              for a in self.skel]
            except Exception as e:
                self.error = 'the result is not a list of subtrees: %s' % e

    def edges(self):
        return [(p, s) for p, h, S in self.nodes for s in S]


def structure(K):
    """nodes are distinct, sinks are corners or nodes, the graph is connected, has one cycle per hole,
    every corner is the end of exactly one edge"""
    out = []
    nodes = [n[0] for n in K.nodes]
    if not nodes:
        return ['no nodes']
    if K.after != K.before:
        out.append('the edges of the caller have been changed')
    if len(set(nodes)) != len(nodes):
        out.append('two nodes have the same position')
    corners = set(K.corner)
    known = corners | set(nodes)
    E = set()
    for p, h, S in K.nodes:
        if not (math.isfinite(p[0]) and math.isfinite(p[1]) and math.isfinite(h)):
            out.append('node %s is not finite' % (p,))
        if h <= 0:
            out.append('node %s has the height %g' % (p, h))
        for s in S:
            if s == p:
                out.append('node %s points to itself' % (p,))
            elif s not in known:
                out.append('the sink %s of node %s is neither a corner nor a node' % (s, p))
            elif frozenset((p, s)) in E:
                out.append('the edge between %s and %s is there twice' % (p, s))
            E.add(frozenset((p, s)))
    deg = dict.fromkeys(known, 0)
    for e in E:
        for q in e:
            deg[q] = deg.get(q, 0)+1
    for c in corners:
        if deg[c] != 1 and c not in nodes:
            out.append('corner %s is the end of %d skeleton edges' % (c, deg[c]))
    shared = collinear_walls(K)
    for p in nodes:
        if deg[p] < (2 if shared else 3):
            out.append('node %s has only %d edges' % (p, deg[p]))
    # connected, with as many independent cycles as there are holes
    par = {q: q for q in known}

    def find(q):
        while par[q] != q:
            par[q] = par[par[q]]
            q = par[q]
        return q
    for e in E:
        if len(e) == 2:
            a, b = e
            if a in par and b in par:
                par[find(a)] = find(b)
    comp = len({find(q) for q in known})
    if len({find(q) for q in corners}) != comp:
        out.append('a part of the skeleton is not connected to any corner')
    if comp != 1 and not shared:
        out.append('the skeleton has %d components' % comp)
    elif len(E)-len(known)+comp != len(K.contours)-1 and not (comp > 1 and len(E)-len(known)+comp < len(K.contours)-1):
        out.append('the skeleton has %d cycles, the footprint %d holes' % (len(E)-len(known)+comp, len(K.contours)-1))
    return out


def collinear_walls(K, tol=0.15):
    """two walls lie on one line and face the same side: their common roof plane may separate the skeleton"""
    for i, (a, b) in enumerate(K.walls):
        L = math.hypot(b[0]-a[0], b[1]-a[1])
        u = ((b[0]-a[0])/L, (b[1]-a[1])/L)
        for c, d in K.walls[:i]:
            M = math.hypot(d[0]-c[0], d[1]-c[1])
            if abs(u[0]*(d[1]-c[1])-u[1]*(d[0]-c[0])) <= 0.01*M and u[0]*(d[0]-c[0])+u[1]*(d[1]-c[1]) > 0 and \
                    all(abs(u[0]*(p[1]-a[1])-u[1]*(p[0]-a[0])) <= tol for p in (c, d)):
                return True
    return False


def _segdist(p, a, b):
    L = (b[0]-a[0])**2+(b[1]-a[1])**2
    t = max(0., min(1., ((p[0]-a[0])*(b[0]-a[0])+(p[1]-a[1])*(b[1]-a[1]))/L))
    return math.hypot(a[0]+t*(b[0]-a[0])-p[0], a[1]+t*(b[1]-a[1])-p[1])


def heights(K, tol=TOL):
    """every node lies at its height inside of the lines of at least 3 walls (a roof plane each), and no
    wall is nearer than its height"""
    out = []
    for p, h, S in K.nodes:
        k = set()
        near = 1e9
        for a, b in K.walls:
            L = math.hypot(b[0]-a[0], b[1]-a[1])
            d = ((b[0]-a[0])*(p[1]-a[1])-(b[1]-a[1])*(p[0]-a[0]))/L
            if abs(d-h) <= tol:
                k.add((a, b))
            near = min(near, _segdist(p, a, b))
        if len(k) < 3:
            out.append('node (%.4f, %.4f) has the height %.4f, but that distance to %d walls only' % (p[0], p[1], h, len(k)))
        if near < h-tol:
            out.append('node (%.4f, %.4f) has the height %.4f, but a wall is at the distance %.4f' % (p[0], p[1], h, near))
    return out


def _inside(C, p):
    c = False
    for P in C:
        for i in range(len(P)):
            a, b = P[i-1], P[i]
            if (a[1] > p[1]) != (b[1] > p[1]) and (b[0]-a[0])*(p[1]-a[1])/(b[1]-a[1])+a[0] > p[0]:
                c = not c
    return c


def planar(K):
    """no two skeleton edges cross, none crosses a wall, every node is inside of the footprint"""
    out = []
    E = K.edges()
    for i in range(len(E)):
        for j in range(i):
            if roof.properly(*E[i], *E[j], 1e-3):
                out.append('the edges %s and %s cross' % (E[i], E[j]))
        for w in K.walls:
            if roof.properly(*E[i], *w, 1e-3):
                out.append('the edge %s crosses the wall %s' % (E[i], w))
    for p, h, S in K.nodes:
        if not _inside(K.contours, p):
            out.append('node %s is not inside of the footprint' % (p,))
    return out
