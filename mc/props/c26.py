"""The debug output is the skeleton of the roof: nodes are its new vertices, and the inner edges of its faces run along the arcs."""
import math

import domains
import footcheck
import roof
from roof import B


def covered(p, q, arcs, tol):
    """is the segment p-q covered by arcs, up to the tolerance"""
    L = math.dist(p, q)
    if L <= 3*tol:
        return True
    ux, uy = (q[0]-p[0])/L, (q[1]-p[1])/L
    I = []
    for a, b in arcs:
        s, t = [(ux*(v[0]-p[0])+uy*(v[1]-p[1])) for v in (a, b)]
        d, e = [(-uy*(v[0]-p[0])+ux*(v[1]-p[1])) for v in (a, b)]
        lo, hi = 0., 1.
        if d != e:
            x, y = (tol-d)/(e-d), (-tol-d)/(e-d)
            lo, hi = max(lo, min(x, y)), min(hi, max(x, y))
        elif abs(d) > tol:
            continue
        if lo < hi:
            I.append(tuple(sorted((s+lo*(t-s), s+hi*(t-s)))))
    x = tol
    for s, t in sorted(I):
        if s > x+tol:
            break
        x = max(x, t)
    return x >= L-2*tol


class C26(footcheck.FootprintCheck):
    id = 'C26'
    technique = 'exhaustive execution of footprints with and without debug output, its content is compared with vertices and faces of the same call'
    skip_defective = True

    def domains(self, tier):
        return domains.quick() if tier == 'thorough' else domains.core_set()

    def judge(self, C, rec):
        z, tan = 4., .75
        dbg = getattr(B, 'debugOutputs', None)
        if not isinstance(dbg, dict):
            return ['there is no dictionary debugOutputs']
        dbg.clear()
        try:
            R0 = roof.Roof(C, tan=tan, z=z)
            rec.execution()
            if dbg:
                return ['debug output that was not asked for: %s' % list(dbg)]
            if not roof.usable(R0):
                return [R0.error or 'not usable']
            mine = object()
            dbg['skeleton'] = 1
            dbg['other'] = mine
            R = roof.Roof(C, tan=tan, z=z)
            rec.execution()
            if set(dbg) != {'skeleton', 'other'} or dbg['other'] is not mine:
                return ['other debug output has been changed']
            S = dbg['skeleton']
        finally:
            dbg.clear()
        if R.error or R.V != R0.V or R.faces != R0.faces:
            return ['the roof is another one with debug output']
        if not isinstance(S, list) or not all(hasattr(a, 'source') and hasattr(a, 'height') and hasattr(a, 'sinks') for a in S):
            return ['the debug output is not a list of subtrees']
        new = R.V[R.n0:]
        if len(S) != len(new):
            return ['the skeleton has %d nodes, %d vertices are new' % (len(S), len(new))]
        if not S:
            return []
        size = max(abs(x) for v in R.V for x in v)
        tol = 1e-5*size+1e-4
        cx, cy = new[0][0]-S[0].source[0], new[0][1]-S[0].source[1]
        for i, (a, v) in enumerate(zip(S, new)):
            if abs(a.source[0]+cx-v[0]) > tol or abs(a.source[1]+cy-v[1]) > tol:
                return ['node %d at %s is not the vertex %s' % (i, tuple(a.source), v)]
            if abs(z+tan*a.height-v[2]) > tol:
                return ['node %d has the height %g, its vertex is at %g instead of %g' % (i, a.height, v[2], z+tan*a.height)]
        arcs = [((a.source[0]+cx, a.source[1]+cy), (s[0]+cx, s[1]+cy)) for a in S for s in a.sinks]
        walls = R.walls()
        rec.outcome((len(S), len(arcs)))
        for f in R.faces:
            for e in roof.fedges(f):
                if e not in walls and not covered(R.V[e[0]][:2], R.V[e[1]][:2], arcs, roof.TOL):
                    return ['the edge %s of a face from %s to %s is no arc of the skeleton' % (e, R.V[e[0]][:2], R.V[e[1]][:2])]
        edges = [(R.V[i][:2], R.V[j][:2]) for f in R.faces for i, j in roof.fedges(f)]
        for a, b in arcs:
            if math.dist(a, b) > 1. and not covered(a, b, edges, roof.TOL):
                return ['the arc from %s to %s is no edge of a face' % (a, b)]
        return []


CHECK = C26()
