"""Vertices on straight walls do not change the roof."""
import math

import domains
import footcheck
import roof


def divided(C, which, f):
    """the contours with a vertex inserted in the walls (contour, index) of which, at the fraction f"""
    D = []
    for c, k in enumerate(C):
        L = []
        for i, p in enumerate(k):
            L.append(p)
            if (c, i) in which:
                q = k[(i+1) % len(k)]
                L.append((p[0]+f*(q[0]-p[0]), p[1]+f*(q[1]-p[1])))
        D.append(L)
    return D


def sameplanes(R, S, tol=roof.TOL):
    """complaints, if a roof plane of R has another area or height in S, where its walls are divided"""
    a, b = roof.wallareas(R), roof.wallareas(S)
    at = [(w, s) for g, s in b.items() for w in g]
    for g, (area, per, top) in a.items():
        (p, q) = g[0]
        w, s = min(at, key=lambda x: math.dist(x[0][0], p)+.01*math.dist(x[0][1], q))
        if math.dist(w[0], p) > .02:
            return 'the wall at %s is missing' % (p,)
        if abs(s[0]-area) > tol*per+1e-3*area or abs(s[2]-top) > 2*tol:
            return 'the roof plane of the wall from (%.3f, %.3f) to (%.3f, %.3f) has the area %.4f and height %.4f instead of %.4f and %.4f' % (
                p+q+(s[0], s[2], area, top))


class C24(footcheck.FootprintCheck):
    id = 'C24'
    technique = 'exhaustive enumeration of footprints and divisions of their walls, comparison of the real roofs with each other'
    rule = 'every footprint of the domains, with every single wall divided (at its middle, at a third), and with all walls divided'
    skip_defective = True
    LEAST = 2.          # length of the parts

    def domains(self, tier):
        L = domains.quick() if tier == 'thorough' else domains.core_set()
        return [d for d in L if 'corpus' not in d.name and 'nearby' not in d.name]

    def variants(self, C):
        long = {(c, i): math.dist(p, q) for c, k in enumerate(C) for i, (p, q) in enumerate(zip(k, k[1:]+k[:1]))}
        for w, L in long.items():
            if L >= 2*self.LEAST:
                yield 'wall %d of contour %d divided at 1/2' % w[::-1], divided(C, {w}, .5)
            if L >= 3*self.LEAST:
                yield 'wall %d of contour %d divided at 1/3' % w[::-1], divided(C, {w}, 1/3)
        ok = {w for w, L in long.items() if L >= 2*self.LEAST}
        if len(ok) > 1:
            yield 'all walls divided', divided(C, ok, .5)

    def judge(self, C, rec):
        R = roof.Roof(C)
        rec.execution()
        if not roof.usable(R):
            return [R.error or 'not usable']
        rec.outcome(sorted(map(len, R.faces)))
        out = []
        for name, D in self.variants(C):
            S = roof.Roof(D)
            rec.execution()
            if not roof.usable(S):
                out.append('%s: %s' % (name, S.error or 'not usable'))
                continue
            bad = sameplanes(R, S)
            if bad:
                out.append('%s: %s' % (name, bad))
        return out


CHECK = C24()
