"""unitVectors given by the caller: the same roof as without them."""
import math

from mathutils import Vector
import domains
import footcheck
import roof


class C08(footcheck.FootprintCheck):
    id = 'C08'
    technique = 'exhaustive execution over footprints with given unit vectors, certificate and differential oracle'
    skip_defective = True

    def domains(self, tier):
        return domains.quick() if tier == 'thorough' else domains.core_set()+[domains.MultiHoleDomain(3)]

    def judge(self, C, rec):
        R = roof.Roof(C)
        U = []
        for c in C:
            for i in range(len(c)):
                a, b = c[i], c[(i+1) % len(c)]
                U.append(Vector((b[0]-a[0], b[1]-a[1], 0.)).normalized())
        rec.execution(3)
        out = []
        for pad in (None, (.5, .5, 3.)):                        # also with unused vertices between the contours
            given = [u.copy() for u in U]
            S = roof.Roof(C, unit=given, pad=pad)
            if not roof.usable(S):
                return [S.error or 'not usable: %r' % (S.faces,)]
            if len(given) != len(U) or any(tuple(u) != tuple(v) for u, v in zip(U, given)):
                return ['the unit vectors of the caller have been changed']
            out += roof.wellformed(S)+roof.wallcover(S)+roof.tiling(S)+roof.slope(S)
            if not roof.usable(R):
                return out+['without unit vectors: %s' % (R.error or 'not usable')]
            rec.outcome((len(S.V)-S.n0, sorted(map(len, S.faces))))
            out = out or roof.samefaces(R, S)
        return out


CHECK = C08()
