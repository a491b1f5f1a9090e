"""The roof scales with the footprint: doubling all lengths doubles the roof, also its height."""
import domains
import footcheck
import roof

FACTORS = [.5, 2., 3.]


class C23(footcheck.FootprintCheck):
    id = 'C23'
    technique = 'exhaustive enumeration of footprints and scale factors, comparison of the real roofs with each other'
    rule = 'every footprint of the domains with each of the factors %s' % FACTORS
    skip_defective = True

    def domains(self, tier):
        if tier == 'thorough':
            return [d for d in domains.quick() if 'corpus' not in d.name]
        return [d for d in domains.core_set() if 'corpus' not in d.name]

    def judge(self, C, rec):
        R = roof.Roof(C)
        rec.execution()
        if not roof.usable(R):
            return [R.error or 'not usable']
        rec.outcome(sorted(map(len, R.faces)))
        for k in FACTORS:
            if k < 1 and min(sum((p[i]-q[i])**2 for i in (0, 1)) for c in C for p, q in zip(c, c[1:]+c[:1])) < 4.:
                continue        # details of the size of the tolerances
            S = roof.Roof([[(k*x, k*y) for x, y in c] for c in C])
            rec.execution()
            if not roof.usable(S):
                return ['scaled by %g: %s' % (k, S.error or 'not usable')]
            S.V = [tuple(x/k for x in v) for v in S.V]
            S.contours = C
            bad = roof.samefaces(R, S, tol=roof.TOL*max(1., 1/k))
            if bad:
                return ['scaled by %g: %s' % (k, bad[0])]
        return []


CHECK = C23()
