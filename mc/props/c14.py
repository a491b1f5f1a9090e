"""The roof does not depend on the representation of the footprint: start vertices, order of the holes,
translations, rotations, reflections (with the winding restored)."""
import math
from itertools import permutations, product

import core
import domains
import footcheck
import roof


def rot(d):
    c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
    return lambda p: (c*p[0]-s*p[1], s*p[0]+c*p[1])


MOVES = [('turn90', lambda p: (-p[1], p[0]), 1), ('turn180', lambda p: (-p[0], -p[1]), 1),
         ('turn270', lambda p: (p[1], -p[0]), 1), ('mirror x', lambda p: (-p[0], p[1]), -1),
         ('mirror y', lambda p: (p[0], -p[1]), -1), ('transpose', lambda p: (p[1], p[0]), -1),
         ('antitranspose', lambda p: (-p[1], -p[0]), -1),
         ('move 17,-5.5', lambda p: (p[0]+17., p[1]-5.5), 1), ('move -240,311', lambda p: (p[0]-240., p[1]+311.), 1),
         ('move 4000,-6000', lambda p: (p[0]+4000., p[1]-6000.), 1),
         ('turn30', rot(30), 1), ('turn-11', rot(-11), 1)]
# These transformations round every coordinate.  A complaint has to be confirmed by a second, similar
# transformation (another rounding); otherwise it is counted, and reported only if it is a listed finding.
TWIN = {'move -240,311': lambda p: (p[0]-241.1, p[1]+310.3), 'move 4000,-6000': lambda p: (p[0]+4001.5, p[1]-6003.25),
        'turn30': rot(30.02), 'turn-11': rot(-11.03)}


class C14(footcheck.FootprintCheck):
    id = 'C14'
    technique = 'exhaustive execution of all representations of every footprint of bounded domains, differential oracle'
    skip_defective = True

    def domains(self, tier):
        D = domains
        return D.quick() if tier == 'thorough' else D.core_set()+[D.HoleDomain('rect', 5)]

    def variants(self, C):
        ident = lambda p: p
        for r in range(1, len(C[0])):
            yield 'start %d' % r, [C[0][r:]+C[0][:r]]+C[1:], ident, 1
        if len(C) > 1:
            lens = [range(len(h)) for h in C[1:]]
            for perm in permutations(range(1, len(C))):
                rr = product(*lens) if len(C) == 2 else [tuple(k % len(h) for h in C[1:]) for k in range(3)]
                for rs in rr:
                    yield 'holes %s %s' % (perm, rs), [C[0]]+[C[i][rs[i-1]:]+C[i][:rs[i-1]] for i in perm], ident, 1
        for name, f, s in MOVES:
            yield name, [[f(p) for p in c][::s] for c in C], f, s

    def judge(self, C, rec):
        R = roof.Roof(C)
        rec.execution()
        if not roof.usable(R):
            return [R.error or 'not usable']
        out = []
        for name, D, f, s in self.variants(C):
            S = roof.Roof(D)
            rec.execution()
            if not roof.usable(S):
                out.append('%s: %s' % (name, S.error or 'not usable'))
                continue
            bad = roof.samefaces(R, S, f, mirrored=s < 0)
            if bad:
                if name in TWIN:
                    g = TWIN[name]
                    S = roof.Roof([[g(p) for p in c] for c in C])
                    if roof.usable(S) and not roof.samefaces(R, S, g):
                        name = 'unconfirmed '+name
                out.append('%s: %s' % (name, bad[0]))
        rec.outcome(sorted(round(a, 1) for a, p, t in roof.wallareas(R).values()))
        return out

    def classes(self, key, bad):
        # one class per representation, but one class for the footprints known to be unstable
        listed = core.FINDINGS and core.FINDINGS.match(key+'|*')
        L = [(key+'|*' if listed else '%s|%s' % (key, b.split(':')[0].replace(' ', '_')), b) for b in bad]
        return [(k, b) for k, b in L if '|unconfirmed' not in k]


CHECK = C14()
