"""The faces are those of the straight skeleton: compared with a reference model of the shrinking footprint."""
import math

import domains
import footcheck
import roof
import shrink


class C18(footcheck.FootprintCheck):
    id = 'C18'
    technique = 'explicit-state reference model of the shrinking footprint (all events), conformance of the real code on every footprint of bounded domains'
    skip_defective = True

    def domains(self, tier):
        return domains.thorough() if tier == 'thorough' else domains.quick()

    def judge(self, C, rec):
        R = roof.Roof(C)
        rec.execution()
        if not roof.usable(R):
            return [R.error or 'not usable']
        try:
            S = shrink.Shrink(C)
        except shrink.Stuck:
            rec.c['model_without_answer'] += 1
            return []
        rec.c['model_states'] += S.events
        total = sum(roof.area2xy(c)/2 for c in C)
        if abs(sum(S.area)-total) > 1e-5*total:
            # the model is wrong, so that it can't judge (almost parallel walls)
            rec.c['model_without_answer'] += 1
            return []
        rec.outcome((S.events, sorted(round(a, 1) for a in S.area)))
        # walls whose faces can't be compared separately: on one line, or in one face
        walls = {}
        for s, n in R.infos:
            for i in range(n):
                walls[s+i, s+(i+1) % n] = len(walls)
        group = list(range(len(walls)))

        def join(a, b):
            a, b = group[a], group[b]
            group[:] = [a if g == b else g for g in group]
        at = {(R.V[a][:2], R.V[b][:2]): k for (a, b), k in walls.items()}
        for g in roof.coplanar(list(at)):
            for w in g[1:]:
                join(at[g[0]], at[w])
        for f in R.faces:
            ks = [walls[e] for e in roof.fedges(f) if e in walls]
            for k in ks[1:]:
                join(ks[0], k)
        near = {}
        for f in R.faces:
            ks = [walls[e] for e in roof.fedges(f) if e in walls]
            if ks:
                P = [R.V[i] for i in f]
                a, p, t = near.get(group[ks[0]], (0., 0., 0.))
                near[group[ks[0]]] = (a+roof.area2xy(P)/2, p+sum(math.dist(p[:2], q[:2]) for p, q in zip(P, P[1:]+P[:1])), max([t]+[q[2] for q in P]))
        for (a, b), k in walls.items():
            if group[k] == k:
                ks = [i for i, g in enumerate(group) if g == k]
                want = sum(S.area[i] for i in ks)
                area, per, top = near.get(k, (0., 0., 0.))
                if abs(area-want) > 0.1*per+1e-3*want:
                    return ['the roof plane of the wall from (%.3f, %.3f) to (%.3f, %.3f) has the area %.4f instead of %.4f' % (
                        R.V[a][:2]+R.V[b][:2]+(area, want))]
                T = max(S.top[i] for i in ks)
                # a needle at the end may have been cut off
                if top > T+.25 or top < T-.25 and sum(S.after(i, top+.2) for i in ks) > .15*(T-top):
                    return ['the roof plane of the wall from (%.3f, %.3f) to (%.3f, %.3f) ends at height %.4f instead of %.4f' % (
                        R.V[a][:2]+R.V[b][:2]+(top, T))]
        return []


CHECK = C18()
