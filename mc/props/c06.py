"""Heights: height takes precedence over tan, both zero gives a flat roof, the plan never changes."""
import domains
import footcheck
import roof


def cycles(faces):
    return sorted(tuple(f[f.index(min(f)):]+f[:f.index(min(f))]) for f in faces)


def unpad(S):
    """faces and vertices without the unused vertices"""
    keep = [i for s, n in S.infos for i in range(s, s+n)]+list(range(S.n0, len(S.V)))
    new = {i: k for k, i in enumerate(keep)}
    return [[new.get(i, -9) for i in f] for f in S.faces], [S.V[i] for i in keep]


class C06(footcheck.FootprintCheck):
    id = 'C06'
    technique = 'exhaustive execution over footprints x height parameters, compared with a linear reference model'
    skip_defective = True
    #          height tan  zBase
    PARAMS = [(0., .25, -3.5), (0., 2.75, 100.), (5., 0., 7.), (2.5, 3., 0.), (2.5, 0., 0.), (12., .5, -8.25),
              (0., 0., 4.), (0., 1., 4.), (.4, 1., 30.), (90., 0., 2.), (0., 14., -60.), (0., .02, 0.)]

    def domains(self, tier):
        return domains.quick() if tier == 'thorough' else domains.core_set()

    def judge(self, C, rec):
        R = roof.Roof(C, tan=1.)
        rec.execution()
        if not roof.usable(R):
            return [R.error or 'not usable']
        out = []
        ref = cycles(R.faces)
        top = max(v[2] for v in R.V)
        for k, (h, t, z) in enumerate(self.PARAMS):
            pad = (3.5-7*k, 1., z-20.+5*k) if k % 3 == 2 else None     # unused vertices with another height
            S = roof.Roof(C, tan=t, height=h, z=z, pad=pad)
            rec.execution()
            what = 'height=%g tan=%g base=%g: ' % (h, t, z)
            if not roof.usable(S):
                out.append(what+str(S.error or 'not usable'))
                continue
            F, V = unpad(S) if pad else (S.faces, S.V)
            if cycles(F) != ref or len(V) != len(R.V):
                out.append(what+'the faces are not those of tan=1')
                continue
            f = h/top if h else t
            tol = 2e-5*(abs(z)+f*top+1.)
            for i, (p, q) in enumerate(zip(R.V, V)):
                if abs(p[0]-q[0])+abs(p[1]-q[1]) > 1e-6*(abs(p[0])+abs(p[1])+1):
                    out.append(what+'vertex %d moves in plan' % i)
                    break
                if abs(q[2]-(z+f*p[2])) > tol:
                    out.append(what+'vertex %d is at height %.5f instead of %.5f' % (i, q[2], z+f*p[2]))
                    break
            if h and abs(max(v[2] for v in V)-(z+h)) > tol:
                out.append(what+'the ridge is at %.5f' % max(v[2] for v in V))
            rec.outcome((len(R.V)-R.n0, round(f, 3)))
        return out


CHECK = C06()
