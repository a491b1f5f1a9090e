"""Every face drains to its wall: it is monotone along the wall, so that water flows down to the eaves within the face."""
import footcheck
import domains
import roof

WIGGLE = roof.TOL


def reversals(u):
    """turning points of a cyclic sequence, whose amount exceeds the tolerance"""
    n = len(u)
    i0 = min(range(n), key=u.__getitem__)
    u = u[i0:]+u[:i0+1]
    count, up, ext = 0, True, u[0]
    for x in u[1:]:
        if up and x < ext-WIGGLE or not up and x > ext+WIGGLE:
            count, up, ext = count+1, not up, x
        elif up and x > ext or not up and x < ext:
            ext = x
    return count


class C22(footcheck.CertificateCheck):
    id = 'C22'
    technique = 'exhaustive enumeration of footprints, monotony of every face along its wall judged on the roof of the real code'
    skip_defective = True

    def domains(self, tier):
        return domains.thorough() if tier == 'thorough' else domains.quick()

    @staticmethod
    def certificate(R):
        W = R.walls()
        for f in R.faces:
            ws = [W[e] for e in roof.fedges(f) if e in W]
            if len(ws) != 1:
                continue        # walls on one line, or no wall (C03)
            w = ws[0]
            u = [w[0]*(R.V[i][0]-w[2])+w[1]*(R.V[i][1]-w[3]) for i in f]
            if reversals(u) > 1:
                return ['face %r is not monotone along its wall: positions %s' % (f, [round(x, 3) for x in u])]
            d = [roof.walldist(w, R.V[i]) for i in f]
            if min(d) < -WIGGLE:
                return ['face %r reaches to the outer side of its wall' % (f,)]
        return []


CHECK = C22()
