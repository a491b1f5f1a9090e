import footcheck
import roof


class C01(footcheck.FootprintCheck):
    id = 'C01'
    technique = 'exhaustive execution of the implementation over bounded domains of footprints'

    def judge(self, contours, rec):
        R = roof.Roof(contours)
        rec.execution()
        if R.error:
            return [R.error]
        if not isinstance(R.faces, list) or not R.faces:
            return ['no roof: %r' % (R.faces,)]
        rec.outcome((len(R.V)-R.n0, sorted(map(len, R.faces))))
        return []


CHECK = C01()
