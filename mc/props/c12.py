import footcheck
import skel


class C12(footcheck.FootprintCheck):
    id = 'C12'
    technique = 'exhaustive execution of skeletonize() over bounded domains of footprints with an independent certificate'
    skip_defective = True

    def judge(self, contours, rec):
        K = skel.Skel(contours)
        rec.execution()
        if K.error:
            return [K.error]
        rec.outcome(sorted(len(n[2]) for n in K.nodes))
        return skel.planar(K)


CHECK = C12()
