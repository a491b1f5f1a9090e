import footcheck
import skel


class C11(footcheck.FootprintCheck):
    id = 'C11'
    technique = 'exhaustive execution of skeletonize() over bounded domains of footprints with an independent certificate'
    skip_defective = True

    def judge(self, contours, rec):
        K = skel.Skel(contours)
        rec.execution()
        if K.error:
            return [K.error]
        rec.outcome(sorted(len(n[2]) for n in K.nodes))
        return skel.heights(K)


CHECK = C11()
