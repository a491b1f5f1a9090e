import footcheck
import skel


class C10(footcheck.FootprintCheck):
    id = 'C10'
    technique = 'exhaustive execution of skeletonize() over bounded domains of footprints with an independent certificate'
    skip_defective = True

    def judge(self, contours, rec):
        K = skel.Skel(contours)
        rec.execution()
        if K.error:
            return [K.error]
        rec.outcome(sorted(len(n[2]) for n in K.nodes))
        return skel.structure(K)


CHECK = C10()
