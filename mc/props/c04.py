import footcheck
import roof


class C04(footcheck.CertificateCheck):
    id = 'C04'
    technique = 'exhaustive execution over bounded domains of footprints with an independent certificate'
    certificate = staticmethod(lambda R: roof.wellformed(R) or roof.tiling(R))


CHECK = C04()
