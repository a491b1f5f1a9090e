import footcheck
import roof


class C05(footcheck.CertificateCheck):
    id = 'C05'
    technique = 'exhaustive execution over bounded domains of footprints with an independent certificate'
    certificate = staticmethod(roof.slope)


CHECK = C05()
