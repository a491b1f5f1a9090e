import footcheck
import roof


class C02(footcheck.CertificateCheck):
    id = 'C02'
    technique = 'exhaustive execution over bounded domains of footprints with an independent certificate'
    certificate = staticmethod(roof.wellformed)
    usable_only = False


CHECK = C02()
