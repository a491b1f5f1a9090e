import footcheck
import roof


class C03(footcheck.CertificateCheck):
    id = 'C03'
    technique = 'exhaustive execution over bounded domains of footprints with an independent certificate'
    certificate = staticmethod(roof.wallcover)


CHECK = C03()
