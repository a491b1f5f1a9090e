"""Base of the checks that run polygonize() or skeletonize() on every footprint of the domains."""
import core
import domains
import roof


class Wavefront:
    """Counts the states of the wavefront and its events through the hook (if the tree has it)"""

    def __init__(self):
        self.states = self.events = 0

    def __call__(self, batch, slav):
        self.states += 1
        self.events += len(batch)
        return batch

    def install(self):
        h = getattr(roof.B, 'mcHook', None)
        if isinstance(h, dict):
            h['batch'] = self
        return self

    def flush(self, rec):
        rec.state(self.states)
        rec.transition(self.events)
        self.states = self.events = 0


_defective = None


def defective_keys():
    """the footprint classes listed in known_findings.txt for the basic properties of a roof"""
    global _defective
    if _defective is None:
        _defective = set()
        for p in ('C01', 'C02', 'C03', 'C04', 'C05'):
            _defective |= set(core.Findings(p).keys)
    return _defective


class FootprintCheck(core.Check):
    """judge(contours, rec) returns a list of complaints"""
    rule = ('every footprint of the listed bounded domains (all simple polygons on a lattice, all '
            'polyominoes, all lattice holes, finite parametric families, ...) is executed once per start '
            'vertex or parameter of the domain')
    assumptions = ['coordinates outside of the enumerated lattices and families are not covered',
                   'footprints are valid: simple contours, holes inside the outer contour and disjoint, '
                   'no features below the merge distance of the library except in the family "nearby"']

    skip_defective = False      # leave out the footprints, whose roof is known to be wrong

    def domains(self, tier):
        return domains.thorough() if tier == 'thorough' else domains.quick()

    def extra_coverage(self, tier):
        return {'domains': [D.name for D in self.domains(tier)]}

    def tasks(self, tier):
        self._D = self.domains(tier)
        T = [(i, t) for i, D in enumerate(self._D) for t in D.tasks()]
        # interleave the domains, such that a defect is met early
        T.sort(key=lambda x: hash(x) % 1009)
        return T

    def run(self, task, rec):
        D = self._D[task[0]]
        wf = Wavefront().install()
        defective = defective_keys() if self.skip_defective else ()
        for key, C in D.gen(task[1]):
            if defective and (key() if callable(key) else key) in defective:
                rec.c['skipped_known_defective_roofs'] += 1
                continue
            bad = self.judge(C, rec)
            if bad:
                for k, msg in self.classes(key() if callable(key) else key, bad):
                    rec.violation(k, msg, {'contours': C, 'domain': D.name})
                if len(rec.viol) > 2*core.MAX_VIOLATIONS or rec.c['timeouts'] > core.MAX_TIMEOUTS:
                    break
            rec.sample({'domain': D.name, 'contours': C})
            if roof.timeouts > core.MAX_TIMEOUTS and rec.viol:
                break
        wf.flush(rec)

    def judge(self, contours, rec):
        raise NotImplementedError

    def classes(self, key, bad):
        """(key, message) of the complaints about a footprint"""
        return [(key, bad[0])]

    def finding_task(self, key, data, rec):
        bad = self.replay(data)
        for k, msg in self.classes(key.split("|")[0], bad) if bad else ():
            rec.violation(k, msg, data)

    def replay(self, data):
        rec = core.Recorder()
        return self.judge([[tuple(p) for p in c] for c in data['contours']], rec)


class CertificateCheck(FootprintCheck):
    """one certificate on the roof with a slope of 45 degrees"""
    certificate = None
    usable_only = True

    def judge(self, contours, rec):
        R = roof.Roof(contours)
        rec.execution()
        if R.error or self.usable_only and not roof.usable(R):
            # C01 and C02 report that
            rec.c['no_roof'] += 1
            return self.no_roof(R)
        rec.outcome((len(R.V)-R.n0, sorted(map(len, R.faces))))
        rec.c['faces'] += len(R.faces)
        return type(self).certificate(R)

    def no_roof(self, R):
        return [R.error or 'the result is not usable: %r' % (R.faces,)]
