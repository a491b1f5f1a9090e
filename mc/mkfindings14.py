#!/opt/venv/bin/python
"""Development tool (no check runs it): writes the KNOWN-FINDING lines of C14 (mkfindings14.py quick thorough)."""
import json
import os
import sys
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core                                                     # noqa: E402
import importlib                                                # noqa: E402


class All:
    keys = inputs = {}

    def match(self, k):
        return '|unconfirmed' in k


def work(t):
    r = core.Recorder()
    ch.run(t, r)
    return r.viol+r.known


if __name__ == '__main__':
    ch = importlib.import_module('props.c14').CHECK
    core.MAX_VIOLATIONS = 10**9
    core.FINDINGS = All()
    F = {}
    for tier in sys.argv[1:]:
        T = list(ch.tasks(tier))
        with Pool(8) as p:
            for V in p.imap_unordered(work, T):
                for k, msg, d in V:
                    if k not in F or len(json.dumps(d['contours'])) < len(json.dumps(F[k][1]['contours'])):
                        F[k] = msg, d
    for k in sorted(F, key=lambda k: (len(k), k)):
        print('KNOWN-FINDING: property=C14 key=%s input=%s %s' % (
            k, json.dumps({'contours': F[k][1]['contours']}, separators=(',', ':')), F[k][0][:150]))
