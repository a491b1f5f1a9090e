#!/opt/venv/bin/python
"""Development tool (no check runs it): writes the KNOWN-FINDING lines of the footprint checks.

It executes all domains of the thorough tier, translated by several offsets (another rounding of every
coordinate), and lists every class of footprints that breaks one of the basic properties, with one
failing input per class and property.  The lines get reviewed and appended to known_findings.txt."""
import json
import os
import sys
from collections import defaultdict
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import domains                                                  # noqa: E402
import roof                                                     # noqa: E402

OFF = [(0, 0), (.37, -1.91), (123.456, 77.7), (-41.17, 8.93), (3.3333, -.7071), (17.3, -4.41), (55.5, -91.37)]
FN = (('C02', roof.wellformed), ('C03', roof.wallcover), ('C04', roof.tiling), ('C05', roof.slope))
ALL = domains.thorough()+domains.core_set()


def work(a):
    di, t = a
    bad = []
    for key, C in ALL[di].gen(t):
        for o in OFF:
            D = [[(x+o[0], y+o[1]) for x, y in c] for c in C]
            R = roof.Roof(D)
            if not roof.usable(R):
                d = {p: R.error or 'no usable roof' for p in ('C01', 'C02', 'C03', 'C04', 'C05')}
            else:
                d = {p: x[0] for p, x in ((p, fn(R)) for p, fn in FN) if x}
            if d:
                bad.append((key() if callable(key) else key, D, d))
    return bad


if __name__ == '__main__':
    F = defaultdict(dict)
    with Pool(8) as p:
        for bad in p.imap_unordered(work, [(i, t) for i, D in enumerate(ALL) for t in D.tasks()]):
            for key, D, d in bad:
                for prop, msg in d.items():
                    old = F[key].get(prop)
                    if old is None or len(json.dumps(D)) < len(json.dumps(old[0])):
                        F[key][prop] = (D, msg)
    for key in sorted(F, key=lambda k: (len(k), k)):
        by = defaultdict(list)
        for prop, (D, msg) in F[key].items():
            by[json.dumps(D)].append((prop, msg))
        for D, l in by.items():
            kind = 'a dormer whose valleys meet behind the opposite roof face' if key.startswith('comb') else \
                'a third hole whose merge of wavefronts loses an event' if key.count('/') >= 3 else \
                'several split events of the wavefront coincide'
            print('KNOWN-FINDING: property=%s key=%s input=%s %s; %s' % (
                ','.join(sorted(p for p, m in l)), key,
                json.dumps({'contours': json.loads(D)}, separators=(',', ':')), kind, l[0][1][:90].replace('\n', ' ')))
