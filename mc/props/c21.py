"""The download tool for test data requests every logged building once, with its type.

All log files up to a bounded number of lines are given to the real script, with a stand-in for the download."""
import io
import os
import runpy
import shutil
import sys
import tempfile
from contextlib import redirect_stderr, redirect_stdout
from itertools import product
from urllib import request

import core
import roof

SCRIPT = os.path.join(roof.REPO, 'misc', 'get_osm_files.py')
IDS = ['7', '306011654']
TYPES = ['way', 'relation']
STATUS = ['Flat roof', 'Not hipped roof', 'Exception', '', 'Flat roof with dormers', 'Hipped roof']
LINES = [i+'|'+t+'|'+s for i in IDS for t in TYPES for s in STATUS]
SHORT = ['7|way|Flat roof', '8|relation|Not hipped roof', '9|way|Exception', '7|relation|Exception', '10|way|']


def execute(text, target):
    """requests of the script: (address, name of the file, data)"""
    d = tempfile.mkdtemp(prefix='mc-osm-')
    calls = []
    log = os.path.join(d, 'log.txt')
    with open(log, 'w') as f:
        f.write(text)
    old, argv = request.urlretrieve, sys.argv
    request.urlretrieve = lambda url, filename=None, reporthook=None, data=None: calls.append((url, filename, data))
    sys.argv = ['get_osm_files.py', '--log', log, '--outputDir', os.path.join(d, target)]
    try:
        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
            runpy.run_path(SCRIPT, run_name='__main__')
    finally:
        request.urlretrieve, sys.argv = old, argv
        shutil.rmtree(d)
    return [(u, os.path.relpath(n, d), bytes(x) if x is not None else None) for u, n, x in calls]


def expected(lines, target):
    out = []
    for line in lines:
        i, t, s = line.split('|')
        if s not in ('Flat roof', 'Not hipped roof'):
            q = '((way(%s););node(w););out;' % i if t == 'way' else '((relation(%s););way(r);node(w););out;' % i
            out.append(('http://overpass-api.de/api/interpreter', os.path.join(target, i+'_.osm'), q.encode()))
    return out


class C21(core.Check):
    id = 'C21'
    technique = 'exhaustive enumeration of log files up to a bounded length against a reference model, on the real script with a recording stand-in of the download'
    rule = 'all log files with up to two lines of the whole alphabet, and up to four lines of a smaller one, with and without a newline at the end'
    level_note = 'Complete for the listed alphabet of lines and lengths of log files; nothing is downloaded.'

    def tasks(self, tier):
        n = 4 if tier == 'quick' else 5
        return [('all', a) for a in LINES]+[('short', a) for a in product(SHORT, repeat=n-2)]

    def logs(self, task):
        if task[0] == 'all':
            yield (task[1],)
            yield from ((task[1], b) for b in LINES)
        else:
            yield from (task[1]+r for k in (1, 2) for r in product(SHORT, repeat=k))

    def run(self, task, rec):
        if not os.path.exists(SCRIPT):
            rec.notes.add('the script is not there')
            return
        for lines in self.logs(task):
            for end in ('\n', ''):
                rec.execution()
                rec.state(len(lines))
                rec.transition(len(lines))
                bad = self.judge(lines, end, rec)
                if bad:
                    rec.violation('%r %r' % (lines, end), bad, {'lines': lines, 'end': end})
                    return
        rec.sample({'lines': task[1]})

    def judge(self, lines, end, rec):
        got, err = roof.outcome(execute, '\n'.join(lines)+end, 'out')
        if err:
            return err
        rec.outcome(got)
        want = expected(lines, 'out')
        if got != want:
            return 'the log %r leads to the requests %r instead of %r' % ('\n'.join(lines)+end, got, want)
        return None

    def replay(self, data):
        bad = self.judge(data['lines'], data['end'], core.Recorder())
        return [bad] if bad else []


CHECK = C21()
