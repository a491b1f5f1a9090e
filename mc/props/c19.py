"""Two calls that are active at the same time do not influence each other.

Stateless exploration of interleavings of two real calls under a controlled scheduler (sys.settrace).
nested: call A is suspended at one executed line, call B runs completely, A continues; for every line.
threads: A and B run in two threads, of which one runs at a time; A is suspended at one function call, B runs
up to one of its function calls, A runs to its end, B continues; for every pair of function calls."""
import os
import sys
import threading
from itertools import product

from mathutils import Vector
import core
import domains
import roof
from roof import B

PACKAGE = os.path.dirname(os.path.realpath(B.__file__))+os.sep
S = 10.
INSIDE = {}


def sc(C):
    return [[(x*S, y*S) for x, y in c] for c in C]


FOOT = {
    'triangle': sc([[(0, 0), (2, 0), (.4, 1.7)]]),
    'square': sc([[(0, 0), (2, 0), (2, 2), (0, 2)]]),
    'ell': sc([[(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]]),
    'hole': sc([[(0, 0), (5, 0), (5, 4), (0, 4)], [(1, 1), (1.5, 2.5), (2, 1)]]),
    'other': sc([[(1, 0), (4, .5), (4, 4), (2, 2.5), (0, 4)], [(2, 1), (2, 1.5), (3, 1.6), (3, 1)]]),
    'dormer': [domains.dormer_rect(30., 20., [(0, 12., 3., 2.)])],
    'apse': [domains.apse(20., 12., 8, 6., .8)],
    'degenerate': [[(0., 0.), (0., 0.), (10., 0.), (10., 10.)]],
}
NESTED = [('square', 'hole'), ('ell', 'triangle'), ('hole', 'ell'), ('triangle', 'other'), ('dormer', 'triangle'), ('triangle', 'dormer'),
          ('triangle', 'apse'), ('square', 'square'), ('triangle', 'degenerate')]
THREADS = [('triangle', 'triangle')]
PARTS = 16


class Call:
    """one call with its arguments, in its own way"""

    def __init__(self, name, role):
        C = FOOT[name]
        z = 0. if role == 'A' else 3.
        self.verts = []
        infos = []
        for c in C:
            infos.append((len(self.verts), len(c)))
            self.verts.extend(Vector((x, y, z)) for x, y in c)
        self.faces = [[7, 8, 9]] if role == 'A' else None
        unit = None
        if role == 'B':
            unit = [Vector((c[(i+1) % len(c)][0]-c[i][0], c[(i+1) % len(c)][1]-c[i][1], 0.)).normalized() for c in C for i in range(len(c))]
        self.unit = unit
        self.args = (self.verts, infos[0][0], infos[0][1], infos[1:] or None, 4. if role == 'B' else 0., .7 if role == 'A' else 0., self.faces, unit)
        self.result = self.error = None

    def __call__(self):
        try:
            self.result = B.polygonize(*self.args)
        except Exception as e:
            self.error = type(e).__name__
        return self

    def seen(self):
        return (self.error, self.result and [list(f) for f in self.result], [tuple(v) for v in self.verts],
                self.result is self.faces if self.faces is not None else None)


class Points:
    """calls back at the k-th event of a kind within the package"""

    def __init__(self, kind, k, action):
        self.kind, self.k, self.action, self.n = kind, k, action, 0

    def __call__(self, frame, event, arg):
        inside = INSIDE.get(frame.f_code.co_filename)
        if inside is None:
            inside = INSIDE[frame.f_code.co_filename] = os.path.realpath(frame.f_code.co_filename).startswith(PACKAGE)
        if not inside:
            return None
        if event == self.kind:
            self.hit()
        return self.local if self.kind == 'line' else None

    def local(self, frame, event, arg):
        if event == 'line':
            self.hit()
        return self.local

    def hit(self):
        self.n += 1
        if self.n == self.k:
            old = sys.gettrace()
            sys.settrace(None)
            self.action()
            if self.kind == 'call':
                sys.settrace(old)

    def run(self, call):
        sys.settrace(self)
        try:
            call()
        finally:
            sys.settrace(None)
        return self.n


def solo(name, role):
    return Call(name, role)().seen()


def length(name, role, kind):
    return Points(kind, 0, None).run(Call(name, role))


class C19(core.Check):
    id = 'C19'
    technique = 'stateless exploration of interleavings of two calls of the real code under a controlled scheduler, preemption bound 1 at every line and 2 at every function call'
    rule = ('for each pair of calls every line that call A executes is a point where call B runs completely; for the small '
            'pairs every pair of function calls is a pair of preemptions of two threads')
    level_note = ('Complete for the listed pairs of calls: every single preemption at a line, and every pair of preemptions at '
                  'function calls. Preemptions within a line are not explored.')

    def tasks(self, tier):
        nested = NESTED if tier == 'quick' else list(product(FOOT, FOOT))
        threads = THREADS if tier == 'quick' else THREADS+[('triangle', 'square'), ('square', 'triangle'), ('ell', 'triangle'), ('triangle', 'ell'), ('square', 'square'), ('ell', 'square')]
        return [(m, a, b, i) for m, L in (('nested', nested), ('threads', threads)) for a, b in L for i in range(PARTS)]

    def run(self, task, rec):
        mode, a, b, part = task
        alone = solo(a, 'A'), solo(b, 'B')
        if (solo(a, 'A'), solo(b, 'B')) != alone:
            return              # C09
        na = length(a, 'A', 'line' if mode == 'nested' else 'call')
        nb = length(b, 'B', 'call') if mode == 'threads' else 1
        if not na or not nb:
            rec.notes.add('no events of the package were seen')
            return
        if part == 0:
            rec.sample({'mode': mode, 'A': a, 'B': b, 'points of A': na, 'points of B': nb})
        for k in range(1+part, na+1, PARTS):
            for j in range(1, nb+1):
                rec.execution(2)
                rec.transition(2 if mode == 'nested' else 3)
                rec.c['schedules'] += 1
                bad = self.schedule(mode, a, b, k, j, alone)
                rec.state()
                if bad:
                    rec.violation('%s %s %s' % (mode, a, b), bad, {'mode': mode, 'a': a, 'b': b, 'k': k, 'j': j})
                    return
        rec.outcome(alone)

    def schedule(self, mode, a, b, k, j, alone):
        A, Z = Call(a, 'A'), Call(b, 'B')
        if mode == 'nested':
            Points('line', k, Z).run(A)
            where = 'if call B runs while A is suspended at its line event %d' % k
        else:
            turn = {'A': threading.Semaphore(0), 'B': threading.Semaphore(0)}
            late = []

            def wait(who):
                if not turn[who].acquire(timeout=60):
                    late.append(who)

            def switch(me, other):
                turn[other].release()
                wait(me)

            def body(call, point, me, other):
                wait(me)
                Points('call', point, lambda: switch(me, other)).run(call)
                turn[other].release()
            T = [threading.Thread(target=body, args=(A, k, 'A', 'B'), daemon=True), threading.Thread(target=body, args=(Z, j, 'B', 'A'), daemon=True)]
            for t in T:
                t.start()
            turn['A'].release()
            for t in T:
                t.join(120)
            where = 'if A is suspended at its function call %d and B at %d' % (k, j)
            if late or any(t.is_alive() for t in T):
                return 'the calls do not terminate '+where
        for c, want, who in ((A, alone[0], 'A'), (Z, alone[1], 'B')):
            got = c.seen()
            if got != want:
                what = 'raises %s' % got[0] if got[0] != want[0] else 'returns other faces' if got[1] != want[1] else 'computes other vertices'
                return 'call %s (%s) %s %s (%s)' % (who, a if who == 'A' else b, what, where, 'alone it is different')
        return None

    def replay(self, data):
        alone = solo(data['a'], 'A'), solo(data['b'], 'B')
        bad = self.schedule(data['mode'], data['a'], data['b'], data['k'], data['j'], alone)
        return [bad] if bad else []


CHECK = C19()
