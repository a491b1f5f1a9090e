"""History independence: the result of a call depends on its arguments only, whatever was called before."""
import os
import pickle
from itertools import product

from mathutils import Vector
import core
import domains
import roof
from roof import B

S = 10.


def sc(C):
    return [[(x*S, y*S) for x, y in c] for c in C]


# the alphabet of calls: one input per shortcut or branch of the code
FOOT = {
    'square': sc([[(0, 0), (2, 0), (2, 2), (0, 2)]]),
    'ell': sc([[(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]]),
    'tee': sc([[(0, 0), (5, 0), (5, 2), (3, 2), (3, 5), (2, 5), (2, 2), (0, 2)]]),
    'hole': sc([[(0, 0), (5, 0), (5, 4), (0, 4)], [(1, 1), (1, 3), (2, 3), (2, 1)]]),
    'twoholes': sc([[(0, 0), (8, 0), (8, 5), (0, 5)], [(1, 1), (1, 2), (2, 2), (2, 1)], [(4, 3), (4, 4), (5, 4)]]),
    'dormer': [domains.dormer_rect(30., 20., [(0, 6., 3., 2.), (2, 12., 3., 2.)])],
    'apse': [domains.apse(20., 12., 11, 6., .8)],
    'bow': sc([[(0, 0), (2, 2), (2, 0), (0, 2)]]),               # invalid: crosses itself
    'degenerate': [[(0., 0.), (0., 0.), (10., 0.), (10., 10.)]],    # invalid: repeated vertex
    'two': [[(0., 0.), (10., 0.)]],                                 # invalid: two vertices
}
FOOT['big'] = [[(x, y) for i in range(9) for x, y in ((8.*i, 0.), (8.*i+4., 0.), (8.*i+4., -3.), (8.*i+8., -3.))][:-1] +
               [(72., 20.), (0., 20.)]]
FOOT['round'] = next([[tuple(p) for p in c] for c in e['contours']] for e in domains.corpus() if e['name'].startswith('249507151'))
VALID = [k for k in FOOT if k not in ('bow', 'degenerate', 'two')]


def unit(C):
    return [Vector((c[(i+1) % len(c)][0]-c[i][0], c[(i+1) % len(c)][1]-c[i][1], 0.)).normalized()
            for c in C for i in range(len(c))]


# For every footprint others that are easily confused with it: the same number of vertices, the same turns,
# directions, lengths, centers, extent, first or last vertices, or the same coordinates after rounding.
def shear(C):
    return [[(x+.25*y, y) for x, y in c] for c in C]


def bump(C, i):
    """moves one vertex slightly"""
    C = [list(c) for c in C]
    C[0][i] = (C[0][i][0]*1.02+.4, C[0][i][1]*1.01+.3)
    return C


SIBLINGS = {
    'scale': lambda C: [[(x*1.37, y*1.37) for x, y in c] for c in C],
    'wide': lambda C: [[(x*1.5, y) for x, y in c] for c in C],
    'high': lambda C: [[(x, y*1.25) for x, y in c] for c in C],
    'move': lambda C: [[(x+21., y-4.) for x, y in c] for c in C],
    'turn': lambda C: [[(-y, x) for x, y in c] for c in C],
    'shear': shear,
    'start': lambda C: [C[0][1:]+C[0][:1]]+C[1:],
    'first': lambda C: bump(C, 0),
    'second': lambda C: bump(C, 1),
    'last': lambda C: bump(C, -1),
    'inner': lambda C: C[:1]+[[(x+1.7, y+.9) for x, y in c] for c in C[1:]],
}
BASES = list(VALID)
for _b in BASES:
    for _s, _f in SIBLINGS.items():
        if _s != 'inner' or len(FOOT[_b]) > 1:
            FOOT[_b+'~'+_s] = _f(FOOT[_b])


def call(op, world=None):
    """Executes one operation and returns everything observable; world carries a verts/faces pair that is
    reused by the operations that extend it"""
    name, mode = op
    old = None
    C = FOOT[name]
    if mode == 'skel':
        cont, n = [], 0
        for c in C:
            V = [Vector((x, y)) for x, y in c]
            cont.append([B.Edge2(V[i], V[(i+1) % len(V)]) for i in range(len(V))])
        sk, err = roof.outcome(B.skeletonize, cont)
        if err:
            return 'error', err.split(':')[0]
        return ('skel', [(tuple(a.source), a.height, [tuple(s) for s in a.sinks]) for a in sk])
    if mode == 'recycled' and world is not None:
        # the same list object, and the same vectors as far as possible, with another footprint
        verts, faces = world.setdefault('recycled', []), None
        old = list(verts)
        del verts[:]
    elif mode == 'shared' and world is not None:
        verts = world.setdefault('verts', [])
        faces = world.setdefault('faces', [])
    else:
        verts, faces = [], None
    base, fbase = len(verts), len(faces) if faces is not None else 0
    infos = []
    for c in C:
        infos.append((len(verts), len(c)))
        for x, y in c:
            if mode == 'recycled' and len(verts) < len(old or ()):
                v = old[len(verts)]
                v.x, v.y, v.z = x, y, 1.
            else:
                v = Vector((x, y, 1.))
            verts.append(v)
    n0 = len(verts)
    kw = dict(tan=.5)                                           # default arguments where possible
    if mode == 'height':
        kw['height'] = 4.
    if faces is not None:
        kw['faces'] = faces
    if mode == 'unit':
        kw['unitVectors'] = unit(C)
    if len(infos) > 1:
        kw['holesInfo'] = infos[1:]
    if mode == 'debug':
        B.debugOutputs['skeleton'] = 1
    res, err = roof.outcome(B.polygonize, verts, infos[0][0], infos[0][1], **kw)
    dbg = None
    if mode == 'debug':
        dbg = [(tuple(a.source), a.height) for a in B.debugOutputs['skeleton']] if err is None else None
        B.debugOutputs.clear()
    if err:
        if world is not None and mode == 'shared':
            del verts[base:], faces[fbase:]
        return 'error', err.split(':')[0]
    new = [tuple(round(x, 5) for x in v) for v in verts[n0:]]
    F = [[i-base for i in f] for f in res[fbase:]]
    F = sorted(tuple(f[f.index(min(f)):]+f[:f.index(min(f))]) for f in F)
    return ('roof', new, F, dbg)


OPS = [(n, 'plain') for n in FOOT if '~' not in n] + [(n, 'shared') for n in VALID] + \
      [('square', 'height'), ('tee', 'height'), ('hole', 'unit'), ('twoholes', 'unit'), ('dormer', 'debug'),
       ('hole', 'debug'), ('apse', 'skel'), ('tee', 'skel'), ('hole', 'skel'), ('bow', 'skel')]
PAIRS = [((b, m), (n, m)) for b in BASES for n in FOOT if n.startswith(b+'~') for m in ('plain', 'recycled', 'unit', 'skel')]
OPS3 = [(n, 'plain') for n in ('square', 'tee', 'hole', 'dormer', 'apse', 'bow', 'two')] + \
       [('hole', 'shared'), ('dormer', 'shared'), ('tee', 'height'), ('hole', 'unit'), ('hole', 'debug'), ('tee', 'skel')]


def fresh(op):
    """the result of op in a process that has called nothing before"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.write(w, pickle.dumps(call(op, {})))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


class C09(core.Check):
    id = 'C09'
    technique = 'exhaustive exploration of all call histories up to a depth, compared with a fresh process'
    rule = 'every sequence of calls over the alphabet up to the depth; alternating calls with footprints that are easily confused; 40 equal calls; each call compared with its result in a fresh process'
    assumptions = ['histories longer than the depth are not covered', 'the alphabet: '+', '.join('%s/%s' % o for o in OPS)]

    def tasks(self, tier):
        self.base = {o: fresh(o) for o in dict.fromkeys(OPS+[o for p in PAIRS for o in p])}
        T = [(a,) for a in OPS]                                 # depth 2 over OPS
        T += [(a, b) for a in OPS3 for b in OPS3]               # depth 3 over OPS3
        P = [('pair', p) for p in PAIRS]+[('repeat', o) for o in OPS]
        if tier == 'thorough':
            T = [(a, b) for a in OPS for b in OPS]              # depth 3 over OPS
            T += [(a, b, c) for a in OPS3 for b in OPS3 for c in OPS3]     # depth 4
            P += [('pair', (a, b)) for a in OPS for b in OPS if a != b]
        return T+P

    def run(self, task, rec):
        if task[0] in ('pair', 'repeat'):
            if task[0] == 'pair':
                a, b = task[1]
                H = [[a, b], [b, a], [a, b, a], [a, b]*6]
            else:
                H = [[task[1]]*40]
            for h in H:
                bad = self.history(h, rec)
                if bad:
                    rec.violation('/'.join('%s-%s' % o for o in h[:4]), bad, {'history': h})
            rec.sample(H[-1])
            return
        last = OPS if len(task) == 1 or (len(task) == 2 and core.TIER == 'thorough') else OPS3
        for op in last:
            h = list(task)+[op]
            bad = self.history(h, rec)
            if bad:
                rec.violation('/'.join('%s-%s' % o for o in h), bad, {'history': h})
            rec.sample(h)

    def history(self, h, rec):
        # a pristine process per history: violations do not depend on the order of exploration
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                world = {}
                res = [call(tuple(op), world) for op in h]
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            return 'the process died'
        res = pickle.loads(data)
        rec.execution()
        rec.state(len(h)+1)
        rec.transition(len(h))
        rec.outcome(res[-1])
        for i, (op, x) in enumerate(zip(h, res)):
            want = self.base[tuple(op)]
            if not same(x, want):
                return 'call %d %s returns %s, in a fresh process %s' % (i, op, str(x)[:120], str(want)[:120])
        return None

    def replay(self, data):
        self.base = {tuple(o): fresh(tuple(o)) for o in data['history']}
        bad = self.history([tuple(o) for o in data['history']], core.Recorder())
        return [bad] if bad else []


def same(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == 'error':
        return a == b
    if a[0] == 'skel':
        return a == b
    return a[2] == b[2] and a[3] == b[3] and len(a[1]) == len(b[1]) and \
        all(abs(x-y) < 1e-4 for p, q in zip(a[1], b[1]) for x, y in zip(p, q))


CHECK = C09()
