"""The bounded domains of footprints.  A domain is a list of tasks; gen(task) yields (key, contours).

key identifies the footprint up to its symmetries (for the list of known findings), as a callable
or a string, so that it is only computed when it is needed."""
import json
import math
import os
from functools import lru_cache
from itertools import product

from shapes import (Lattice, apse, area2, canon, comb, cross, dormer_rect, disjoint, grid, nested,
                    outline, polyominoes, regular, rots, sheared, valid)

HERE = os.path.dirname(os.path.abspath(__file__))


def scaled(C, s, dx=0.0, dy=0.0):
    return [[(x*s+dx, y*s+dy) for x, y in c] for c in C]


def feature(contours):
    """(smallest angle or deviation from a straight angle in degrees, smallest vertex-edge distance)"""
    ma, md = 180., 1e9
    for P in contours:
        n = len(P)
        for i in range(n):
            a, b, c = P[i-1], P[i], P[(i+1) % n]
            u, v = (a[0]-b[0], a[1]-b[1]), (c[0]-b[0], c[1]-b[1])
            g = math.degrees(math.atan2(abs(u[0]*v[1]-u[1]*v[0]), u[0]*v[0]+u[1]*v[1]))
            ma = min(ma, g, 180-g)
    E = [(P[i-1], P[i]) for P in contours for i in range(len(P))]
    for P in contours:
        for p in P:
            for a, b in E:
                if p == a or p == b:
                    continue
                L = (b[0]-a[0])**2+(b[1]-a[1])**2
                t = max(0, min(1, ((p[0]-a[0])*(b[0]-a[0])+(p[1]-a[1])*(b[1]-a[1]))/L))
                md = min(md, math.hypot(a[0]+t*(b[0]-a[0])-p[0], a[1]+t*(b[1]-a[1])-p[1]))
    return ma, md


@lru_cache(None)
def _lattice(kind, w, h, nmax, nmin, collinear):
    pts = sheared(w, h) if kind == 'sheared' else grid(range(w), range(h))
    return Lattice(pts, nmax, nmin, collinear)


class LatticeDomain:
    """all simple polygons on a w x h lattice with at most nmax vertices"""

    def __init__(self, w, h, nmax, nmin=3, collinear=False, starts=False, scale=10., off=(0., 0.),
                 kind='grid', angle=0., dist=0.):
        self.__dict__.update(locals())
        self.name = '%s%dx%d<=%d%s%s s%g%s%s' % (
            kind, w, h, nmax, ' straight' if collinear else '', ' starts' if starts else '', scale,
            ' angle>=%g' % angle if angle else '', ' off%g,%g' % off if off != (0., 0.) else '')

    def tasks(self):
        return _lattice(self.kind, self.w, self.h, self.nmax, self.nmin, self.collinear).prefixes()

    def gen(self, task):
        L = _lattice(self.kind, self.w, self.h, self.nmax, self.nmin, self.collinear)
        for P in L.gen(task):
            if self.angle:
                # cheap test first
                f = feature([P])
                if f[0] < self.angle or f[1] < self.dist:
                    continue
            for Q in (rots(P) if self.starts else (P,)):
                yield (lambda Q=Q: canon([Q])), scaled([Q], self.scale, *self.off)


class OminoDomain:
    """the outlines of all fixed polyominoes of n cells (with their holes), from every start corner"""

    def __init__(self, n, scale=10., irregular=False, starts=True, off=(0., 0.)):
        self.__dict__.update(locals())
        self.name = 'polyomino n=%d s%g%s%s' % (n, scale, ' irregular' if irregular else '',
                                                ' starts' if starts else '')

    def tasks(self):
        k = max(1, min(64, 4**(self.n-2)))
        return [(i, k) for i in range(k)]

    def gen(self, task):
        i, k = task
        for cells in _ominoes(self.n)[i::k]:
            o = outline(cells)
            if not o:
                continue
            for q in (rots(o[0]) if self.starts else [o[0]]):
                C = [q]+o[1:]
                if self.irregular:
                    s = self.scale
                    D = [[(s*x+s*.15*x*x+self.off[0], s*1.1*y+s*.1*y*y+self.off[1]) for x, y in c] for c in C]
                    yield (lambda C=C: 'irr:'+canon(C)), D
                else:
                    yield (lambda C=C: canon(C)), scaled(C, self.scale, *self.off)


@lru_cache(None)
def _ominoes(n):
    return polyominoes(n)


OUTER = {
    'square': [(0, 0), (4, 0), (4, 4), (0, 4)],
    'rect': [(0, 0), (5, 0), (5, 4), (0, 4)],
    'penta': [(-1, 0), (5, -1), (5, 4), (2, 6), (-1, 4)],
    'quad': [(-1, -2), (6, -1), (5, 5), (-2, 6)],
    'ell': [(0, 0), (9, 0), (9, 3), (4, 4), (4, 8), (0, 8)],
}


class HoleDomain:
    """one outer contour, and every simple polygon of a 3x3 lattice as its hole"""

    def __init__(self, outer, nmax=9, starts=False, scale=10., off=(0., 0.)):
        self.__dict__.update(locals())
        self.name = 'hole in %s <=%d%s s%g' % (outer, nmax, ' starts' if starts else '', scale)

    def tasks(self):
        return _lattice('grid', 3, 3, self.nmax, 3, False).prefixes()

    def gen(self, task):
        O = OUTER[self.outer]
        for P in _lattice('grid', 3, 3, self.nmax, 3, False).gen(task):
            H = [(x+1, y+1) for x, y in reversed(P)]
            if not nested(O, H):
                continue
            for h in (rots(H) if self.starts else [H]):
                C = [O, h]
                yield (lambda C=C: canon(C)), scaled(C, self.scale, *self.off)


class MultiHoleDomain:
    """k holes, each one of the 5 simple polygons of a 2x2 lattice, in a rectangle or a quadrangle"""

    def __init__(self, k, outer='rect', scale=10., off=(0., 0.)):
        self.__dict__.update(locals())
        self.name = '%d holes in %s s%g' % (k, outer, scale)

    def tasks(self):
        return [(i,) for i in range(5)]

    def gen(self, task):
        H = [list(reversed(P)) for p in Lattice(grid(range(2), range(2)), 4).prefixes()
             for P in Lattice(grid(range(2), range(2)), 4).gen(p)]
        w = 3*self.k+2
        O = [(0, 0), (w, 0), (w, 5), (0, 5)] if self.outer == 'rect' else [(-1, -2), (w+1, -1), (w, 6), (-2, 5)]
        at = [(1+3*j, 1+(2*j) % 3) for j in range(self.k)]
        for hs in product(H, repeat=self.k-1):
            hs = (H[task[0]],)+hs
            C = [O]+[[(x+dx, y+dy) for x, y in h] for h, (dx, dy) in zip(hs, at)]
            yield (lambda C=C: canon(C)), scaled(C, self.scale, *self.off)


class FamilyDomain:
    """a finite parametric family; every member from every start vertex"""

    def __init__(self, name, starts=True):
        self.fam, self.starts = name, starts
        self.name = 'family '+name+(' starts' if starts else '')

    def tasks(self):
        return [(i, 8) for i in range(8)]

    def gen(self, task):
        i, k = task
        for params, P in list(FAMILIES[self.fam]())[i::k]:
            for r, Q in enumerate(rots(P) if self.starts else [P]):
                yield '%s:%s' % (self.fam, params), [Q]


def _num(*a):
    return ','.join('%g' % x for x in a)


def _dormer1():
    for W, H in ((30., 20.), (24., 12.)):
        for s, w, d, pos in product(range(4), (2., 3., 5., 8.), (1., 2.5, 4., 7.), (3., 4.5, 6.)):
            if pos+w < (W if s % 2 == 0 else H)-1:
                yield _num(W, H, s, w, d, pos), dormer_rect(W, H, [(s, pos, w, d)])


def _dormer2():
    for s, w, d, w2, d2, pos2 in product((0, 2), (3., 5.), (2., 3.), (3., 4.), (1.5, 3.), (12., 14.)):
        yield _num(s, w, d, w2, d2, pos2), dormer_rect(30., 20., [(s, 4., w, d), (s, pos2, w2, d2)])
    for s, w, d, w2, d2, pos2, s2 in product(range(4), (3., 5.), (2., 3.), (3., 4.), (1.5, 3.), (5., 7.5), range(4)):
        if s2 > s:
            yield _num(s, w, d, w2, d2, pos2, s2), dormer_rect(30., 20., [(s, 4., w, d), (s2, pos2, w2, d2)])


def _regular():
    for n, r, ph in product([*range(3, 19), 24], (3., 10., 40.), (0, .5, .13)):
        yield _num(n, r, ph), regular(n, r, ph)


def _apse():
    for W, H, k, r, tip in product((20., 31.), (12., 15., 16.), range(4, 13), (3., 4., 5., 6.), (.8, 1.2, 1.)):
        if r <= H/2. and (tip != 1. or k <= 6) and not (k >= 11 and tip != .8):
            yield _num(W, H, k, r, tip), apse(W, H, k, r, tip)


def _comb():
    for t, tw, gap, dep, back, sk in product(range(2, 6), (3., 4.5), (2., 5.), (3., 7.), (2., 6.), (0., .7)):
        yield _num(t, tw, gap, dep, back, sk), comb(t, tw, gap, dep, back, sk)


def _nearby():
    """corners cut or bent by less than the merge distance of the code, and small notches"""
    base = [(0., 0.), (20., 0.), (22., 13.), (9., 17.), (-3., 11.)]
    for i, e, f, side in product(range(5), (.03, .06, .09, .2, .5), (.25, .5, .6), (-1, 1)):
        a, b = base[i], base[(i+1) % 5]
        L = math.hypot(b[0]-a[0], b[1]-a[1])
        nx, ny = (b[1]-a[1])/L, -(b[0]-a[0])/L
        m = (a[0]+f*(b[0]-a[0])+side*e*nx, a[1]+f*(b[1]-a[1])+side*e*ny)
        yield 'bend,'+_num(i, e, f, side), base[:i+1]+[m]+base[i+1:]
    for i, e in product(range(5), (.06, .09, .15, .3, .8)):
        a, b, c = base[i-1], base[i], base[(i+1) % 5]
        u = math.hypot(a[0]-b[0], a[1]-b[1])
        v = math.hypot(c[0]-b[0], c[1]-b[1])
        p = (b[0]+(a[0]-b[0])*e/u, b[1]+(a[1]-b[1])*e/u)
        q = (b[0]+(c[0]-b[0])*e/v, b[1]+(c[1]-b[1])*e/v)
        yield 'cut,'+_num(i, e), base[:i]+[p, q]+base[i+1:]
    for W, e in product((20., 31.), (.01, .03, .05, .08, .12, .3)):
        # nearly square: the ridge is shorter than the merge distance
        yield 'ridge,'+_num(W, e), [(0., 0.), (W+e, 0.), (W+e, W), (0., W)]
        yield 'hexridge,'+_num(W, e), [(0., 0.), (W+e, 0.), (1.3*W, W/2), (W+e, W), (0., W), (-.3*W, W/2)]


def _straight():
    """walls with many vertices on them"""
    for W, H, n, m, side in product((30., 61.), (20., 29.5), (1, 3, 5, 6, 7, 8, 11), (0, 1, 6), (1, 2)):
        P = [(W*i/n, 0.) for i in range(n)]+[(W, 0.)]
        if side == 1:
            P += [(W, H*(i+1)/(m+1)) for i in range(m)]+[(W, H), (0., H)]
        else:
            P += [(W, H)]+[(W-W*(i+1)/(m+1), H) for i in range(m)]+[(0., H)]
        yield _num(W, H, n, m, side), P
    for n, k in product((4, 7, 9), (3, 6)):
        # an L with subdivided walls on both sides of its corner
        yield 'ell,'+_num(n, k), [(40.*i/n, 0.) for i in range(n)]+[(40., 0.), (40., 15.)] + \
            [(40.-25.*(i+1)/k, 15.) for i in range(k)]+[(15., 40.), (0., 40.)]


def _dormerpair():
    """two dormers on one side, near to the corner and to each other"""
    for w1, w2, x1, x2, d1, d2 in product((3., 6.), (3., 6.), (1., 2., 4.), (14., 18.), (1., 2., 3.), (1., 3.)):
        yield _num(w1, w2, x1, x2, d1, d2), [
            (0., 0.), (x1, 0.), (x1, -d1), (x1+w1, -d1), (x1+w1, 0.), (x2, 0.), (x2, -d2), (x2+w2, -d2), (x2+w2, 0.),
            (30., 0.), (30., 20.), (0., 20.)]


FAMILIES = {'dormer1': _dormer1, 'dormer2': _dormer2, 'regular': _regular, 'apse': _apse, 'comb': _comb,
            'nearby': _nearby, 'straight': _straight, 'dormerpair': _dormerpair}


def corpus():
    with open(os.path.join(HERE, 'corpus.json')) as f:
        return json.load(f)


class CorpusDomain:
    """real buildings (the OpenStreetMap footprints of the project whose roof is correct), as recorded,
    and turned, mirrored and moved; every time with other start vertices"""
    MOVES = [(0., 1, 0., 0.), (31., 1, 13.37, -71.9), (123., -1, 0., 0.), (271., 1, 0., 0.), (45., -1, 13.37, -71.9)]

    def __init__(self, moves=5):
        self.moves = moves
        self.name = 'corpus x%d' % moves

    def tasks(self):
        return [(i, 32) for i in range(32)]

    def gen(self, task):
        i, k = task
        for e in corpus()[i::k]:
            for m, (turn, flip, dx, dy) in enumerate(self.MOVES[:self.moves]):
                C = turned([[tuple(p) for p in c] for c in e['contours']], turn, flip, dx, dy)
                r = len(C[0])*m//self.moves
                yield 'corpus:'+e['name'], [C[0][r:]+C[0][:r]]+C[1:]


def turned(C, degrees, flip=1, dx=0., dy=0.):
    c, s = math.cos(math.radians(degrees)), math.sin(math.radians(degrees))
    D = [[(c*flip*x-s*y+dx, s*flip*x+c*y+dy) for x, y in k] for k in C]
    return [k[::-1] for k in D] if flip < 0 else D


class TurnedDomain:
    """the footprints of another domain turned by several angles and moved"""
    TURNS = [(7., 0., 0.), (30., 13.37, -71.9), (-11., 0., 0.), (45., 13.37, -71.9), (131.3, 0., 0.), (7., 13.37, -71.9)]

    def __init__(self, domain, turns=6):
        self.domain, self.turns = domain, turns
        self.name = domain.name+' turned x%d' % turns

    def tasks(self):
        return self.domain.tasks()

    def gen(self, task):
        for key, C in self.domain.gen(task):
            for t, dx, dy in self.TURNS[:self.turns]:
                yield key, turned(C, t, 1, dx, dy)


class NudgedDomain:
    """the footprints of another domain, with one vertex moved by a tiny distance in one of four directions:
    walls that are almost parallel or almost on one line, and events that are almost simultaneous"""

    def __init__(self, domain, eps=(1e-4, 3e-3), most=16):
        self.domain, self.eps, self.most = domain, eps, most
        self.name = domain.name+' nudged '+','.join('%g' % e for e in eps)

    def tasks(self):
        return [(t, e) for t in self.domain.tasks() for e in self.eps]

    def gen(self, task):
        t, e = task
        for key, C in self.domain.gen(t):
            if len(C[0]) > self.most:
                continue
            for c, k in enumerate(C):
                for i, (x, y) in enumerate(k):
                    for d, (dx, dy) in enumerate(((e, 0), (-e, 0), (0, e), (0, -e))):
                        yield ((lambda key=key, c=c, i=i, d=d: 'nudge:%s,%d,%d,%d,%g' % (key() if callable(key) else key, c, i, d, e)),
                               C[:c]+[k[:i]+[(x+dx, y+dy)]+k[i+1:]]+C[c+1:])


def core_set():
    """a smaller set for the checks, that execute every footprint many times"""
    D = [LatticeDomain(3, 3, 9, collinear=True), LatticeDomain(4, 3, 6), LatticeDomain(4, 4, 4),
         LatticeDomain(4, 3, 7, kind='sheared', scale=1., angle=20., dist=4., collinear=True),
         HoleDomain('square', 6), HoleDomain('penta', 6), HoleDomain('quad', 6), HoleDomain('ell', 5),
         MultiHoleDomain(2), MultiHoleDomain(2, 'quad')]
    D += [OminoDomain(n, starts=False) for n in range(1, 6)]
    D += [OminoDomain(4, irregular=True), OminoDomain(5, starts=False, irregular=True)]
    D += [FamilyDomain(n, starts=False) for n in FAMILIES]
    D += [TurnedDomain(OminoDomain(5, starts=False), 2), CorpusDomain(1)]
    return D


def quick():
    D = [
        LatticeDomain(3, 3, 9, collinear=True, starts=True),
        LatticeDomain(3, 3, 9, starts=True, scale=4., off=(.37, -1.91)),
        LatticeDomain(4, 3, 12),
        LatticeDomain(3, 3, 9, off=(-1000.3, 503.7)), LatticeDomain(3, 3, 6, scale=100., collinear=True),
        LatticeDomain(5, 4, 5),
        LatticeDomain(4, 3, 12, kind='sheared', scale=1., angle=20., dist=4., collinear=True),
        HoleDomain('square'), HoleDomain('rect'), HoleDomain('penta'), HoleDomain('quad'), HoleDomain('ell', 6),
        MultiHoleDomain(2), MultiHoleDomain(2, 'quad'), MultiHoleDomain(3),
    ]
    D += [OminoDomain(n) for n in range(1, 7)]
    D += [OminoDomain(n, scale=4.) for n in range(1, 6)]
    D += [OminoDomain(n, irregular=True) for n in range(4, 7)]
    D += [FamilyDomain(n) for n in FAMILIES]
    D += [TurnedDomain(OminoDomain(n, starts=False)) for n in range(1, 7)]
    D += [TurnedDomain(LatticeDomain(3, 3, 9, collinear=True), 3), TurnedDomain(HoleDomain('rect'), 2),
          TurnedDomain(FamilyDomain('dormer1', starts=False), 2), TurnedDomain(FamilyDomain('dormer2', starts=False), 2),
          TurnedDomain(FamilyDomain('comb', starts=False), 2), CorpusDomain()]
    D += [TurnedDomain(FamilyDomain(n, starts=False), 3) for n in ('apse', 'regular', 'straight', 'nearby', 'dormerpair')]
    D += [NudgedDomain(LatticeDomain(3, 3, 6)), NudgedDomain(HoleDomain('quad', 4)), NudgedDomain(HoleDomain('square', 4), (1e-4,)),
          NudgedDomain(FamilyDomain('regular', starts=False), (1e-4, .03)), NudgedDomain(FamilyDomain('dormer1', starts=False), (1e-4,))]
    D += [NudgedDomain(OminoDomain(n, starts=False)) for n in range(1, 5)]
    return D


def thorough():
    D = quick()
    D += [
        LatticeDomain(4, 3, 12, starts=True, off=(.37, -1.91)),
        LatticeDomain(4, 3, 12, starts=True, scale=4.),
        LatticeDomain(4, 3, 8, collinear=True),
        LatticeDomain(4, 4, 6),
        LatticeDomain(4, 4, 6, scale=4., off=(.37, -1.91)),
        LatticeDomain(5, 4, 5, starts=True, scale=4.),
        LatticeDomain(4, 4, 6, kind='sheared', scale=1., angle=20., dist=4., collinear=True),
        LatticeDomain(5, 4, 5, kind='sheared', scale=1., angle=20., dist=4., collinear=True),
        HoleDomain('square', starts=True), HoleDomain('rect', starts=True, scale=4.),
        HoleDomain('penta', starts=True), HoleDomain('quad', starts=True),
        TurnedDomain(OminoDomain(7, starts=False)), TurnedDomain(OminoDomain(5)), TurnedDomain(HoleDomain('square')),
        NudgedDomain(LatticeDomain(3, 3, 9)), NudgedDomain(HoleDomain('square')), NudgedDomain(HoleDomain('rect', 5)), NudgedDomain(MultiHoleDomain(2)),
        NudgedDomain(OminoDomain(5, starts=False)), NudgedDomain(OminoDomain(5, starts=False, irregular=True)),
        NudgedDomain(OminoDomain(4, starts=False, irregular=True)), NudgedDomain(LatticeDomain(4, 3, 5)), NudgedDomain(LatticeDomain(4, 4, 4)),
        NudgedDomain(FamilyDomain('dormer1', starts=False), (3e-3,)),
        TurnedDomain(MultiHoleDomain(2)), TurnedDomain(MultiHoleDomain(3)), TurnedDomain(FamilyDomain('dormerpair')),
    ]
    D += [OminoDomain(7), OminoDomain(6, scale=4.), OminoDomain(7, irregular=True)]
    D += [NudgedDomain(FamilyDomain(n, starts=False), most=40) for n in ('dormer2', 'apse', 'comb', 'dormerpair', 'straight')]
    return D
