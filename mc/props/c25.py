"""Merging near nodes contracts the skeleton: a group of near nodes becomes one node between them, that keeps the
arcs of the group to other nodes and to corners; everything else stays as it is.

Reference model: the quotient graph.  All small skeletons are built, whose nodes lie at places that are far
from each other, with one to three near nodes at each place, and given to the real mergeNodeClusters()."""
import math
from itertools import combinations, product

from mathutils import Vector
import core
import roof
from roof import B

PLACES = [(10., 4.), (17., 9.), (5., 11.), (12., 15.)]
CORNERS = [(0., 0.), (20., -1.), (24., 12.), (11., 20.), (-3., 13.)]
OFFSETS = [(0., 0.), (.04, .01), (-.02, .05), (.03, -.03)]
MOVES = [(0., 0.), (-13.25, 7.5)]


def trees(n):
    """all labeled trees on range(n)"""
    E = list(combinations(range(n), 2))
    for T in combinations(E, n-1):
        seen, todo = {0}, [0]
        while todo:
            a = todo.pop()
            for e in T:
                if a in e:
                    b = e[0]+e[1]-a
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
        if len(seen) == n:
            yield T


def skeletons(np):
    """(places, sizes, arcs between places, corners of the places)"""
    for T in trees(np):
        for extra in [()]+([(e,) for e in combinations(range(np), 2) if e not in T] if np == 3 else []):
            for owners in product(range(np), repeat=len(CORNERS)-(1 if np > 2 else 0)):
                # corners that end at every place; every place has at least three arcs
                deg = [sum(p in e for e in T+extra)+owners.count(p) for p in range(np)]
                if min(deg) >= 2 and owners == tuple(sorted(owners)):
                    yield T+extra, owners


class C25(core.Check):
    id = 'C25'
    technique = 'explicit enumeration of all small skeletons with groups of near nodes, quotient graph as reference model, conformance of the real merging on every one'
    rule = ('all trees (and graphs with one cycle) of up to 4 places with 4 or 5 corners, with one to three near nodes per place, all ways '
            'to attach the arcs to the near nodes, path or star inside of the groups, several orders of the nodes')
    assumptions = ['groups are nearer than the merge distance, other nodes farther than 5']

    def tasks(self, tier):
        return [(n, i, 24, tier) for n in (1, 2, 3)+((4,) if tier == 'thorough' else ()) for i in range(24)]

    def run(self, task, rec):
        n, i, k, tier = task
        if not hasattr(B, 'mergeNodeClusters') or not hasattr(B, 'Subtree'):
            rec.notes.add('mergeNodeClusters is not available')
            return
        for j, case in enumerate(self.cases(n, tier)):
            if j % k != i:
                continue
            bad = self.judge(case, rec)
            if bad:
                rec.violation('%s' % (case,), bad, {'case': case})
                if len(rec.viol) > 3:
                    return
            rec.sample({'case': case})

    def cases(self, n, tier):
        most = 3 if n < 3 or tier == 'thorough' else 2
        for arcs, owners in skeletons(n):
            for sizes in product(range(1, most+1), repeat=n):
                if n > 2 and sum(sizes) > n+2 or max(sizes) < 2:
                    continue
                # the ends of the arcs at the near nodes
                ends = [range(sizes[p]) for a in arcs for p in a]+[range(sizes[o]) for o in owners]
                full = math.prod(map(len, ends)) <= (512 if tier == 'quick' else 4096)
                for at in product(*ends) if full else zip(*[[(t+u*s) % len(e) for t in range(12)] for u, s, e in zip(range(99), [1, 0, 1, 1, 0]*9, ends)]):
                    for form in range(4):
                        yield [list(map(list, arcs)), list(owners), list(sizes), list(at), form]

    def build(self, case):
        arcs, owners, sizes, at, form = case
        dx, dy = MOVES[form % 2]
        node = {}
        first = {}
        N = []
        for p, m in enumerate(sizes):
            for q in range(m):
                o = OFFSETS[q] if form != 3 or q != 1 else (0., 0.)     # form 3: with nodes at the same point
                node[p, q] = len(N)
                first.setdefault(p, len(N))
                N.append(((PLACES[p][0]+o[0]+dx, PLACES[p][1]+o[1]+dy), 3.+1.5*p+.02*q, []))
        # arcs lead from the later to the earlier node, except for the order inside of a group
        for p, m in enumerate(sizes):
            for q in range(1, m):
                a, b = node[p, q], node[p, q-1 if form % 2 else 0]
                if N[a][0] != N[b][0]:
                    N[a][2].append(N[b][0])
        it = iter(at)
        for a, b in arcs:
            x, y = node[a, next(it)], node[b, next(it)]
            hi, lo = (x, y) if N[x][1] > N[y][1] else (y, x)
            if N[lo][0] not in N[hi][2]:
                N[hi][2].append(N[lo][0])
        for c, o in enumerate(owners):
            N[node[o, next(it)]][2].append((CORNERS[c][0]+dx, CORNERS[c][1]+dy))
        order = list(range(len(N)))
        if form >= 2:
            order.reverse()
        place = [p for p, m in enumerate(sizes) for _ in range(m)]
        return [N[i] for i in order], [place[i] for i in order], (dx, dy)

    def judge(self, case, rec):
        N, place, (dx, dy) = self.build(case)
        arcs, owners, sizes, at, form = case
        corners = [Vector((x+dx, y+dy)) for x, y in CORNERS]
        E = [[B.Edge2(corners[i], corners[(i+1) % len(corners)]) for i in range(len(corners))]]
        sk = [B.Subtree(Vector(p), h, [Vector(s) for s in S]) for p, h, S in N]
        out, err = roof.outcome(B.mergeNodeClusters, sk, E)
        rec.execution()
        rec.state(len(N))
        rec.transition(len(N)-len(sizes))
        if err:
            return err
        out = sk if out is None else out
        # which place is it
        got = []
        for a in out:
            p = min(range(len(sizes)), key=lambda p: math.dist(a.source, (PLACES[p][0]+dx, PLACES[p][1]+dy)))
            got.append(p)
            G = [n for n, q in zip(N, place) if q == p]
            for k in (0, 1):
                v = [n[0][k] for n in G]
                if not min(v)-1e-4 <= a.source[k] <= max(v)+1e-4:
                    return 'the node at %s is not between the nodes that it replaces: %s' % (tuple(a.source), [n[0] for n in G])
            v = [n[1] for n in G]
            if not min(v)-1e-4 <= a.height <= max(v)+1e-4:
                return 'the height %g is not between those of the nodes that are merged: %s' % (a.height, v)
        rec.outcome((sorted(sizes), len(arcs), form))
        if sorted(got) != list(range(len(sizes))):
            return 'there are %d nodes for the %d places' % (len(got), len(sizes))
        # arcs
        F = []
        for a, p in zip(out, got):
            for s in a.sinks:
                c = [i for i, q in enumerate(corners) if q == s]
                if c:
                    F.append((p, 'corner %d' % c[0]))
                    continue
                m = [q for b, q in zip(out, got) if b.source == s]
                if not m:
                    return 'the arc from %s to %s leads to no node' % (tuple(a.source), tuple(s))
                if m[0] == p:
                    return 'the node at %s has an arc to itself' % (tuple(s),)
                F.append((min(p, m[0]), max(p, m[0])))
        want = [tuple(sorted(a)) for a in arcs]+[(o, 'corner %d' % c) for c, o in enumerate(owners)]
        miss = [a for a in want if a not in F]
        if miss:
            return 'the arc %s is lost' % (miss[0],)
        more = [a for a in F if a not in want]
        if more:
            return 'there is an additional arc %s' % (more[0],)
        if len(F) != len(set(F)):
            return 'an arc is there twice: %s' % ([a for a in F if F.count(a) > 1][0],)

    def replay(self, data):
        bad = self.judge(data['case'], core.Recorder())
        return [bad] if bad else []


CHECK = C25()
