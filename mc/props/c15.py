"""The order in which simultaneous events of the wavefront get handled does not matter.

Stateless exploration of the real event loop under a controlled scheduler: the hook mcHook['batch'] returns
the order of every batch of simultaneous events.  All schedules with at most one deviation from the order of
the heap (one batch permuted) are executed; thorough: two deviations for small footprints."""
import math
from itertools import permutations

import core
import domains
import footcheck
import roof
from roof import B


def orders(n):
    """all orders of n events up to n = 4; beyond every move of one event to another place and the reversal"""
    if n <= 4:
        for p in permutations(range(n)):
            if p != tuple(range(n)):
                yield p
        return
    seen = set()
    for i in range(n):
        for j in range(n):
            p = list(range(n))
            p.insert(j, p.pop(i))
            if tuple(p) not in seen and p != list(range(n)):
                seen.add(tuple(p))
                yield tuple(p)
    yield tuple(reversed(range(n)))


class Schedule:
    def __init__(self, forced):
        self.forced = forced            # {number of the batch: permutation}
        self.sizes = []
        self.bad = None

    def __call__(self, batch, slav):
        k = len(self.sizes)
        self.sizes.append(len(batch))
        p = self.forced.get(k)
        if p is None:
            return batch
        if len(p) != len(batch):
            self.bad = 'batch %d has %d events in the replay, %d before' % (k, len(batch), len(p))
            return batch
        return [batch[i] for i in p]


class C15(footcheck.FootprintCheck):
    id = 'C15'
    technique = 'stateless exploration of all schedules of simultaneous events, bounded deviations, on the real event loop'
    rule = ('every footprint of the domains is executed under every schedule, that permutes one batch of simultaneous '
            'events (all orders up to 4 events, above that all moves of one event and the reversal); quick: without regular polygons of more than 12 walls')
    skip_defective = True

    def domains(self, tier):
        D = domains
        L = [D.LatticeDomain(3, 3, 9), D.LatticeDomain(4, 3, 6), D.LatticeDomain(4, 4, 4),
             D.HoleDomain('square', 6), D.HoleDomain('quad', 5), D.MultiHoleDomain(2), D.MultiHoleDomain(2, 'quad')]
        L += [D.OminoDomain(n, starts=False) for n in range(1, 6)]
        L += [D.FamilyDomain(n, starts=False) for n in ('regular', 'dormer1', 'dormer2', 'apse')]
        if tier == 'thorough':
            L += [D.LatticeDomain(4, 4, 5), D.LatticeDomain(3, 3, 9, collinear=True), D.OminoDomain(6, starts=False),
                  D.HoleDomain('square'), D.HoleDomain('rect'), D.MultiHoleDomain(3), D.FamilyDomain('comb', starts=False)]
        return L

    def judge(self, C, rec):
        if core.TIER != 'thorough' and len(C[0]) > 12 and len({round(math.dist(p, q), 3) for p, q in zip(C[0], C[0][1:]+C[0][:1])}) == 1:
            return []               # regular polygons: hundreds of orders for each of 20 batches
        h = getattr(B, 'mcHook', None)
        if not isinstance(h, dict):
            rec.notes.add('the hook is not available, no schedule was explored')
            return []
        old = h.get('batch')
        try:
            return self.explore(C, rec, h)
        finally:
            if old is None:
                h.pop('batch', None)
            else:
                h['batch'] = old

    def execute(self, C, forced, rec, h):
        s = h['batch'] = Schedule(forced)
        R = roof.Roof(C)
        rec.execution()
        rec.state(len(s.sizes)+1)
        rec.transition(sum(s.sizes))
        return R, s

    def explore(self, C, rec, h):
        R, s0 = self.execute(C, {}, rec, h)
        if not roof.usable(R):
            return []               # C01
        R2, s2 = self.execute(C, {}, rec, h)
        if s2.sizes != s0.sizes or R2.faces != R.faces and sorted(map(sorted, R2.faces)) != sorted(map(sorted, R.faces)):
            return ['the default schedule is not reproducible']
        rec.outcome(tuple(s0.sizes))
        bound = 2 if core.TIER == 'thorough' and sum(len(c) for c in C) <= 8 else 1
        bad = self.deviate(C, R, s0, {}, 0, bound, rec, h)
        return [bad] if bad else []

    def deviate(self, C, R, s, forced, start, bound, rec, h):
        for k in range(start, len(s.sizes)):
            if s.sizes[k] < 2:
                continue
            for p in orders(s.sizes[k]):
                f = dict(forced)
                f[k] = p
                S, t = self.execute(C, f, rec, h)
                rec.c['schedules'] += 1
                what = 'schedule %s: ' % f
                if t.bad:
                    return what+t.bad
                if not roof.usable(S):
                    return what+(S.error or 'no usable roof')
                bad = roof.wellformed(S)+roof.wallcover(S)+roof.watertight(S)+roof.slope(S) or roof.samefaces(R, S)
                if bad:
                    return what+bad[0]
                if bound > 1:
                    bad = self.deviate(C, R, t, f, k+1, bound-1, rec, h)
                    if bad:
                        return bad
        return None


CHECK = C15()
