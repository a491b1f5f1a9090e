"""Index contract: blocks anywhere in verts, in any order; only appended to; faces extended in place."""
from itertools import permutations, product

from mathutils import Vector
import domains
import footcheck
import roof
from roof import B


def geom(faces, V, ident):
    """faces as cycles of vertex identities: input vertex -> (contour, i), new vertex -> rank"""
    out = []
    for f in faces:
        g = [ident(i) for i in f]
        k = g.index(min(g))
        out.append(tuple(g[k:]+g[:k]))
    return sorted(out)


class C07(footcheck.FootprintCheck):
    id = 'C07'
    technique = 'exhaustive execution over footprints x memory layouts of the index blocks, against the compact layout'
    skip_defective = True

    def domains(self, tier):
        D = domains
        L = [D.LatticeDomain(3, 3, 5), D.LatticeDomain(4, 3, 4), D.HoleDomain('square', 4), D.HoleDomain('quad', 4),
             D.MultiHoleDomain(2), D.OminoDomain(4, starts=False), D.FamilyDomain('dormer2', starts=False), D.FamilyDomain('apse', starts=False), D.CorpusDomain(1),
             D.TurnedDomain(D.MultiHoleDomain(2), 1), D.MultiHoleDomain(3)]
        if tier == 'thorough':
            L += D.core_set()
        return L

    def layouts(self, n):
        """sequences of blocks: contour numbers and -k for k unused vertices"""
        for perm in permutations(range(n)):
            for pre, gap, post in ((0, 0, 0), (1, 0, 0), (0, 2, 1), (3, 1, 2)):
                if perm == tuple(range(n)) and (pre, gap, post) == (0, 0, 0):
                    continue
                L = [-pre] if pre else []
                for i, c in enumerate(perm):
                    if i and gap:
                        L.append(-gap)
                    L.append(c)
                if post:
                    L.append(-post)
                yield L

    def judge(self, C, rec):
        z = 2.5
        R = roof.Roof(C, z=z)
        rec.execution()
        if not roof.usable(R):
            return [R.error or 'not usable']

        def ident(i):
            for c, (s, n) in enumerate(R.infos):
                if s <= i < s+n:
                    return (c, i-s)
            return (99, i-R.n0)
        ref = geom(R.faces, R.V, ident)
        out = []
        for k, L in enumerate(self.layouts(len(C))):
            bad = self.one(C, L, k, z, ref, R, rec)
            if bad:
                out.append('layout %s: %s' % (L, bad))
        return out

    def one(self, C, L, k, z, ref, R, rec):
        verts, start, junk = [], {}, 0
        for b in L:
            if b < 0:
                for _ in range(-b):
                    junk += 1
                    # unused vertices: some far away, some inside of the footprint, with another height
                    verts.append(Vector((C[0][0][0]+(3.1*junk if junk % 2 else -700.), C[0][0][1]+1.7*junk, 50.*junk)))
            else:
                start[b] = len(verts)
                verts.extend(Vector((x, y, z)) for x, y in C[b])
        holes = [(start[c], len(C[c])) for c in range(1, len(C))]
        holes_arg = list(holes) if holes else (None, [])[k % 2]
        objs, n0 = list(verts), len(verts)
        vals = [tuple(v) for v in verts]
        # (faces of the caller may also refer to another list of vertices: numbers that will be used by this roof)
        given = [[], None, [[1, 2, 3], [0, 1, 4, 5]], [list(range(n0, n0+15)) for _ in range(3)]][k % 4]
        copy = [list(f) for f in given] if given is not None else None
        faces, err = roof.outcome(B.polygonize, verts, start[0], len(C[0]), holes_arg, 0., 1., given, None)
        rec.execution()
        if err:
            return err
        if len(verts) < n0 or any(a is not b for a, b in zip(objs, verts)):
            return 'the vertices of the caller have been replaced'
        if [tuple(v) for v in verts[:n0]] != vals:
            return 'the vertices of the caller have been moved'
        if holes_arg and holes_arg != holes:
            return 'holesInfo has been changed'
        if given is not None:
            if faces is not given:
                return 'the list of faces of the caller is not returned'
            if faces[:len(copy)] != copy:
                return 'the faces of the caller have been changed'
            faces = faces[len(copy):]
        if not isinstance(faces, list):
            return 'no list of faces'

        def ident(i):
            for c in start:
                if start[c] <= i < start[c]+len(C[c]):
                    return (c, i-start[c])
            return (99, i-n0) if i >= n0 else (100, i)
        if len(verts)-n0 != len(R.V)-R.n0:
            return '%d new vertices instead of %d' % (len(verts)-n0, len(R.V)-R.n0)
        for a, b in zip(verts[n0:], R.V[R.n0:]):
            if sum(abs(p-q) for p, q in zip(a, b)) > 1e-3:
                return 'another skeleton: %s instead of %s' % (tuple(a), b)
        g = geom(faces, verts, ident)
        rec.outcome((len(L), len(g)))
        if g != ref:
            return 'other faces: %s instead of %s' % ([x for x in g if x not in ref][:2], [x for x in ref if x not in g][:2])
        W = {(s+i, s+(i+1) % len(C[c])) for c, s in start.items() for i in range(len(C[c]))}
        for f in faces:
            if (f[0], f[1]) not in W:
                return 'face %s does not start with a wall' % (f,)


CHECK = C07()
