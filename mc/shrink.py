"""Reference model, independent of the library: the footprint shrinks, every wall moves inside with speed 1.

It looks for the next event over all edges and all pairs of vertex and edge, in double precision, and integrates
the length of every wall. Swept area and end of life of the walls are those of the faces of the straight skeleton."""
import math

EPS = 1e-7


class Stuck(Exception):
    pass


class Shrink:
    def __init__(self, contours):
        self.n, self.c, self.u = [], [], []
        self.loops = []                                         # of [wall, start point of the wall's edge, its velocity]
        for C in contours:
            loop = []
            for i, p in enumerate(C):
                q = C[(i+1) % len(C)]
                L = math.dist(p, q)
                ux, uy = (q[0]-p[0])/L, (q[1]-p[1])/L
                loop.append([len(self.n), tuple(p), None])
                self.u.append((ux, uy))
                self.n.append((-uy, ux))
                self.c.append(-uy*p[0]+ux*p[1])
            self.loops.append(loop)
        self.area = [0.]*len(self.n)
        self.top = [0.]*len(self.n)
        self.history = []                                       # of (time, swept areas)
        self.t = 0.
        self.events = 0
        self.run()

    def velocity(self, e, f):
        """of the vertex between the walls e and f; None if they are opposite to each other"""
        a, b = self.n[e], self.n[f]
        d = a[0]*b[1]-a[1]*b[0]
        if abs(d) < 1e-6:
            return a if a[0]*b[0]+a[1]*b[1] > 0 else None
        return ((b[1]-a[1])/d, (a[0]-b[0])/d)

    def reflex(self, e, f):
        a, b = self.u[e], self.u[f]
        return a[0]*b[1]-a[1]*b[0] < -1e-6

    def clean(self):
        """remove what has collapsed, and set the velocities"""
        out = []
        for loop in self.loops:
            again = True
            while again and len(loop) > 2:
                again = False
                m = len(loop)
                for i in range(m):
                    j = (i+1) % m
                    if math.dist(loop[i][1], loop[j][1]) < EPS:
                        # the edge has vanished
                        del loop[i]
                        again = True
                        break
                    e, f = loop[i][0], loop[j][0]
                    if self.velocity(e, f) is None:
                        # opposite walls touch each other: the nearer end of both stays
                        a, b = loop[i][1], loop[(j+1) % m][1]
                        tip = loop[j][1]
                        da, db = math.dist(tip, a), math.dist(tip, b)
                        if da < db:
                            loop[j][1] = a
                            del loop[i]
                        else:
                            loop[(j+1) % m][1] = b
                            del loop[j]
                        again = True
                        break
            if len(loop) > 2:
                for i, v in enumerate(loop):
                    v[2] = self.velocity(loop[i-1][0], v[0])
                out.append(loop)
        self.loops = out

    def next(self):
        best = (math.inf,)
        for k, loop in enumerate(self.loops):
            m = len(loop)
            for i, (e, p, v) in enumerate(loop):
                q, w = loop[(i+1) % m][1:]
                u = self.u[e]
                L = u[0]*(q[0]-p[0])+u[1]*(q[1]-p[1])
                s = u[0]*(w[0]-v[0])+u[1]*(w[1]-v[1])
                if s < -1e-9:
                    best = min(best, (max(0., -L/s), 0, k, i))
                if self.reflex(loop[i-1][0], e):
                    for k2, loop2 in enumerate(self.loops):
                        m2 = len(loop2)
                        for j, (g, a, va) in enumerate(loop2):
                            if k2 == k and j in (i, (i-1) % m):
                                continue
                            n = self.n[g]
                            d = n[0]*p[0]+n[1]*p[1]-self.c[g]-self.t
                            s = n[0]*v[0]+n[1]*v[1]-1.
                            if s > -1e-9 or d < -EPS:
                                continue
                            dt = max(0., -d/s)
                            if dt >= best[0]:
                                continue
                            b, vb = loop2[(j+1) % m2][1:]
                            x = (p[0]+dt*v[0], p[1]+dt*v[1])
                            ug = self.u[g]
                            lo = ug[0]*(x[0]-a[0]-dt*va[0])+ug[1]*(x[1]-a[1]-dt*va[1])
                            hi = ug[0]*(b[0]+dt*vb[0]-x[0])+ug[1]*(b[1]+dt*vb[1]-x[1])
                            if lo > -EPS and hi > -EPS:
                                best = (dt, 1, k, i, k2, j)
        return best

    def advance(self, dt):
        for loop in self.loops:
            m = len(loop)
            L0 = [math.dist(loop[i][1], loop[(i+1) % m][1]) for i in range(m)]
            for v in loop:
                v[1] = (v[1][0]+dt*v[2][0], v[1][1]+dt*v[2][1])
            for i in range(m):
                e = loop[i][0]
                self.area[e] += dt*(L0[i]+math.dist(loop[i][1], loop[(i+1) % m][1]))/2
                self.top[e] = max(self.top[e], self.t+dt)
        self.t += dt
        self.history.append((self.t, list(self.area)))

    def after(self, wall, t):
        """area swept by a wall after the time t (linear between the events)"""
        t0, a0 = 0., 0.
        for t1, A in self.history:
            if t1 > t:
                return self.area[wall]-a0-(A[wall]-a0)*max(0., t-t0)/(t1-t0)
            t0, a0 = t1, A[wall]
        return 0.

    def run(self):
        self.clean()
        while self.loops:
            ev = self.next()
            self.events += 1
            if ev[0] == math.inf or self.events > 1000:
                raise Stuck()
            self.advance(ev[0])
            if ev[1]:
                _, _, k, i, k2, j = ev
                loop, loop2 = self.loops[k], self.loops[k2]
                x = loop[i][1]
                if k == k2:
                    # (.. e)(v: f ..) hits g: two loops
                    r = loop[i:]+loop[:i]                       # starts with f at x
                    j = (j-i) % len(loop)
                    g, a, _ = r[j]
                    self.loops[k] = [[r[0][0], x, None]]+r[1:j]+[[g, a, None]]
                    # the piece of g before x belongs to the first loop, its end is x: where f starts
                    self.loops.append([[g, x, None]]+r[j+1:])
                else:
                    r = loop[i:]+loop[:i]
                    s = loop2[j:]+loop2[:j]
                    g, a, _ = s[0]
                    # g up to x, the loop of the vertex from x on, then the rest of g from x
                    self.loops[k] = [[g, a, None]]+[[r[0][0], x, None]]+r[1:]+[[g, x, None]]+s[1:]
                    del self.loops[k2]
            self.clean()
