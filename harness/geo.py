"""Seeded generator of geometries on an integer grid, heavy in degeneracies.

Geometries are the records of the specification without homogeneous
coordinates: (tag, parts) with integer points (x, y):
    ('E', ()) ('S', (p, q)) ('M', ((p, q), ...)) ('C', (p, ...))
    ('P', (border, hole, ...)) ('MP', (polygon, ...))
Nothing here decides anything: it only chooses what the library is run on.
"""
from __future__ import annotations

import math
from fractions import Fraction as F


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def onseg(p, a, b):
    return (orient(a, b, p) == 0
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def area2(r):
    return sum(r[i - 1][0] * r[i][1] - r[i][0] * r[i - 1][1]
               for i in range(len(r)))


def ring_edges(r):
    return [(r[i - 1], r[i]) for i in range(len(r))]


def seg_x(a, b, c, d):
    """How two segments meet: None, 'touch', 'cross' or 'over'."""
    o1, o2 = orient(a, b, c), orient(a, b, d)
    if o1 == o2 == 0:
        a, b = min(a, b), max(a, b)
        c, d = min(c, d), max(c, d)
        lo, hi = max(a, c), min(b, d)
        return None if lo > hi else ('touch' if lo == hi else 'over')
    if o1 * o2 > 0:
        return None
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o3 * o4 > 0:
        return None
    if o1 * o2 < 0 and o3 * o4 < 0:
        return 'cross'
    return 'touch'


def simple_ring(r):
    n = len(r)
    if n < 3 or len(set(r)) != n:
        return False
    e = ring_edges(r)
    for i in range(n):
        if orient(r[i - 2], r[i - 1], r[i]) == 0:
            return False
        for j in range(i):
            k = seg_x(*e[i], *e[j])
            if k is None:
                continue
            if k != 'touch' or (i - j) % n not in (1, n - 1):
                return False
    return True


def in_ring(p, r):
    for a, b in ring_edges(r):
        if onseg(p, a, b):
            return 0
    res = False
    for a, b in ring_edges(r):
        if (a[1] > p[1]) != (b[1] > p[1]) \
                and ((b[1] > a[1]) == (orient(a, b, p) > 0)):
            res = not res
    return 1 if res else -1


def drop_collinear(r):
    return [r[i] for i in range(len(r))
            if orient(r[i - 1], r[i], r[(i + 1) % len(r)]) != 0]


def assemble(tris):
    """Counterclockwise triangles of one mesh -> [(border, [hole, ...])]."""
    ed = set()
    for t in tris:
        for i in range(3):
            e = (t[i], t[(i + 1) % 3])
            if (e[1], e[0]) in ed:
                ed.remove((e[1], e[0]))
            else:
                ed.add(e)
    out = {}
    for a, b in ed:
        out.setdefault(a, []).append(b)
    used = set()
    rings = []
    for e in sorted(ed):
        if e in used:
            continue
        path = [e[0]]
        cur = e
        while True:
            used.add(cur)
            a, b = cur
            path.append(b)
            cands = [c for c in out[b] if (b, c) not in used]
            if b in path[:-1]:
                i = path.index(b)
                rings.append(path[i:-1])
                path = path[:i + 1]
                if i == 0:
                    break
            if not cands:
                break
            base = math.atan2(a[1] - b[1], a[0] - b[0])
            cur = (b, min(cands, key=lambda c: (
                base - math.atan2(c[1] - b[1], c[0] - b[0])) % (2 * math.pi)))
    rings = [drop_collinear(r) for r in rings]
    polys = [(b, []) for b in rings if area2(b) > 0]
    for h in rings:
        if area2(h) > 0:
            continue
        best = None
        for b, hs in polys:
            locs = [in_ring(v, b) for v in h]
            locs += [in_ring((F(p[0] + q[0], 2), F(p[1] + q[1], 2)), b)
                     for p, q in ring_edges(h)]
            if all(v >= 0 for v in locs) and any(v > 0 for v in locs):
                if best is None or area2(b) < area2(best[0]):
                    best = (b, hs)
        if best is None:
            return None
        best[1].append(h)
    for b, hs in polys:
        if not simple_ring(b) or not all(map(simple_ring, hs)):
            return None
    return polys


class Gen:
    """Random geometries with coordinates in 0..n."""

    def __init__(self, rng, n=6):
        self.r = rng
        self.n = n
        self.huge = False       # whether values with many parts have more

    def pt(self):
        return (self.r.randint(0, self.n), self.r.randint(0, self.n))

    # -- linear

    def seg(self):
        while True:
            a, b = self.pt(), self.pt()
            if a != b:
                return ('S', (a, b))

    def _segments(self, k, p_shared=.6, strict=False):
        r = self.r
        segs = []
        tries = 0
        while len(segs) < k and tries < 25 * k:
            tries += 1
            if segs and r.random() < p_shared:
                base, o = r.choice(r.choice(segs)), self.pt()
                if o == base:
                    continue
                c = (base, o) if r.random() < .5 else (o, base)
            else:
                c = self.seg()[1]
            if all(self._compatible(c, x, strict) for x in segs):
                segs.append(c)
        return segs

    @staticmethod
    def _compatible(c, x, strict=True):
        k = seg_x(*c, *x)
        if k is None:
            return True
        return k == 'touch' and len({*c, *x}) == 3

    def mseg(self, lo=2, hi=6):
        """A valid multisegment: segments meet at common endpoints only."""
        r = self.r
        while True:
            style = r.random()
            k = r.randint(lo, hi)
            if style < .2:      # star
                c = self.pt()
                segs = []
                for _ in range(4 * k):
                    o = self.pt()
                    if o != c and len(segs) < k and all(
                            self._compatible((c, o), x) for x in segs):
                        segs.append((c, o) if r.random() < .5 else (o, c))
            elif style < .35:   # pieces of a line
                segs = self.line_pieces(k)
            else:
                segs = self._segments(k)
            if len(segs) >= 2:
                r.shuffle(segs)
                return ('M', tuple(segs))

    def line_pieces(self, k):
        r = self.r
        n = self.n
        dx, dy = r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2)])
        x, y = r.randint(0, max(1, n // 3)), r.randint(0, n)
        pts = []
        while 0 <= x <= n and 0 <= y <= n:
            pts.append((x, y))
            x, y = x + dx, y + dy
        if len(pts) < 3:
            return []
        cuts = sorted(r.sample(pts, min(len(pts), k + 1)))
        segs = [s for s in zip(cuts, cuts[1:]) if r.random() < .8]
        return [s if r.random() < .5 else s[::-1] for s in segs]

    def anymseg(self, lo=2, hi=6):
        """A multisegment that may be invalid."""
        r = self.r
        segs = [self.seg()[1] for _ in range(r.randint(lo, hi))]
        if r.random() < .5:
            segs = list(self.mseg(lo, hi)[1])
            a, b = r.choice(segs)
            k = r.randrange(4)
            if k == 0:
                segs.append((b, a))
            elif k == 1:
                segs.append((a, self.other(a)))
            elif k == 2:
                segs.append(self.seg()[1])
            else:
                m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
                segs.append((m, self.other(m)))
            r.shuffle(segs)
        return ('M', tuple(segs))

    def other(self, p):
        while True:
            q = self.pt()
            if q != p:
                return q

    # -- rings

    def ring(self, lo=3, hi=7):
        r = self.r
        while True:
            k = r.randint(lo, hi)
            pts = [self.pt() for _ in range(k)]
            if len(set(pts)) < k:
                continue
            for _ in range(6 * k):
                done = True
                for i in range(k):
                    for j in range(i + 2, k):
                        if (i - j) % k in (1, k - 1):
                            continue
                        if seg_x(pts[i], pts[(i + 1) % k],
                                 pts[j], pts[(j + 1) % k]):
                            pts[i + 1:j + 1] = pts[i + 1:j + 1][::-1]
                            done = False
                            break
                    if not done:
                        break
                if done:
                    break
            if simple_ring(pts):
                return tuple(pts)

    def rot(self, ring):
        k = self.r.randrange(len(ring))
        ring = tuple(ring[k:]) + tuple(ring[:k])
        return ring[::-1] if self.r.random() < .5 else ring

    def contour(self):
        if self.r.random() < .35:
            p = self.r.choice(self.tri_region())
            return ('C', self.rot(self.r.choice([p[0], *p[1]])))
        return ('C', self.rot(self.ring()))

    # -- regions

    def mesh_style(self):
        r = self.r
        m = r.randint(2, min(5 if r.random() < .25 else 4, self.n))
        step = 1 if r.random() < .4 else max(1, self.n // m)
        return m, step

    def tri_region(self):
        """Region made of cells or half-cells of a square mesh."""
        r = self.r
        while True:
            m, step = self.mesh_style()
            ox = r.randint(0, self.n - m * step)
            oy = r.randint(0, self.n - m * step)
            xs = [ox + step * i for i in range(m + 1)]
            ys = [oy + step * i for i in range(m + 1)]
            style = r.randrange(3)
            p = r.choice([.3, .5, .7, .85])
            tris = []
            for i in range(m):
                for j in range(m):
                    a, b = (xs[i], ys[j]), (xs[i + 1], ys[j])
                    c, d = (xs[i + 1], ys[j + 1]), (xs[i], ys[j + 1])
                    if style == 0:
                        if r.random() < p:
                            tris += [(a, b, c), (a, c, d)]
                    else:
                        two = ([(a, b, c), (a, c, d)] if r.random() < .5
                               else [(a, b, d), (b, c, d)])
                        tris += [t for t in two if r.random() < p]
            if tris:
                ps = assemble(tris)
                if ps:
                    return ps

    # -- values with many parts

    def large_mesh(self):
        """Triangles of a mesh over much of the grid."""
        r = self.r
        m = r.randint(12, 16) if self.huge else r.randint(4, 8)
        step = self.n // m
        ox, oy = (r.randint(0, self.n - m * step) for _ in range(2))
        up = r.choice([0., .5, 1.])
        tris = []
        for i in range(m):
            for j in range(m):
                x, y = ox + step * i, oy + step * j
                a, b = (x, y), (x + step, y)
                c, d = (x + step, y + step), (x, y + step)
                tris += ([(a, b, c), (a, c, d)] if r.random() < up
                         else [(a, b, d), (b, c, d)])
        return tris

    def band(self):
        """The ring of two chains of points, level after level."""
        r, n = self.r, self.n
        xs = [x for x in range(n + 1) if r.random() < .9]
        low = [(x, r.randint(0, n // 2 - 1)) for x in xs]
        high = [(x, r.randint(n // 2 + 1, n)) for x in xs]
        return low + high[::-1]

    def comb(self):
        r, n = self.r, self.n
        back = r.randint(0, n // 2 - 1)
        ring = [(n, back - r.randint(0, back)), (0, 0)]
        for x in range(0, n - 1, 2):
            tip = r.randint(n // 2 + 1, n)
            ring += [(x, tip), (x + 1, tip - r.randint(0, 1)),
                     (x + r.choice([1, 2]), back + 1)]
        ring.append((n, n))
        return ring

    def spiral(self):
        n = self.n
        out, inner = [], []
        a, b = 0, n
        while b - a >= 2:
            out += [(a, a), (b, a), (b, b), (a + 2, b)]
            inner += [(a + 1, a + 1), (b - 1, a + 1), (b - 1, b - 1),
                      (a + 3, b - 1)]
            a, b = a + 2, b - 2
        k = self.r.randint(4, len(out))
        return out[:k] + inner[:k][::-1]

    def round(self):
        """The ring of points seen one after another from a middle."""
        r, n = self.r, self.n
        m = n // 2
        dirs = {}
        for _ in range(r.randint(12, 50)):
            x, y = r.randint(-m, m), r.randint(-m, m)
            if x or y:
                k = math.gcd(x, y)
                dirs[x // k, y // k] = (x, y)
        ps = sorted(dirs.values(), key=lambda p: math.atan2(p[1], p[0]))
        return [(m + x, m + y) for x, y in ps]

    def maze(self, loops=0.):
        """The polygon of the corridors of a maze, having no loops or some."""
        r = self.r
        k = (self.n - 1) // 2
        w, h = r.randint(2, k), r.randint(k // 2 + 1, k)
        open_ = {(2 * i, 2 * j) for i in range(w + 1) for j in range(h + 1)}
        ways = [((i, j), (i + u, j + 1 - u)) for i in range(w + 1)
                for j in range(h + 1) for u in (0, 1)
                if i + u <= w and j + 1 - u <= h]
        r.shuffle(ways)
        root = {(i, j): (i, j) for i in range(w + 1) for j in range(h + 1)}

        def find(v):
            while root[v] != v:
                v = root[v]
            return v

        for a, b in ways:
            x, y = find(a), find(b)
            if x != y or r.random() < loops:
                root[x] = y
                open_.add((a[0] + b[0], a[1] + b[1]))
        tris = []
        for x, y in sorted(open_):
            a, b, c, d = (x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)
            tris += [(a, b, c), (a, c, d)]
        (polygon,) = assemble(tris)
        return polygon

    def large_ring(self):
        r, n = self.r, self.n
        while True:
            ring = r.choice([self.band, self.comb, self.spiral, self.round,
                             lambda: self.maze()[0]])()
            ring = drop_collinear(list(dict.fromkeys(ring)))
            if not simple_ring(ring):
                continue
            if r.random() < .5:
                ring = [(y, x) for x, y in ring]
            if r.random() < .5:
                ring = [(n - x, y) for x, y in ring]
            if area2(ring) < 0:
                ring = ring[::-1]
            return self.rot(ring)

    def large_shaped(self, tris=None, kinds='PQ'):
        r = self.r
        if tris is None and kinds == 'PQ' and not self.huge \
                and r.random() < .3:
            if r.random() < .2:
                return ('P', self.pack([self.maze(r.choice([.1, .5, 1.]))])[0])
            return ('P', (self.large_ring(),))
        while True:
            p = r.choice([.3, .5, .7, .8, .9] if 'Q' in kinds
                         else [.7, .8, .9])
            ts = tris or self.large_mesh()
            if r.random() < .5:
                ts = [t for t in ts if r.random() < p]
            else:       # pairs of triangles
                ts = [t for k in range(0, len(ts), 2) if r.random() < p
                      for t in ts[k:k + 2]]
            ps = ts and assemble(ts)
            if not ps:
                continue
            if 'Q' not in kinds or len(ps) == 1:
                if 'P' not in kinds:
                    continue
                ps.sort(key=lambda p: -len(p[0]) - sum(map(len, p[1])))
                return ('P', self.pack(ps[:1])[0])
            return ('MP', self.pack(ps))

    def large_linear(self, tris=None, kinds='MC'):
        r = self.r
        if 'C' in kinds and (kinds == 'C' or not self.huge
                             and r.random() < .3):
            return ('C', self.large_ring())
        ts = tris or self.large_mesh()
        sides = sorted({tuple(sorted((t[i - 1], t[i]))) for t in ts
                        for i in range(3)})
        k = min(len(sides), r.choice([150, 200, 270, 300]) if self.huge
                else r.choice([12, 20, 34, 40, 64, 70]))
        sides = r.sample(sides, k)
        return ('M', tuple(s if r.random() < .5 else s[::-1]
                           for s in sides))

    def large(self, dims):
        """Operands with many parts, of one mesh or of several."""
        r = self.r
        tris = self.large_mesh() if r.random() < .6 else None
        out = [self.large_shaped(tris) if d == 2 else
               self.large_linear(tris) for d in dims]
        if len(out) > 1 and r.random() < .25:
            k = r.randrange(2)
            out[k] = self.any('SMC' if dims[k] == 1 else 'PQ')
        return out

    def pack(self, ps):
        out = []
        for b, hs in ps:
            hs = [self.rot(h) for h in hs]
            self.r.shuffle(hs)
            out.append((self.rot(b), *hs))
        self.r.shuffle(out)
        return tuple(out)

    def holed(self, tries=6, lo=3, hi=8):
        r = self.r
        b = self.ring(lo, hi)
        hs = []
        for _ in range(tries):
            h = self.ring(3, 4)
            if self.hole_ok(b, hs, h):
                hs.append(h)
        return (b, hs)

    def nested(self):
        """Concentric frames: polygons within the holes of polygons."""
        r = self.r
        n = self.n
        if n < 6:
            return None
        cx = cy = n // 2
        ks = sorted(r.sample(range(1, n // 2 + 1),
                             r.randint(2, min(6, n // 2))), reverse=True)
        rings = []
        for k in ks:
            if r.random() < .5:
                rings.append([(cx - k, cy - k), (cx + k, cy - k),
                              (cx + k, cy + k), (cx - k, cy + k)])
            else:
                rings.append([(cx - k, cy), (cx, cy - k),
                              (cx + k, cy), (cx, cy + k)])
        ok = [rings[0]]
        for g in rings[1:]:
            if all(in_ring(v, ok[-1]) > 0 for v in g):
                ok.append(g)
        ps = []
        for i in range(0, len(ok), 2):
            ps.append((ok[i], [ok[i + 1]] if i + 1 < len(ok) else []))
        return ps

    def blobs(self, tris, size):
        """Groups of tiles having no sides of each other."""
        r = self.r
        near = {t: [u for u in tris if len(set(t) & set(u)) == 2]
                for t in tris}
        owner = {}
        for n, t in enumerate(tris):
            front = [t]
            k = r.randint(1, size)
            while front and k:
                t = front.pop(r.randrange(len(front)))
                if t not in owner and all(owner.get(u, n) == n
                                          for u in near[t]):
                    owner[t] = n
                    front += near[t]
                    k -= 1
        return list(owner)

    def riddled(self):
        """A polygon whose holes touch each other at any number of points."""
        r = self.r
        m = min(r.randint(3, 7), self.n)
        step = max(r.randint(1, self.n // m) for _ in range(2))
        side = m * step
        ox, oy = (r.randint(0, self.n - side) for _ in range(2))
        b = [(ox, oy), (ox + side, oy), (ox + side, oy + side),
             (ox, oy + side)]
        style = r.randrange(3)
        tris = []
        for i in range(m):
            for j in range(m):
                x, y = ox + step * i, oy + step * j
                p, q = (x, y), (x + step, y)
                s, t = (x + step, y + step), (x, y + step)
                if style == 0 and step % 2 == 0:
                    c = (x + step // 2, y + step // 2)
                    tris += [(p, q, c), (q, s, c), (s, t, c), (t, p, c)]
                elif style == 1 or r.random() < .5:
                    tris += [(p, q, s), (p, s, t)]
                else:
                    tris += [(p, q, t), (q, s, t)]
        tris = [t for t in tris if sum(in_ring(v, b) == 0 for v in t) < 2]
        r.shuffle(tris)
        if r.random() < .5:
            p = r.choice([.3, .4, .5, .6, .7])
            tris = [t for t in tris if r.random() < p]
        else:
            tris = self.blobs(tris, r.choice([2, 4, 7, 10]))
        ps = assemble(tris) or []
        hs = []
        for h, _ in ps:
            if r.random() < .1 or any(
                    in_ring((F(u[0] + v[0], 2), F(u[1] + v[1], 2)), o) > 0
                    for o, _ in ps for u, v in ring_edges(h)):
                continue
            # those reaching each other, and the corners of the border
            # they reach, must not cut the polygon from the border on
            near = {v for v in h if in_ring(v, b) == 0}
            group, rest = [h], []
            for vs, g in hs:
                if any(in_ring(v, q) == 0 or in_ring(w, h) == 0
                       for q in g for v in h for w in q):
                    near |= vs
                    group += g
                else:
                    rest.append((vs, g))
            if len(near) < 2:
                hs = rest + [(near, group)]
        return (b, [h for _, g in hs for h in g])

    def poly(self):
        r = self.r
        s = r.random()
        if s < .06:
            p = self.riddled()
        elif s < .45:
            ps = self.tri_region()
            p = (max(ps, key=lambda p: len(p[1]) * 10 + len(p[0]))
                 if r.random() < .6 else r.choice(ps))
        elif s < .6:
            p = self.holed()
        elif s < .66:
            ps = self.nested()
            if not ps:
                return self.poly()
            p = r.choice(ps)
        else:
            p = (self.ring(3, 9 if r.random() < .2 else 7), [])
        return ('P', self.pack([p])[0])

    def hole_ok(self, b, hs, h):
        for e in ring_edges(h):
            for f in ring_edges(b):
                if seg_x(*e, *f) in ('cross', 'over'):
                    return False
        if any(in_ring(v, b) < 0 for v in h):
            return False
        if not all(in_ring((F(p[0] + q[0], 2), F(p[1] + q[1], 2)), b) > 0
                   for p, q in ring_edges(h)):
            return False
        if len({v for v in h if in_ring(v, b) == 0}
               | {v for v in b if in_ring(v, h) == 0}) > 1:
            return False
        for g in hs:
            for e in ring_edges(h):
                for f in ring_edges(g):
                    if seg_x(*e, *f):
                        return False
            if in_ring(h[0], g) >= 0 or in_ring(g[0], h) >= 0:
                return False
        return True

    def mpoly(self):
        r = self.r
        while True:
            ps = self.nested() if r.random() < .12 else self.tri_region()
            if ps and len(ps) > 1:
                return ('MP', self.pack(ps))

    def any(self, kinds='SMCPQ'):
        k = self.r.choice(kinds)
        if k == 'E':
            return ('E', ())
        return {'S': self.seg, 'C': self.contour, 'M': self.mseg,
                'P': self.poly, 'Q': self.mpoly}[k]()

    # -- geometries related to a given one

    def edges(self, g):
        t, c = g
        if t == 'E':
            return []
        if t == 'S':
            return [c]
        if t == 'M':
            return list(c)
        if t == 'C':
            return ring_edges(c)
        polys = [c] if t == 'P' else c
        return [e for p in polys for r in p for e in ring_edges(r)]

    def subline(self, e):
        """A segment collinear to e: a part, an extension or a shift of it."""
        (x0, y0), (x1, y1) = e
        g = math.gcd(x1 - x0, y1 - y0)
        dx, dy = (x1 - x0) // g, (y1 - y0) // g
        lo, hi = -3, g + 3
        ks = [k for k in range(lo, hi + 1)
              if 0 <= x0 + k * dx <= self.n and 0 <= y0 + k * dy <= self.n]
        if self.r.random() < .5:
            ks = [k for k in ks if 0 <= k <= g]
        if len(ks) < 2:
            return e
        a, b = self.r.sample(ks, 2)
        return ((x0 + a * dx, y0 + a * dy), (x0 + b * dx, y0 + b * dy))

    def prolonged(self, e):
        """A segment containing an edge, as long as the grid permits."""
        (ax, ay), (bx, by) = e
        q = math.gcd(bx - ax, by - ay)
        dx, dy = (bx - ax) // q, (by - ay) // q
        a, b = e
        n = self.n
        while self.r.random() < .7 and 0 <= b[0] + dx <= n \
                and 0 <= b[1] + dy <= n:
            b = (b[0] + dx, b[1] + dy)
        while self.r.random() < .7 and 0 <= a[0] - dx <= n \
                and 0 <= a[1] - dy <= n:
            a = (a[0] - dx, a[1] - dy)
        return a, b

    def pieces(self, e, p=1):
        """Consecutive pieces of a segment (some left out)."""
        r = self.r
        (ax, ay), (bx, by) = e
        q = math.gcd(bx - ax, by - ay)
        dx, dy = (bx - ax) // q, (by - ay) // q
        cuts = [0, *sorted(r.sample(range(1, q), min(q - 1,
                                                     r.randint(1, 4)))), q]
        at = [(ax + i * dx, ay + i * dy) for i in cuts]
        out = [s if r.random() < .5 else s[::-1]
               for s in zip(at, at[1:]) if r.random() < p]
        r.shuffle(out)
        return out

    def pencil(self):
        """Segments through a common point."""
        r = self.r
        m = self.pt()
        out = []
        for _ in range(40):
            if len(out) == 5:
                break
            a = self.other(m)
            k = r.randint(1, 3)
            b = (m[0] - k * (a[0] - m[0]), m[1] - k * (a[1] - m[1]))
            if r.random() < .2:
                b = m
            if all(0 <= v <= self.n for v in b) and a != b:
                out.append((a, b) if r.random() < .5 else (b, a))
        return out or [self.seg()[1]]

    def covered(self):
        """A segment and pieces of its line (and something else)."""
        r = self.r
        for _ in range(20):
            a = self.pt()
            dx, dy = r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1),
                               (1, 2), (2, -1), (3, 2)])
            q = r.randint(2, 8)
            b = (a[0] + q * dx, a[1] + q * dy)
            if all(0 <= v <= self.n for v in b):
                break
        else:
            return None
        out = self.pieces((a, b), r.choice([1, 1, 1, .8]))
        ends = sorted({p for s in out for p in s})
        if len(ends) < 2:
            return None
        c, d = r.sample(ends, 2)
        if r.random() < .3:
            c, d = a, b
        if r.random() < .3:
            c, d = self.prolonged((c, d))
        if r.random() < .5:
            out += self._segments(r.randint(1, 3))
        m = self.to_mseg(out)
        if m is None:
            return None
        return ('S', (c, d) if r.random() < .5 else (d, c)), m

    def abut(self, a, b):
        """b moved so that it comes to touch a part of a from outside."""
        r = self.r
        parts = [[('P', p) for p in g[1]] if g[0] == 'MP'
                 else [('S', s) for s in g[1]] if g[0] == 'M' else [g]
                 for g in (a, b)]
        pts = [p for e in self.edges(b) for p in e]
        if not pts or not self.edges(a):
            return b
        for _ in range(12):
            p, q = (sorted({p for e in self.edges(r.choice(ps)) for p in e})
                    for ps in parts)
            if r.random() < .3:
                p.sort(key=lambda v: v[::-1])
                q.sort(key=lambda v: v[::-1])
            v, w = (p[-1], q[0]) if r.random() < .5 else (p[0], q[-1])
            dx, dy = v[0] - w[0], v[1] - w[1]
            if r.random() < .3:
                dy += r.randint(-1, 1)
            if all(0 <= x + dx <= 16 and 0 <= y + dy <= 16 for x, y in pts):
                return remap(b, lambda p: (p[0] + dx, p[1] + dy))
        return b

    def to_mseg(self, segs):
        """Keep those segments that make a valid multisegment."""
        ok = []
        for s in segs:
            if s[0] != s[1] and all(self._compatible(s, x) for x in ok):
                ok.append(s)
        if len(ok) < 2:
            return ('S', ok[0]) if ok else None
        return ('M', tuple(ok))

    def shift(self, g):
        r = self.r
        pts = [p for e in self.edges(g) for p in e]
        if not pts:
            return g
        for _ in range(8):
            dx, dy = r.randint(-2, 2), r.randint(-2, 2)
            if all(0 <= x + dx <= self.n and 0 <= y + dy <= self.n
                   for x, y in pts):
                return remap(g, lambda p: (p[0] + dx, p[1] + dy))
        return g

    def respell(self, g):
        """The same geometry spelled differently."""
        r = self.r
        t, c = g
        if t == 'S':
            return (t, c[::-1] if r.random() < .5 else c)
        if t == 'M':
            s = [x[::-1] if r.random() < .5 else x for x in c]
            r.shuffle(s)
            return (t, tuple(s))
        if t == 'C':
            return (t, self.rot(c))
        if t == 'P':
            return (t, self.pack([(c[0], c[1:])])[0])
        if t == 'MP':
            return (t, self.pack([(p[0], p[1:]) for p in c]))
        return g

    def related(self, g, dims=(1, 2)):
        """A geometry sharing something with g."""
        r = self.r
        n = self.n
        for _ in range(20):
            dim = r.choice(dims)
            es = self.edges(g)
            k = r.randrange(14 if dim == 1 else 12)
            out = None
            if not es:
                return self.any('SMC' if dim == 1 else 'PQ')
            if dim == 1:
                if k == 12:     # an edge piece by piece
                    a, b = r.choice(es)
                    if r.random() < .5:
                        a, b = self.prolonged((a, b))
                    out = self.to_mseg(self.pieces((a, b), r.choice(
                        [1, 1, .8])) + (r.sample(es, 1) if r.random() < .4
                                        else []))
                elif k == 13:   # a segment beyond an edge
                    a, b = self.prolonged(r.choice(es))
                    out = ('S', (a, b) if r.random() < .5 else (b, a))
                elif k == 0:
                    out = ('S', r.choice(es))
                elif k == 1:
                    out = ('S', self.subline(r.choice(es)))
                elif k <= 3:
                    out = self.to_mseg([e for e in es if r.random() < .6])
                elif k == 4:
                    out = self.to_mseg([self.subline(e) for e in es
                                        if r.random() < .6])
                elif k == 5:
                    out = self.to_mseg(r.sample(es, len(es)))
                elif k == 6:
                    a = r.choice(r.choice(es))
                    out = ('S', (a, self.other(a)))
                elif k == 7:
                    a = r.choice(r.choice(es))
                    b = r.choice(r.choice(es))
                    out = ('S', (a, b)) if a != b else None
                elif k == 8:
                    a = r.choice(r.choice(es))
                    out = self.to_mseg([(a, self.other(a))
                                        for _ in range(r.randint(2, 5))])
                elif k == 9 and g[0] in ('P', 'MP'):
                    p = g[1] if g[0] == 'P' else r.choice(g[1])
                    out = ('C', r.choice(p))
                elif k == 10 and g[0] in ('C', 'S', 'M'):
                    out = g
                elif k == 11:
                    out = self.to_mseg([self.subline(r.choice(es)),
                                        *[s for s in self._segments(3)]])
                if out and out[0] == 'M':
                    s = list(out[1])
                    r.shuffle(s)
                    out = ('M', tuple(s))
            else:
                if g[0] in ('P', 'MP'):
                    polys = [g[1]] if g[0] == 'P' else list(g[1])
                    if k == 0:
                        out = g
                    elif k == 1:
                        out = ('P', r.choice(polys))
                    elif k == 2:    # hole as a polygon
                        hs = [h for p in polys for h in p[1:]]
                        out = ('P', (r.choice(hs),)) if hs else None
                    elif k == 3:    # holes filled
                        out = ('P', (r.choice(polys)[0],))
                    elif k == 4:    # some holes filled
                        p = r.choice(polys)
                        out = ('P', (p[0], *[h for h in p[1:]
                                             if r.random() < .5]))
                    elif k == 5 and len(polys) > 2:
                        out = ('MP', tuple(r.sample(
                            polys, r.randint(2, len(polys)))))
                    elif k == 6:
                        out = self.shift(g)
                    elif k == 7:    # move one vertex
                        out = self.nudge(g)
                    elif k == 8:
                        out = self.shift(('P', r.choice(polys)))
                    elif k == 9:    # triangle on an edge
                        a, b = r.choice(es)
                        c = self.pt()
                        out = ('P', ((a, b, c),)) if orient(a, b, c) else None
                    elif k == 10:   # vertices of the border
                        vs = list(r.choice(polys)[0])
                        if len(vs) > 3:
                            sub = [v for v in vs if r.random() < .7]
                            out = (('P', (tuple(sub),))
                                   if simple_ring(sub) else None)
                    elif k == 11:   # square around or inside
                        out = ('P', (((0, 0), (n, 0), (n, n), (0, n)),))
                else:
                    if g[0] == 'C' and k < 4:
                        out = ('P', (g[1],))
                    elif g[0] == 'C' and k == 4:
                        b = ((0, 0), (n, 0), (n, n), (0, n))
                        out = (('P', (b, g[1]))
                               if self.hole_ok(b, [], g[1]) else None)
                    else:
                        a, b = r.choice(es)
                        if k % 2:
                            a, b = self.subline((a, b))
                        c = self.pt()
                        if k < 8:
                            out = ('P', ((a, b, c),)) if orient(a, b, c) \
                                else None
                        else:
                            d = self.pt()
                            out = (('P', ((a, b, c, d),))
                                   if simple_ring((a, b, c, d)) else None)
            if out is not None and out[0] == 'S' and out[1][0] == out[1][1]:
                out = None
            if out is not None:
                return self.respell(out)
        return self.any('SMC' if 1 in dims else 'PQ')

    # -- operands spread over the grid

    def spread(self, dims):
        """Geometries of the given dimensions made of parts lying in blocks of
        the grid (which may touch): near in some places, far in others."""
        r = self.r
        b = r.choice([2, 3, 4, 5, 5, 8])
        apart, snug = r.random() < .35, r.choice([0, 0, .5, 1])
        blocks = [(x, y) for x in range(0, 17 - b, b)
                  for y in range(0, 17 - b, b)]
        r.shuffle(blocks)
        pool = blocks[:r.randint(2, 4)]
        small = Gen(r, b)
        parts = {}      # block -> [part of each operand]
        out = []
        for k, dim in enumerate(dims):
            free = [o for o in pool if o not in parts] if apart else pool
            chosen = r.sample(free, r.randint(1, max(1, len(free) - (
                apart and k < len(dims) - 1))))
            segs, polys, ring = [], [], None
            for o in chosen:
                near = parts.get(o)
                g = (small.filler(dim) if r.random() < snug else
                     small.related(near, (dim,))
                     if near and r.random() < .6 else
                     small.any('SSSMC' if dim == 1 else 'PPQ'))
                parts.setdefault(o, g)
                g = remap(g, lambda p: (p[0] + o[0], p[1] + o[1]))
                if dim == 1:
                    segs += self.edges(g)
                    ring = g if g[0] == 'C' else None
                else:
                    for p in [g[1]] if g[0] == 'P' else g[1]:
                        es = [e for c in p for e in ring_edges(c)]
                        if not any(seg_x(*e, *f) == 'over' for e in es
                                   for q in polys for c in q
                                   for f in ring_edges(c)):
                            polys.append(p)
            if dim == 2:
                r.shuffle(polys)
                out.append(('MP', tuple(polys)) if len(polys) > 1
                           else ('P', polys[0]))
            elif ring and len(chosen) == 1:
                out.append(ring)
            else:
                r.shuffle(segs)
                out.append(self.to_mseg(segs) or self.seg())
        return out

    def filler(self, dim):
        """Geometries reaching the sides of their block."""
        r = self.r
        n, h = self.n, max(1, self.n // 2)
        o, p, q, s = (0, 0), (n, 0), (n, n), (0, n)
        rings = [(o, p, q, s), (o, p, q), (o, p, s), (o, q, s), (p, q, s),
                 ((h, 0), (n, h), (h, n), (0, h)), (o, p, (h, n)),
                 (o, (n, h), s), (p, q, (0, h)), (s, q, (h, 0)),
                 (o, p, (n, h), (0, h)), (o, (h, 0), (h, n), s)]
        ring = self.rot(r.choice(rings))
        if dim == 2:
            if n > 3 and r.random() < .2:
                return ('P', (self.rot((o, p, q, s)), self.rot(
                    ((1, 1), (n - 1, 1), (n - 1, n - 1), (1, n - 1)))))
            return ('P', (ring,))
        k = r.random()
        if k < .2:
            return ('C', tuple(ring))
        es = ring_edges(ring)
        if k < .6:
            return ('S', r.choice(es))
        return ('M', tuple(r.sample(es, r.randint(2, len(es)))))

    def nudge(self, g):
        r = self.r
        polys = [g[1]] if g[0] == 'P' else list(g[1])
        p = r.choice(polys)
        b = list(p[0])
        i = r.randrange(len(b))
        b[i] = (min(self.n, max(0, b[i][0] + r.randint(-1, 1))),
                min(self.n, max(0, b[i][1] + r.randint(-1, 1))))
        if simple_ring(b) and all(self.hole_ok(b, [], h) for h in p[1:]):
            return ('P', (tuple(b), *p[1:]))
        return None


def remap(g, f):
    t, c = g
    if t == 'E':
        return g
    if t in ('S', 'C'):
        return (t, tuple(f(p) for p in c))
    if t in ('M', 'P'):
        return (t, tuple(tuple(f(p) for p in s) for s in c))
    return (t, tuple(tuple(tuple(f(p) for p in r) for r in q) for q in c))
