"""Workload generators.  Everything is a pure function of a random.Random.

The generators favour coincidences (shared vertices, shared and overlapping
edges, pinch points, collinear runs, equal bounding-box sides), because those
are what sweeps and case analyses get wrong and what wide-range random
coordinates never produce.  All geometries produced here are valid by the
oracle's own definition (asserted by mon.gen_selftest).
"""
from __future__ import annotations

from fractions import Fraction
from math import gcd

from . import plane
from .plane import Geo, cmp, key, lt, orient, pt, ring_area2, sorted_seg


# ------------------------------------------------------------ rings, regions

def drop_collinear(ring):
    out = list(ring)
    changed = True
    while changed and len(out) >= 3:
        changed = False
        for i in range(len(out)):
            a, b, c = out[i - 1], out[i], out[(i + 1) % len(out)]
            if a == b or orient(a, b, c) == 0:
                del out[i]
                changed = True
                break
    return out


def half(v, o):
    x = o[0] * v[2] - v[0] * o[2]
    y = o[1] * v[2] - v[1] * o[2]
    return 0 if y > 0 or (y == 0 and x > 0) else 1


def ang_lt(v, a, b):
    """direction v->a strictly before v->b counterclockwise from +x"""
    ha, hb = half(v, a), half(v, b)
    if ha != hb:
        return ha < hb
    return orient(v, a, b) > 0


def rings_of(directed):
    """Directed boundary edges with the interior on the left -> simple rings,
    split at every vertex visited twice; pinch points are resolved so that
    each ring bounds one connected piece of the interior."""
    out = {}
    for p, q in directed:
        out.setdefault(p, []).append(q)
    unused = {}
    for p, qs in out.items():
        unused[p] = list(qs)
    rings = []
    for start in sorted(out, key=key):
        while unused[start]:
            first = unused[start][0]
            path = [start]
            prev, cur = start, first
            unused[start].remove(first)
            while True:
                path.append(cur)
                if cur == start:
                    break
                nxt = _next(prev, cur, unused[cur])
                unused[cur].remove(nxt)
                prev, cur = cur, nxt
            path.pop()
            rings.extend(_split(path))
    return rings


def _next(prev, v, outs):
    """first outgoing edge clockwise from v->prev"""
    best = None
    for o in outs:
        if best is None or _cw_before(v, prev, o, best):
            best = o
    return best


def _cw_before(v, ref, a, b):
    """going clockwise from direction v->ref, a comes before b"""
    # clockwise from ref: counterclockwise angle from a to ref is smaller
    ra, rb = _after(v, ref, a), _after(v, ref, b)
    if ra != rb:
        # angles "before" ref in ccw order (cw side first)
        return ra < rb
    return ang_lt(v, b, a)


def _after(v, ref, a):
    """0 if a precedes ref counterclockwise-from-+x (reached first going
    clockwise), 1 otherwise"""
    return 0 if ang_lt(v, a, ref) else 1


def _split(path):
    rings = []
    stack, index = [], {}
    for v in path:
        if v in index:
            i = index[v]
            loop = stack[i:]
            rings.append(loop)
            for u in loop:
                del index[u]
            del stack[i:]
        index[v] = len(stack)
        stack.append(v)
    rings.append(stack)
    return [r for r in rings if len(r) >= 3]


def region(directed):
    """-> Geo (empty, polygon or multipolygon)"""
    rings = rings_of(directed)
    borders, holes = [], []
    for r in rings:
        (borders if ring_area2(r) > 0 else holes).append(r)
    polys = [(b, []) for b in borders]
    sizes = [ring_area2(b) for b in borders]
    for h in holes:
        # a point just inside the hole: face next to one of its edges
        best = None
        arrs = None
        for k, b in enumerate(borders):
            if sizes[k] <= abs(ring_area2(h)):
                continue
            if ring_inside(h, b) and (best is None or sizes[k] < sizes[best]):
                best = k
        assert best is not None, (borders, h)
        polys[best][1].append(h)
    polys = [(drop_collinear(b), [drop_collinear(h) for h in hs])
             for b, hs in polys]
    if not polys:
        return plane.empty()
    if len(polys) == 1:
        return plane.poly(*polys[0])
    return plane.mpoly(polys)


def ring_inside(h, b):
    """simple ring h lies in the closed region of simple ring b (given that
    they do not cross)"""
    bset = plane.poly(b)
    for p in h:
        loc = plane.locate(bset, p)
        if loc == plane.EXTERIOR:
            return False
        if loc == plane.INTERIOR:
            return True
    for p, q in plane.ring_edges(h):
        loc = plane.locate(bset, plane.mid(p, q))
        if loc != plane.BOUNDARY:
            return loc == plane.INTERIOR
    arr = plane.Arrangement([plane.poly(h), bset])
    return all(y or not x for i in range(len(arr.edges))
               for x, y in zip(arr.side[0][i], arr.side[1][i]))


# --------------------------------------------------------------- grid worlds

class Grid:
    """w x h integer cells, every cell cut by one or two diagonals; vertices
    optionally jittered on a finer lattice (keeping triangles positive)"""

    def __init__(self, rng, w, h, x0=0, y0=0, step=1, jitter=False):
        self.rng, self.w, self.h = rng, w, h
        s = step
        P = {}
        for i in range(w + 1):
            for j in range(h + 1):
                P[i, j] = (x0 + i * s, y0 + j * s)
        tris = []
        cells = []
        for i in range(w):
            for j in range(h):
                a, b, c, d = (i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)
                mode = rng.randrange(4)
                if mode == 0:
                    ts = [(a, b, c), (a, c, d)]
                elif mode == 1:
                    ts = [(a, b, d), (b, c, d)]
                elif mode == 2:
                    m = ('m', i, j)
                    P[m] = (Fraction(2 * (x0 + i * s) + s, 2),
                            Fraction(2 * (y0 + j * s) + s, 2))
                    ts = [(a, b, m), (b, c, m), (c, d, m), (d, a, m)]
                else:
                    ts = [(a, b, c, d)]
                cells.append(ts)
                tris.extend(ts)
        if jitter:
            for k in list(P):
                if k[0] == 'm':
                    continue
                i, j = k
                if 0 < i < w and 0 < j < h and rng.random() < 0.6:
                    old = P[k]
                    P[k] = (old[0] + Fraction(rng.randrange(-1, 2) * s, 4),
                            old[1] + Fraction(rng.randrange(-1, 2) * s, 4))
        self.P = {k: pt(*v) for k, v in P.items()}
        self.faces = []
        for t in tris:
            ring = [self.P[k] for k in t]
            ok = (plane.contour_defects(ring) is None
                  and ring_area2(ring) > 0)
            if not ok:
                # jitter broke it: rebuild without jitter
                self.__init__(rng, w, h, x0, y0, step, False)
                return
            self.faces.append(ring)
        if jitter and not self._tiling():
            self.__init__(rng, w, h, x0, y0, step, False)

    def _tiling(self):
        return (sum(ring_area2(f) for f in self.faces)
                == 2 * self.w * self.h * (self.P[1, 0][0] - self.P[0, 0][0]) ** 2
                if self.P[0, 0][2] == 1 else True)

    def edges(self):
        return sorted({sorted_seg(*e) for f in self.faces
                       for e in plane.ring_edges(f)},
                      key=lambda e: (key(e[0]), key(e[1])))

    def region(self, density=None, faces=None):
        rng = self.rng
        if faces is None:
            d = rng.choice([0.2, 0.35, 0.5, 0.65, 0.8, 0.9]
                           ) if density is None else density
            if rng.random() < 0.35:
                # blobs: rectangle minus rectangle
                faces = self._blob()
            else:
                faces = [f for f in self.faces if rng.random() < d]
        return region_of_faces(faces)

    def _blob(self):
        rng = self.rng
        xs = sorted(rng.sample(range(2 * self.w + 1), 2))
        ys = sorted(rng.sample(range(2 * self.h + 1), 2))
        hx = sorted(rng.sample(range(2 * self.w + 1), 2))
        hy = sorted(rng.sample(range(2 * self.h + 1), 2))
        a, b = self.P[0, 0], self.P[self.w, self.h]
        x0, y0 = plane.xy(a)
        x1, y1 = plane.xy(b)
        sx, sy = (x1 - x0) / (2 * self.w), (y1 - y0) / (2 * self.h)
        out = []
        for f in self.faces:
            cx = sum(plane.xy(p)[0] for p in f) / len(f)
            cy = sum(plane.xy(p)[1] for p in f) / len(f)
            u, v = (cx - x0) / sx, (cy - y0) / sy
            if xs[0] <= u <= xs[1] and ys[0] <= v <= ys[1] and not (
                    hx[0] <= u <= hx[1] and hy[0] <= v <= hy[1]):
                out.append(f)
        return out


def region_of_faces(faces):
    directed = set()
    for f in faces:
        for p, q in plane.ring_edges(f):
            if (q, p) in directed:
                directed.discard((q, p))
            else:
                directed.add((p, q))
    return region(directed)


# ---------------------------------------------------------- other shapes

def rnd_pt(rng, n, den=1):
    if den == 1:
        return pt(rng.randint(-n, n), rng.randint(-n, n))
    return pt(Fraction(rng.randint(-n * den, n * den), den),
              Fraction(rng.randint(-n * den, n * den), den))


def hull(points):
    ps = sorted(set(points), key=key)
    if len(ps) < 3:
        return ps
    def chain(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and orient(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out
    lo, up = chain(ps), chain(reversed(ps))
    return lo[:-1] + up[:-1]


def star(rng, n, k, cx=0, cy=0):
    """star-shaped ring around (cx, cy) on an integer lattice"""
    for _ in range(50):
        c = pt(cx, cy)
        dirs = {}
        for _ in range(k):
            x, y = rng.randint(-n, n), rng.randint(-n, n)
            if x == y == 0:
                continue
            g = gcd(x, y)
            dirs[x // g, y // g] = (x, y)
        vs = [pt(cx + x, cy + y) for x, y in dirs.values()]
        vs = sort_around(c, vs)
        r = drop_collinear(vs)
        if len(r) >= 3 and plane.contour_defects(r) is None \
                and ring_area2(r) > 0:
            return r
    return [pt(cx - n, cy - n), pt(cx + n, cy - n), pt(cx, cy + n)]


def sort_around(c, vs):
    from functools import cmp_to_key
    return sorted(vs, key=cmp_to_key(
        lambda a, b: 0 if a == b else (-1 if ang_lt(c, a, b) else 1)))


def simple_ring(rng, n, k):
    """random simple ring: random points untangled by 2-opt on crossings"""
    for _ in range(30):
        vs = list({rnd_pt(rng, n) for _ in range(k)})
        vs.sort(key=key)
        rng.shuffle(vs)
        if len(vs) < 3:
            continue
        for _ in range(200):
            m = len(vs)
            done = True
            for i in range(m):
                for j in range(i + 2, m):
                    if i == 0 and j == m - 1:
                        continue
                    a, b = vs[i], vs[(i + 1) % m]
                    c, d = vs[j], vs[(j + 1) % m]
                    if plane.seg_inter(sorted_seg(a, b),
                                       sorted_seg(c, d)) is not None:
                        vs[i + 1:j + 1] = vs[i + 1:j + 1][::-1]
                        done = False
                        break
                if not done:
                    break
            if done:
                break
        r = drop_collinear(vs)
        if len(r) >= 3 and plane.contour_defects(r) is None:
            return r if ring_area2(r) > 0 else r[::-1]
    return [pt(-n, -n), pt(n, -n), pt(0, n)]


def rect(x0, y0, x1, y1):
    return [pt(x0, y0), pt(x1, y0), pt(x1, y1), pt(x0, y1)]


def comb(rng, teeth, n):
    """zigzag polygon: flat base, tall teeth"""
    vs = [pt(0, 0), pt(2 * teeth, 0)]
    top = []
    for i in range(2 * teeth, -1, -1):
        top.append((i, rng.randint(1, n) if i % 2 else rng.randint(n + 1,
                                                                   2 * n)))
    vs += [pt(x, y) for x, y in top]
    r = drop_collinear(vs)
    return r


def monotone(rng, k, n):
    """x-monotone polygon from two chains"""
    xs = sorted(rng.sample(range(4 * k), k + 2))
    lo = [pt(x, -rng.randint(1, n)) for x in xs[1:-1]]
    up = [pt(x, rng.randint(1, n)) for x in xs[1:-1] if rng.random() < 0.8]
    a = pt(xs[0], rng.randint(-n, n))
    b = pt(xs[-1], rng.randint(-n, n))
    r = drop_collinear([a, *lo, b, *reversed(up)])
    if len(r) < 3 or plane.contour_defects(r) or ring_area2(r) <= 0:
        return rect(0, 0, 3, 2)
    return r


def nested(rng, depth, polys=True):
    """concentric squares/diamonds: annuli in annuli"""
    out = []
    ring_sizes = sorted(rng.sample(range(1, 4 * depth + 1), 2 * depth),
                        reverse=True)
    def mk(s):
        if rng.random() < 0.5:
            return rect(-s, -s, s, s)
        # diamond of radius s inscribed below next square
        return [pt(s, 0), pt(0, s), pt(-s, 0), pt(0, -s)]
    rings = [mk(s) for s in ring_sizes]
    # keep only chains that are truly nested without crossing
    good = [rings[0]]
    for r in rings[1:]:
        if plane.shaped_defects(plane.poly(good[-1], [r])) is None:
            good.append(r)
    polys_ = []
    i = 0
    while i < len(good):
        if i + 1 < len(good) and rng.random() < 0.8:
            polys_.append((good[i], [good[i + 1]]))
            i += 2
        else:
            polys_.append((good[i], []))
            break
    g = plane.poly(*polys_[0]) if len(polys_) == 1 else plane.mpoly(polys_)
    if plane.defects(g) is None:
        return g
    return plane.poly(good[0])


# ------------------------------------------------------------- shaped

def shaped(rng, size=3):
    k = rng.randrange(10)
    if k < 4:
        w, h = rng.randint(1, size), rng.randint(1, size)
        for _ in range(20):
            g = Grid(rng, w, h, rng.randint(-1, 1), rng.randint(-1, 1),
                     rng.choice([1, 1, 2]), rng.random() < 0.3).region()
            if g.kind != 'empty':
                return g
        return plane.poly(rect(0, 0, 2, 2))
    if k == 4:
        return plane.poly(star(rng, rng.choice([2, 3, 5, 9]),
                               rng.randint(3, 3 + 3 * size)))
    if k == 5:
        return plane.poly(simple_ring(rng, rng.choice([2, 3, 4, 8]),
                                      rng.randint(3, 4 + 2 * size)))
    if k == 6:
        return plane.poly(comb(rng, rng.randint(1, size + 1),
                               rng.randint(1, 4)))
    if k == 7:
        return nested(rng, rng.randint(1, 3))
    if k == 8:
        return plane.poly(monotone(rng, rng.randint(2, 3 + size),
                                   rng.randint(1, 5)))
    return with_holes(rng, size)


def with_holes(rng, size=3):
    n = rng.choice([3, 4, 6])
    b = rect(-n, -n, n, n) if rng.random() < 0.5 else star(
        rng, n, 4 + 2 * size)
    holes = []
    for _ in range(rng.randint(1, size)):
        m = rng.choice([1, 1, 2])
        h = star(rng, m, rng.randint(3, 6), rng.randint(-n + 1, n - 1),
                 rng.randint(-n + 1, n - 1))
        if plane.shaped_defects(plane.poly(b, [*holes, h])) is None \
                and connected(plane.poly(b, [*holes, h])):
            holes.append(h)
    return plane.poly(b, holes)


def connected(g):
    """the interior of a polygon is connected: hole/border touch graph is a
    forest (every touching point joins rings without making a cycle)"""
    for border, holes in g.polys:
        rings = [border, *holes]
        parent = list(range(len(rings)))

        def find(i):
            while parent[i] != i:
                i = parent[i]
            return i
        touch = {}
        for i in range(len(rings)):
            for j in range(i):
                for s in plane.ring_edges(rings[i]):
                    for t in plane.ring_edges(rings[j]):
                        r = plane.seg_inter(sorted_seg(*s), sorted_seg(*t))
                        if r is not None:
                            touch.setdefault(r[1], set()).update((i, j))
        for p, rs in touch.items():
            rs = sorted(rs)
            # bipartite graph point-ring; a cycle disconnects
            roots = {find(r) for r in rs}
            if len(roots) != len(rs):
                return False
            for r in rs[1:]:
                parent[find(r)] = find(rs[0])
    return True


# ------------------------------------------------------------- linear

def crosses(s, t):
    r = plane.seg_inter(s, t)
    return r is not None and (
        r[0] == 'overlap' or (r[1] not in s and r[1] not in t))


def merge_runs(rng, edges, p=0.5):
    """join some collinear adjacent edges, keeping the set non-overlapping"""
    edges = list(edges)
    changed = True
    while changed:
        changed = False
        for i in range(len(edges)):
            for j in range(i):
                a, b = edges[i], edges[j]
                if a[0] == b[1]:
                    a, b = b, a
                if a[1] == b[0] and orient(a[0], a[1], b[1]) == 0 \
                        and rng.random() < p:
                    new = (a[0], b[1])
                    if any(crosses(new, e) for k, e in enumerate(edges)
                           if k not in (i, j)):
                        continue
                    edges = [e for k, e in enumerate(edges)
                             if k not in (i, j)] + [new]
                    changed = True
                    break
            if changed:
                break
    return edges


def multiseg(segs):
    segs = list(segs)
    if not segs:
        return plane.empty()
    if len(segs) == 1:
        return plane.seg(*segs[0])
    return plane.mseg(segs)


def valid_subset(rng, segs, limit):
    """greedy valid multisegment out of candidate segments"""
    out = []
    for s in segs:
        s = sorted_seg(*s)
        if s[0] == s[1]:
            continue
        ok = True
        for t in out:
            r = plane.seg_inter(s, t)
            if r is None:
                continue
            if r[0] == 'overlap' or (r[1] not in s and r[1] not in t):
                ok = False
                break
        if ok:
            out.append(s)
            if len(out) >= limit:
                break
    return out


def linear(rng, size=3, ref=None):
    """segment / multisegment / contour; ref: shaped or linear geometry to be
    related to (shares its vertices and edges)"""
    k = rng.randrange(9 if ref is None else 16)
    if k == 0:
        while True:
            n = rng.choice([1, 2, 4, 9])
            a, b = rnd_pt(rng, n), rnd_pt(rng, n)
            if a != b:
                return plane.seg(a, b)
    if k in (1, 2):
        g = Grid(rng, rng.randint(1, size), rng.randint(1, size),
                 rng.randint(-1, 1), rng.randint(-1, 1), rng.choice([1, 2]))
        es = [e for e in g.edges() if rng.random() < rng.choice([0.3, 0.7])]
        es = merge_runs(rng, es[:40], rng.choice([0, 0.5, 1]))
        if es:
            return multiseg(es)
        k = 4
    if k == 3:
        s = shaped(rng, size)
        ring = rng.choice(list(s.rings()))
        return plane.contour(ring)
    if k in (4, 5):
        n = rng.choice([2, 3, 5])
        cand = [(rnd_pt(rng, n), rnd_pt(rng, n)) for _ in range(4 * size + 4)]
        segs = valid_subset(rng, cand, rng.randint(2, 2 * size + 2))
        if segs:
            return multiseg(segs)
        return plane.seg(pt(0, 0), pt(1, 1))
    if k == 6:
        # crossing segments cut at their crossings (T and X nodes)
        n = rng.choice([2, 3, 4])
        cand = [(rnd_pt(rng, n), rnd_pt(rng, n))
                for _ in range(rng.randint(2, size + 2))]
        cand = [c for c in cand if c[0] != c[1]]
        if cand:
            arr = plane.Arrangement([plane.mseg(cand)])
            es = [e for e in arr.edges if rng.random() < 0.85]
            if es:
                es = merge_runs(rng, es, rng.choice([0, 0.3]))
                es = valid_subset(rng, es, 60)
                return multiseg(es)
        return plane.seg(pt(0, 0), pt(1, 1))
    if k == 7:
        return plane.contour(star(rng, rng.choice([2, 3, 6]),
                                  rng.randint(3, 3 + 2 * size)))
    if k == 8:
        # fan: rays out of one point, some collinear in pairs
        n = rng.choice([2, 3])
        c = rnd_pt(rng, 1)
        vs = set()
        for _ in range(rng.randint(2, 2 + size)):
            o = rnd_pt(rng, n)
            if o != c:
                vs.add(o)
        segs = valid_subset(rng, sorted(((c, o) for o in vs),
                                        key=lambda e: key(e[1])), 20)
        rng.shuffle(segs)
        return multiseg(segs) if segs else plane.seg(c, pt(9, 9))
    return linear_from(rng, ref, size)


def linear_from(rng, ref, size=3):
    es = [sorted_seg(*e) for e in ref.edges()]
    pts = ref.points()
    k = rng.randrange(7)
    if not es:
        return linear(rng, size)
    if k == 0:
        sub = [e for e in es if rng.random() < 0.5] or [rng.choice(es)]
        return multiseg(sub)
    if k == 1:
        # pieces of edges at rational parameters; overlaps of every kind
        out = []
        for e in es:
            if rng.random() < 0.5:
                out.append(subsegment(rng, e))
        out = valid_subset(rng, out, 30)
        return multiseg(out) if out else plane.seg(*es[0])
    if k == 2:
        a, b = rng.choice(pts), rng.choice(pts)
        if a != b:
            return plane.seg(a, b)
        return plane.seg(*rng.choice(es))
    if k == 3:
        cand = []
        for _ in range(4 * size):
            a, b = rng.choice(pts), rng.choice(pts)
            if rng.random() < 0.3:
                b = plane.mid(a, b)
            if rng.random() < 0.3:
                a = rnd_pt(rng, 4)
            if a != b:
                cand.append((a, b))
        cand = valid_subset(rng, cand, rng.randint(2, 3 * size))
        return multiseg(cand) if cand else plane.seg(*es[0])
    if k == 4:
        if ref.dim == 2:
            return plane.contour(rng.choice(list(ref.rings())))
        return multiseg(valid_subset(rng, es, 50))
    if k == 5:
        # whole edge set, each edge perhaps split in two
        out = []
        for e in es:
            if rng.random() < 0.4:
                m = plane.mid(*e)
                out += [(e[0], m), (m, e[1])]
            else:
                out.append(e)
        rng.shuffle(out)
        return multiseg(valid_subset(rng, out, 60))
    e = subsegment(rng, rng.choice(es))
    return plane.seg(*e)


def lerp(a, b, t):
    ax, ay = plane.xy(a)
    bx, by = plane.xy(b)
    return pt(ax + (bx - ax) * t, ay + (by - ay) * t)


def subsegment(rng, e):
    ts = [Fraction(-1), Fraction(-1, 2), Fraction(0), Fraction(1, 3),
          Fraction(1, 2), Fraction(2, 3), Fraction(1), Fraction(3, 2),
          Fraction(2)]
    while True:
        s, t = rng.choice(ts), rng.choice(ts)
        if s != t:
            return sorted_seg(lerp(*e, s), lerp(*e, t))


# --------------------------------------------------------- transformations

class Affine:
    def __init__(self, a, b, c, d, e, f):
        self.m = tuple(map(Fraction, (a, b, c, d, e, f)))

    def __call__(self, p):
        x, y = plane.xy(p)
        a, b, c, d, e, f = self.m
        return pt(a * x + b * y + e, c * x + d * y + f)

    @property
    def det(self):
        a, b, c, d, _, _ = self.m
        return a * d - b * c


def map_geo(g, f):
    return Geo(g.kind, [(f(a), f(b)) for a, b in g.segs],
               [([f(p) for p in b], [[f(p) for p in h] for h in hs])
                for b, hs in g.polys], [f(p) for p in g.verts])


def affine(rng):
    k = rng.randrange(12)
    if k < 3:
        return Affine(1, 0, 0, 1, 0, 0)
    if k == 3:
        # all of it in one quadrant or half plane
        far = rng.choice([30, 200, Fraction(400, 3)])
        return Affine(1, 0, 0, 1, *rng.choice([
            (-far, -far), (far, far), (-far, far), (-far, 0), (0, -far)]))
    if k == 4:
        return Affine(0, 1, 1, 0, 0, 0)
    if k == 5:
        return Affine(rng.choice([1, -1]), 0, 0, rng.choice([1, -1]),
                      rng.randint(-3, 3), rng.randint(-3, 3))
    if k == 6:
        return Affine(1, rng.randint(-3, 3), 0, 1, 0, 0)
    if k == 7:
        return Affine(1, 0, rng.randint(-3, 3), 1, 0, 0)
    if k == 8:
        if rng.random() < 0.25:
            # beyond what floating point numbers can represent
            s = Fraction(10) ** rng.choice([330, -330])
            return Affine(s, 0, 0, s, 0, 0)
        s = Fraction(rng.choice([1, 3, 7, 10 ** 9 + 7]),
                     rng.choice([1, 2, 3, 998244353]))
        return Affine(s, 0, 0, s, Fraction(rng.randint(-5, 5), 7),
                      Fraction(rng.randint(-5, 5), 11))
    if k == 9:
        return Affine(3, -4, 4, 3, rng.randint(-9, 9), rng.randint(-9, 9))
    if k == 10:
        return Affine(1, 0, 0, 1, 10 ** rng.choice([6, 17, 40, 330]),
                      -10 ** rng.choice([6, 17, 40, 330]))
    while True:
        m = [rng.randint(-3, 3) for _ in range(4)]
        if m[0] * m[3] - m[1] * m[2]:
            return Affine(*m, rng.randint(-2, 2), rng.randint(-2, 2))


def rewrite(rng, g):
    """a random other representation of the same geometry: rings rotated and
    reversed, components reordered, segments flipped"""
    def ring(r):
        i = rng.randrange(len(r))
        r = r[i:] + r[:i]
        return r[::-1] if rng.random() < 0.5 else r
    if g.kind == 'empty':
        return g
    if g.kind == 'contour':
        return plane.contour(ring(g.verts))
    if g.dim == 1:
        ss = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in g.segs]
        rng.shuffle(ss)
        return Geo(g.kind, ss)
    polys = []
    for b, hs in g.polys:
        hs = [ring(h) for h in hs]
        rng.shuffle(hs)
        polys.append((ring(b), hs))
    rng.shuffle(polys)
    return Geo(g.kind, polys=polys)


# ------------------------------------------------------------------- pairs

def derived_shape(rng, a, size=3):
    """a shaped geometry built out of another one"""
    k = rng.randrange(9)
    pts = a.points()
    if k == 0:
        return a
    if k == 1:
        # translate by a difference of two of its points
        p, q = plane.xy(rng.choice(pts)), plane.xy(rng.choice(pts))
        return map_geo(a, Affine(1, 0, 0, 1, q[0] - p[0], q[1] - p[1]))
    if k == 2:
        c = plane.xy(rng.choice(pts))
        s = rng.choice([Fraction(1, 2), Fraction(2), Fraction(-1),
                        Fraction(1, 3)])
        return map_geo(a, Affine(s, 0, 0, s, c[0] * (1 - s), c[1] * (1 - s)))
    if k == 3:
        h = hull(pts)
        return plane.poly(h)
    if k == 4:
        xs = [plane.xy(p)[0] for p in pts]
        ys = [plane.xy(p)[1] for p in pts]
        return plane.poly([pt(min(xs), min(ys)), pt(max(xs), min(ys)),
                           pt(max(xs), max(ys)), pt(min(xs), max(ys))])
    if k == 5:
        # a component or a filled hole
        parts = [plane.poly(b, h) for b, h in a.polys]
        parts += [plane.poly(b) for b, h in a.polys]
        parts += [plane.poly(h) for _, hs in a.polys for h in hs]
        return rng.choice(parts)
    if k == 6:
        # triangle on three of its points
        for _ in range(20):
            t = [rng.choice(pts) for _ in range(3)]
            if orient(*t):
                return plane.poly(t)
        return plane.poly(hull(pts))
    if k == 7:
        # some polygons / with some holes dropped
        polys = [(b, [h for h in hs if rng.random() < 0.5])
                 for b, hs in a.polys if rng.random() < 0.7]
        if not polys:
            polys = [(a.polys[0][0], [])]
        if len(polys) > 1:
            g = plane.mpoly(polys)
            # dropping a hole may cover another polygon
            if plane.defects(g) is None:
                return g
            polys = polys[:1]
        return plane.poly(*polys[0])
    # mirror about one vertical/horizontal line through a vertex
    c = plane.xy(rng.choice(pts))
    if rng.random() < 0.5:
        return map_geo(a, Affine(-1, 0, 0, 1, 2 * c[0], 0))
    return map_geo(a, Affine(1, 0, 0, -1, 0, 2 * c[1]))


def shaped_pair(rng, size=3):
    k = rng.randrange(10)
    if k < 3:
        # same grid world: every boundary coincidence
        w, h = rng.randint(1, size + 1), rng.randint(1, size + 1)
        for _ in range(20):
            gr = Grid(rng, w, h, 0, 0, 1, rng.random() < 0.3)
            a, b = gr.region(), gr.region()
            if a.kind != 'empty' and b.kind != 'empty':
                return a, b
    if k == 3:
        # two differently cut grids on the same cells
        w, h = rng.randint(1, size), rng.randint(1, size)
        for _ in range(20):
            a = Grid(rng, w, h).region()
            b = Grid(rng, w, h, rng.randint(0, 1), rng.randint(0, 1)).region()
            if a.kind != 'empty' and b.kind != 'empty':
                return a, b
    if k < 7:
        a = shaped(rng, size)
        return a, derived_shape(rng, a, size)
    return shaped(rng, size), shaped(rng, size)


def linear_pair(rng, size=3):
    a = linear(rng, size)
    k = rng.randrange(4)
    if k == 0:
        return a, linear(rng, size)
    if k == 1:
        s = shaped(rng, size)
        return linear_from(rng, s, size), linear_from(rng, s, size)
    return a, linear(rng, size, a) if k == 2 else linear_from(rng, a, size)


def mixed_pair(rng, size=3):
    s = shaped(rng, size)
    if rng.random() < 0.25:
        return linear(rng, size), s
    return linear(rng, size, s), s


def map_points(g, f):
    """geometry with moved points, None if that is not a valid one"""
    def ring(r):
        return [f(p) for p in r]
    if g.kind == 'segment':
        h = plane.seg(*ring(g.segs[0]))
    elif g.kind == 'multisegment':
        h = plane.mseg([tuple(ring(s)) for s in g.segs])
    elif g.kind == 'contour':
        h = plane.contour(ring(g.verts))
    elif g.kind == 'polygon':
        b, hs = g.polys[0]
        h = plane.poly(ring(b), [ring(r) for r in hs])
    elif g.kind == 'multipolygon':
        h = plane.mpoly([(ring(b), [ring(r) for r in hs])
                         for b, hs in g.polys])
    else:
        return g
    return h if plane.defects(h) is None else None


def nudge(rng, *geos):
    """some points moved by next to nothing, in one geometry or wherever they
    occur; geometries which would not stay valid stay as they are"""
    d = Fraction(1, 10 ** rng.choice([3, 9, 17, 25]))
    share = rng.choice([0.15, 0.5, 1])
    common = rng.random() < 0.2
    moved = {}
    one = rng.choice([-d, d]), rng.choice([-d, 0, d])

    def f(p):
        if p not in moved:
            q = p
            if rng.random() < share:
                x, y = plane.xy(p)
                dx, dy = one if share == 1 else (
                    rng.choice([-d, 0, d]), rng.choice([-d, 0, d]))
                q = pt(x + dx, y + dy)
            moved[p] = q
        return moved[p]
    out = list(geos)
    for i in range(len(out)) if common else [rng.randrange(len(out))]:
        out[i] = map_points(out[i], f) or out[i]
    return out


KINDS = {1: ('segment', 'multisegment', 'contour'),
         2: ('polygon', 'multipolygon')}


def of_kind(rng, g, kind, other):
    """a geometry of the kind made of pieces of g, None if there is none"""
    if g.kind == kind:
        return g
    other = other or g
    if kind in KINDS[2]:
        if g.dim == 1:
            rings = [g.verts] if g.kind == 'contour' else []
            parts = [plane.poly(r) for r in rings]
        else:
            parts = components(g)
        if not parts:
            return None
        if kind == 'polygon':
            b, hs = rng.choice(parts).polys[0]
            return plane.poly(b, hs if rng.random() < 0.8 else [])
        box = box_of(g)
        # islands in holes and components next to it
        for h in [h for p in parts for h in p.polys[0][1]]:
            if rng.random() < 0.7:
                q = [plane.xy(v) for v in h]
                c = rng.choice([q[0], [sum(t) / len(q) for t in zip(*q)]])
                f = Fraction(1, rng.choice([2, 3]))
                parts.append(map_geo(plane.poly(h), Affine(
                    f, 0, 0, f, c[0] * (1 - f), c[1] * (1 - f))))
        while len(parts) < 2 or rng.random() < 0.5:
            parts.append(beyond(rng, small(rng, 2), box))
        r = union_all(parts)
        return r if r.kind == kind else None
    es = [sorted_seg(*e) for e in g.edges()]
    if kind == 'segment':
        e = rng.choice(es)
        k = rng.random()
        if k < 0.3:
            e = subsegment(rng, e)
        elif k < 0.5:
            e = tuple(rng.choice(list((g if rng.random() < 0.5 else
                                       other).points())) for _ in range(2))
        return plane.seg(*e) if e[0] != e[1] else None
    if kind == 'multisegment':
        rng.shuffle(es)
        if rng.random() < 0.4:
            es = es[:rng.randint(2, max(2, len(es)))]
        if rng.random() < 0.4 or len(es) < 2:
            es = [h for a, b in es for m in [plane.mid(a, b)]
                  for h in (((a, m), (m, b)) if rng.random() < 0.6
                            or len(es) < 2 else ((a, b),))]
        es = valid_subset(rng, es, 60)
        return plane.mseg(es) if len(es) > 1 else None
    if g.dim == 2:
        return plane.contour(rng.choice(list(g.rings())))
    pts = list(g.points()) + list(other.points())
    k = rng.randint(3, 6)
    ring = hull([rng.choice(pts) for _ in range(k)])
    if rng.random() < 0.6:
        # a side of it on an edge
        ring = hull([*rng.choice(es), *(rng.choice(pts) for _ in range(k - 2))])
    return plane.contour(ring) if len(ring) > 2 else None


def segment_pair(rng):
    """two segments in every position to each other"""
    while True:
        if rng.random() < 0.6:
            # on one line
            n = rng.choice([2, 3, 5, 9])
            f = affine(rng)
            p = [f(pt(rng.randint(0, n), 0)) for _ in range(4)]
        else:
            n = rng.choice([1, 2, 4])
            p = [rnd_pt(rng, n) for _ in range(4)]
        if p[0] != p[1] and p[2] != p[3]:
            return plane.seg(p[0], p[1]), plane.seg(p[2], p[3])


def row(rng, kind, levels):
    """a geometry of the kind with pieces of the line y = 0 and with spurs or
    steps off it, None if that failed"""
    n = len(levels) - 1
    if kind == 'segment':
        i, j = sorted(rng.sample(range(-1, n + 2), 2))
        if rng.random() < 0.3:
            i, j = 0, n
        return plane.seg(pt(i, 0), pt(j, 0))
    if kind == 'multisegment':
        k = rng.choice([1, 2])
        cuts = [Fraction(i, k) for i in range(k * n + 1)
                if rng.random() < rng.choice([0.5, 1])]
        keep = rng.choice([0, 0.3, 0.8, 1, 1])
        es = [(pt(i, 0), pt(j, 0)) for i, j in zip(cuts, cuts[1:])
              if rng.random() < keep]
        spur, cross, step = rng.choice([
            (0.3, 0, 0), (0.6, 0, 0), (0.2, 0.1, 0.15), (0, 0, 0)
        ][:4 if keep else 2])
        side = rng.choice([[1], [-1], [1, -1], [1, -1]])
        for i in range(n + 1):
            for _ in range(2):
                if rng.random() < spur:
                    es.append((pt(i, 0),
                               pt(i + Fraction(rng.randint(-2, 2), 2),
                                  rng.choice(side))))
            if rng.random() < cross:
                d = Fraction(rng.randint(-2, 2), 2)
                es.append((pt(i - d, -1), pt(i + d, 1)))
            if i < n and rng.random() < step:
                es.append((pt(i, levels[i]), pt(i + 1, levels[i + 1])))
        rng.shuffle(es)
        es = valid_subset(rng, es, 60)
        return plane.mseg(es) if len(es) > 1 else None
    cols = [(0, n)]
    if kind == 'multipolygon':
        if n < 3:
            return None
        j = rng.randint(1, n - 2)
        cols = [(0, j), (j + 1, n)]
        if n - j > 3 and rng.random() < 0.3:
            cols[1:] = [(j + 1, j + 2), (j + 3, n)]
    rings = []
    for i, j in cols:
        far = rng.choice([-2, 2, -9, 9])
        ring = drop_collinear([pt(i, far), *(pt(k, levels[k])
                                             for k in range(i, j + 1)),
                               pt(j, far)])
        if len(ring) < 3:
            return None
        rings.append(ring)
    if kind == 'contour':
        return plane.contour(rings[0])
    if kind == 'polygon':
        return plane.poly(rings[0])
    return plane.mpoly([(r, []) for r in rings])


def row_holes(rng):
    """a polygon whose border and holes have vertices on common lines"""
    n = rng.choice([2, 3, 4, 6, 9])
    far = rng.choice([-6, -5, -9])
    ring = drop_collinear([pt(0, far), *(pt(k, rng.choice([0, 0, 0, 1, -1]))
                                         for k in range(n + 1)), pt(n, far)])
    holes, y = [], rng.choice([-2, -3])
    for k in range(n):
        if rng.random() < 0.3:
            continue
        l, r = pt(k, y), pt(k + 1, y)
        if k == 0 or rng.random() < 0.3:
            l = pt(k + Fraction(1, 4), y)
        if k == n - 1 or rng.random() < 0.3:
            r = pt(k + Fraction(3, 4), y)
        m = Fraction(2 * k + 1, 2)
        holes.append(rng.choice([
            [l, r, pt(m, y - 1)], [l, r, pt(m, y + Fraction(1, 2))],
            [l, pt(m, y - 1), r, pt(m, y + Fraction(1, 2))]]))
        if rng.random() < 0.3:
            holes.append([pt(m, y - 1), pt(m - Fraction(1, 4), y - 2),
                          pt(m + Fraction(1, 4), y - 2)])
    g = plane.poly(ring, holes)
    return plane.poly(ring) if plane.defects(g) else g


def row_pair(rng, ka, kb):
    """operands with much of their edges on one line"""
    n = rng.choice([1, 2, 3, 3, 5, 5, 8, 12])
    some = rng.choice([[0, 0, 0, 1, -1], [0, 0, 0, 0, 1], [0, 0, 1]])
    xs = [rng.choice(some) for _ in range(n + 1)]
    ys = [rng.choice(some) if rng.random() < rng.choice([0.1, 0.3, 1]) else x
          for x in xs]
    return row(rng, ka, xs), row(rng, kb, ys)


def cells_pair(rng, ka, kb):
    """components in the cells of a coarse board: the operands occupy mostly
    different cells, so that the boxes of all, of some or of none of the
    components reach the box of the other operand; None if that failed"""
    n, m = rng.choice([(3, 3), (4, 1), (1, 4), (5, 1), (2, 3), (4, 4)])
    cells = [(i, j) for i in range(n) for j in range(m)]
    rng.shuffle(cells)
    gap = rng.choice([0, 0, Fraction(1, 2)])
    out, used = [], 0
    for kind in (ka, kb):
        k = (1 if kind in ('segment', 'contour', 'polygon')
             else min(rng.choice([2, 2, 3, 4]), n * m // 2))
        mine = cells[used:used + k]
        used += k
        if len(out) == 1 and rng.random() < 0.35:
            # one cell of the other operand as well
            mine[rng.randrange(len(mine))] = cells[0]
        parts = []
        for i, j in mine:
            def at(x, y):
                return pt((1 + gap) * i + Fraction(x, 2),
                          (1 + gap) * j + Fraction(y, 2))
            c = rng.randrange(4)
            corners = [at(0, 0), at(2, 0), at(2, 2), at(0, 2)]
            if kind in ('segment', 'multisegment') and c < 3:
                es = [(corners[t], corners[(t + 1) % 4]) for t in range(4)]
                es += [(corners[0], corners[2]), (corners[1], corners[3]),
                       (at(1, 0), at(2, 1)), (at(0, 1), at(2, 1))]
                parts.append(plane.seg(*rng.choice(es)))
                continue
            if c == 0:
                ring = corners
            elif c == 1:
                ring = [at(1, 0), at(2, 1), at(1, 2), at(0, 1)]
            else:
                t = rng.randrange(4)
                ring = [corners[t], corners[(t + 1) % 4],
                        corners[(t + 2) % 4]]
            if kind in KINDS[1]:
                parts += [plane.seg(*e) for e in zip(ring, ring[1:] + ring)]
            else:
                parts.append(plane.poly(ring))
        if kind == 'contour':
            out.append(plane.contour([e.segs[0][0] for e in parts]))
            continue
        if kind == 'segment':
            out.append(rng.choice(parts))
            continue
        g = union_all(parts) if parts else None
        out.append(g if g is not None and g.kind == kind else None)
    return tuple(out)


def inner(rng, g, kind):
    """a geometry made of reduced copies of the components of g, mostly in
    the interior of g"""
    parts = []
    for c in components(g):
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            ring = c.polys[0][0]
            i = rng.randrange(len(ring))
            q = [plane.xy(ring[j % len(ring)]) for j in (i - 1, i, i + 1)]
            w = rng.choice([(1, 2, 1), (1, 1, 1), (1, 10, 2)])
            o = [sum(k * t for k, t in zip(w, ts)) / sum(w)
                 for ts in zip(*q)]
            f = Fraction(1, rng.choice([2, 5, 20, 100]))
            parts.append(map_geo(
                plane.poly(ring, c.polys[0][1] if rng.random() < 0.3 else []),
                Affine(f, 0, 0, f, o[0] * (1 - f), o[1] * (1 - f))))
    if not parts:
        return None
    g = union_all(parts)
    return of_kind(rng, g, kind, g)


def kinded_pair(rng, ka, kb, size):
    """operands of the wanted kinds, mostly pieces of related geometries"""
    if ka == kb == 'segment' and rng.random() < 0.7:
        return segment_pair(rng)
    while True:
        a, b = _kinded_pair(rng, ka, kb, size)
        if a is not None and b is not None and not (
                plane.defects(a) or plane.defects(b)):
            return a, b


def _kinded_pair(rng, ka, kb, size):
    if rng.random() < (0.5 if {ka, kb} == {'segment', 'multisegment'}
                       else 0.15):
        return row_pair(rng, ka, kb)
    if rng.random() < 0.15:
        return cells_pair(rng, ka, kb)
    if 'polygon' in ka and rng.random() < 0.15:
        a = of_kind(rng, shaped(rng, size), ka, None)
        return a, a and inner(rng, a, kb)
    if 'polygon' in kb and rng.random() < 0.15:
        b = of_kind(rng, shaped(rng, size), kb, None)
        return b and inner(rng, b, ka), b
    k = rng.random()
    if k < 0.6 or 'polygon' in ka + kb:
        a, b = shaped_pair(rng, size)
    else:
        a, b = linear_pair(rng, size)
    if rng.random() < 0.25:
        b = a
    a, b = of_kind(rng, a, ka, b), of_kind(rng, b, kb, a)
    if a is b is not None and 'multi' in ka and rng.random() < 0.6:
        # some of the components
        cs = components(a)
        b = union_all(rng.sample(cs, rng.randint(1, len(cs))))
        b = of_kind(rng, b, kb, a)
        if rng.random() < 0.5:
            a, b = b, a
    return a, b


def tiny_pair(rng, ka, kb):
    """a few edges in each operand: cheap to judge, so made by the dozen"""
    if ka == kb == 'segment' and rng.random() < 0.8:
        return finish(rng, *segment_pair(rng))
    while True:
        k = rng.random()
        a, b = (row_pair(rng, ka, kb) if k < 0.35 else
                cells_pair(rng, ka, kb) if k < 0.65 else
                _kinded_pair(rng, ka, kb, 1))
        if a is not None and b is not None and (
                len(a.edges()) + len(b.edges()) < 30) and not (
                plane.defects(a) or plane.defects(b)):
            return finish(rng, a, b)


def finish(rng, *geos):
    """common affine map and independent rewriting"""
    f = affine(rng)
    if rng.random() < 0.06:
        geos = nudge(rng, *geos)
    return [rewrite(rng, map_geo(g, f)) for g in geos]


# ---------------------------------------------- spread-out and fan geometries

def shift(g, dx, dy):
    return map_geo(g, Affine(1, 0, 0, 1, dx, dy))


def union_all(parts):
    """one geometry out of several disjoint ones of the same dimension (parts
    which do not fit the ones before are dropped)"""
    out = None
    for g in parts:
        if g.kind == 'empty':
            continue
        if g.dim == 1:
            segs = list(g.segs) if g.segs else [
                sorted_seg(*e) for e in g.edges()]
            cand = (out or []) + segs
            if plane.multisegment_defects(cand) is None:
                out = cand
        else:
            cand = (out or []) + list(g.polys)
            if len(cand) == 1 or plane.defects(plane.mpoly(cand)) is None:
                out = cand
    first = next(g for g in parts if g.kind != 'empty')
    if first.dim == 1:
        return multiseg(out)
    return plane.poly(*out[0]) if len(out) == 1 else plane.mpoly(out)


def offsets(rng, k):
    w = rng.choice([2, 3, 4, 6])
    cells = [(i * w, j * w) for i in range(-1, 3) for j in range(-1, 3)]
    if rng.random() < 0.4:
        cells = [(i * w, rng.randint(-1, 1)) for i in range(-2, 4)]
    return rng.sample(cells, k)


def small(rng, dim):
    if dim == 2:
        k = rng.randrange(4)
        if k == 0:
            return plane.poly(star(rng, 2, rng.randint(3, 5)))
        if k == 1:
            return plane.poly(rect(0, 0, rng.randint(1, 3), rng.randint(1, 3)))
        if k == 2:
            return plane.poly(rect(-2, -2, 2, 2), [rect(-1, -1, 1, 1)])
        return shaped(rng, 1)
    k = rng.randrange(3)
    if k == 0:
        while True:
            a, b = rnd_pt(rng, 2), rnd_pt(rng, 2)
            if a != b:
                return plane.seg(a, b)
    return linear(rng, 1)


def spread(rng, dim, like=None):
    k = rng.randint(2, 4)
    parts = []
    base = small(rng, dim)
    for dx, dy in offsets(rng, k):
        g = base if rng.random() < 0.5 else small(rng, dim)
        parts.append(shift(g, dx, dy))
    return union_all(parts)


def components(g):
    if g.kind in ('segment', 'contour', 'empty'):
        return [g]
    if g.dim == 1:
        return [plane.seg(*s) for s in g.segs]
    return [plane.poly(*p) for p in g.polys]


def spread_pair(rng):
    """operands of several far or near components, so that some lie outside
    the other's bounding box"""
    da, db = rng.choice([1, 2]), rng.choice([1, 2])
    a = spread(rng, da)
    k = rng.randrange(6)
    if k == 0:
        b = spread(rng, db)
    elif k == 1:
        b = shift(small(rng, db), *offsets(rng, 1)[0])
    elif k == 2:
        # some of the components, moved ones and others
        parts = [g for g in components(a) if rng.random() < 0.6]
        parts += [shift(g, *offsets(rng, 1)[0]) for g in components(a)
                  if rng.random() < 0.3]
        b = union_all(parts) if parts else small(rng, db)
    elif k == 3:
        b = linear(rng, 2, a)
    elif k == 4:
        if a.dim == 2:
            parts = [plane.poly(rng.choice([p[0], *p[1]])) for p in a.polys]
            b = union_all(parts[:rng.randint(1, len(parts))])
            if rng.random() < 0.5:
                b = plane.mseg([e for e in b.edges()])
        else:
            b = linear_from(rng, a)
    else:
        # edges of a through different components
        es = [sorted_seg(*e) for e in a.edges()]
        rng.shuffle(es)
        es = [subsegment(rng, e) if rng.random() < 0.4 else e for e in es]
        b = multiseg(valid_subset(rng, es, rng.randint(1, 5)))
    if rng.random() < 0.3:
        a = shift(a, *rng.choice([(1, 0), (0, 1), (1, 1), (-2, 1)]))
    return a, b


def box_of(g):
    xs, ys = zip(*map(plane.xy, g.points()))
    return min(xs), min(ys), max(xs), max(ys)


def beyond(rng, g, box):
    """g moved out of the box: clear of it, or up to its side or corner"""
    x0, y0, x1, y1 = box_of(g)
    gap = rng.choice([0, 0, Fraction(1, 3), 1, 2, 50])
    dx = rng.choice([box[0] - x1 - gap, box[2] - x0 + gap])
    dy = rng.choice([box[1] - y1 - gap, box[3] - y0 + gap])
    k = rng.randrange(3)
    if k == 0:
        dy = rng.choice([0, box[1] - y0, box[3] - y1])
    elif k == 1:
        dx = rng.choice([0, box[0] - x0, box[2] - x1])
    return shift(g, dx, dy)


def outlying(rng, a, b):
    """operands with components beyond what the other one occupies; often
    only one component is left near it"""
    out = [a, b]
    for i in rng.choice([(0,), (1,), (0, 1)]):
        g, o = out[i], out[1 - i]
        if 'empty' in (g.kind, o.kind):
            continue
        parts = components(g)
        if g.kind == 'contour':
            parts = [plane.seg(*e) for e in g.edges()]
        if rng.random() < 0.6:
            parts = rng.sample(parts, min(len(parts), rng.choice([1, 1, 2])))
        box = box_of(o)
        if rng.random() < 0.5:
            bx = box_of(g)
            box = (min(box[0], bx[0]), min(box[1], bx[1]),
                   max(box[2], bx[2]), max(box[3], bx[3]))
        for _ in range(rng.choice([1, 1, 2, 3])):
            far = (small(rng, g.dim) if rng.random() < 0.6
                   else rng.choice(components(o) if o.dim == g.dim else parts))
            if far.kind == 'contour':
                far = plane.seg(*far.edges()[0])
            parts.append(beyond(rng, far, box))
        out[i] = union_all(parts)
    return out


def fan(rng, c, n, rays, other=()):
    """segments with one end (or a point in the middle) at c"""
    out = []
    for _ in range(6 * rays):
        if len(out) >= rays:
            break
        o = rng.choice(list(other)) if other and rng.random() < 0.35 else \
            rnd_pt(rng, n)
        if o == c:
            continue
        if rng.random() < 0.2:
            x, y = plane.xy(o)
            cx, cy = plane.xy(c)
            s = (o, pt(2 * cx - x, 2 * cy - y))
        else:
            s = (c, o)
        s = sorted_seg(*s)
        if plane.multisegment_defects(out + [s]) is None:
            out.append(s)
    return out


def fan_pair(rng):
    """two bunches of rays around a common point: crossings, touches and
    overlaps decided by the cyclic order of many rays"""
    n = rng.choice([1, 2, 3])
    c = rnd_pt(rng, 1)
    a = fan(rng, c, n, rng.randint(1, 5))
    b = fan(rng, c, n, rng.randint(1, 5), [p for s in a for p in s])
    for x in (a, b):
        if rng.random() < 0.3:
            e = sorted_seg(rnd_pt(rng, n + 3), rnd_pt(rng, n + 3))
            if e[0] != e[1] and plane.multisegment_defects(x + [e]) is None:
                x.append(e)
    a, b = multiseg(a), multiseg(b)
    if rng.random() < 0.25:
        # a contour through the common point
        for _ in range(20):
            r = [c, rnd_pt(rng, n), rnd_pt(rng, n)]
            if rng.random() < 0.5:
                r.append(rnd_pt(rng, n))
            if plane.contour_defects(r) is None:
                b = plane.contour(r)
                break
    if rng.random() < 0.3:
        a, b = b, a
    return a, b


def chords(rng, s, n):
    """segments between vertices / edge midpoints of a shape"""
    pts = list(s.points())
    pts += [plane.mid(*e) for e in s.edges()]
    out = []
    for _ in range(4 * n):
        if len(out) >= n:
            break
        a, b = rng.choice(pts), rng.choice(pts)
        k = rng.randrange(4)
        if a == b:
            continue
        if k == 0:
            a, b = a, plane.mid(a, b)
        elif k == 1:
            (ax, ay), (bx, by) = plane.xy(a), plane.xy(b)
            b = pt(2 * bx - ax, 2 * by - ay)
        e = sorted_seg(a, b)
        if plane.multisegment_defects(out + [e]) is None:
            out.append(e)
    return out


def chord_pair(rng, size):
    s = shaped(rng, size)
    cs = chords(rng, s, rng.randint(1, 4))
    g = multiseg(cs) if cs else plane.seg(pt(0, 0), pt(1, 1))
    k = rng.randrange(4)
    if k == 0:
        return g, plane.contour(rng.choice(list(s.rings())))
    if k == 1:
        es = valid_subset(rng, [sorted_seg(*e) for e in s.edges()], 40)
        return g, multiseg(es)
    return g, s


def any_pair(rng, size=3):
    k = rng.randrange(10)
    if k < 2:
        a, b = shaped_pair(rng, size)
    elif k < 4:
        a, b = mixed_pair(rng, size)
    elif k < 6:
        a, b = linear_pair(rng, size)
    elif k < 8:
        a, b = spread_pair(rng)
    elif k == 8:
        a, b = fan_pair(rng)
    else:
        a, b = chord_pair(rng, size)
    if rng.random() < 0.4:
        a, b = b, a
    return finish(rng, a, b)


def any_geo(rng, size=3):
    k = rng.random() * 10
    if k < 0.5:
        g = None
        while g is None:
            g = rng.choice(row_pair(rng, *(rng.choice(KINDS[1] + KINDS[2])
                                           for _ in '12')))
    elif k < 4:
        g = linear(rng, size)
    elif k < 8:
        g = shaped(rng, size)
    else:
        g = spread(rng, rng.choice([1, 2]))
    return finish(rng, g)[0]


# ------------------------------------------------------------ larger inputs

def big_ring(rng, k):
    """a contour of about k vertices"""
    c = rng.randrange(4)
    if c == 0:
        return star(rng, rng.choice([20, 60]), k)
    if c == 1:
        return comb(rng, max(1, k // 4), rng.randint(2, 6))
    if c == 2:
        return monotone(rng, max(2, k // 2), rng.randint(3, 9))
    return zigzag(rng, k)


def zigzag(rng, k):
    """spiral-like staircase ring"""
    n = max(2, k // 4)
    up, down = [], []
    x = y = 0
    for i in range(n):
        up.append(pt(x, y))
        if rng.random() < 0.5:
            x += rng.randint(1, 3)
        else:
            y += rng.randint(1, 3)
        if rng.random() < 0.3:
            x += 1
            y += 1
    up.append(pt(x, y))
    down = [pt(plane.xy(p)[0] - 2, plane.xy(p)[1] + 2) for p in up]
    r = drop_collinear(up + down[::-1])
    if len(r) < 3 or plane.contour_defects(r):
        return star(rng, 20, k)
    return r


def big_shaped(rng, k=60):
    c = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    if c == 0:
        n = rng.randint(4, 8)
        for _ in range(10):
            g = Grid(rng, n, n, 0, 0, rng.choice([1, 2]),
                     rng.random() < 0.3).region()
            if g.kind != 'empty':
                return g
    m = 0 if k == 60 else 3
    if c == 1:
        # many components on a lattice
        n = rng.randint(2, 5) + m
        parts = []
        for i in range(n):
            for j in range(n):
                if rng.random() < 0.8:
                    parts.append(shift(small(rng, 2), 4 * i, 4 * j))
        if parts:
            return union_all(parts)
    if c == 2:
        # many holes
        n = rng.randint(2, 4) + m
        b = rect(0, 0, 4 * n + 1, 4 * n + 1)
        holes = []
        for i in range(n):
            for j in range(n):
                if rng.random() < 0.85:
                    x, y = 4 * i + 2, 4 * j + 2
                    h = (rect(x - 1, y - 1, x + 2, y + 2)
                         if rng.random() < 0.4 else
                         star(rng, 1, rng.randint(3, 6), x, y))
                    holes.append(h)
        g = plane.poly(b, holes)
        if plane.defects(g) is None:
            return g
    if c == 3:
        return nested(rng, rng.randint(4, 7))
    return plane.poly(big_ring(rng, rng.randint(k // 2, k)))


def big_linear(rng, ref=None, k=60):
    c = rng.randrange(4 if ref is None else 6)
    if c == 0:
        n = rng.randint(4, 7)
        es = [e for e in Grid(rng, n, n).edges() if rng.random() < 0.6]
        return multiseg(merge_runs(rng, es[:2 * k], rng.choice([0, 0.5, 1])))
    if c == 1:
        return plane.contour(big_ring(rng, rng.randint(k // 2, k)))
    if c == 2:
        n = rng.choice([8, 20, 50])
        cand = [(rnd_pt(rng, n), rnd_pt(rng, n)) for _ in range(3 * k)]
        cand = [(a, b) for a, b in cand if a != b]
        segs = valid_subset(rng, cand, k)
        if segs:
            return multiseg(segs)
    if c == 3:
        n = rng.choice([2, 3, 9])
        cand = [(rnd_pt(rng, n), rnd_pt(rng, n))
                for _ in range(rng.randint(6, 14))]
        cand = [e for e in cand if e[0] != e[1]]
        arr = plane.Arrangement([plane.mseg(cand)])
        es = [e for e in arr.edges if rng.random() < 0.9]
        if es:
            return multiseg(es[:2 * k])
    if c == 4:
        es = valid_subset(rng, [subsegment(rng, e) for e in ref.edges()
                                if rng.random() < 0.7], k)
        if es:
            return multiseg(es)
    if ref is not None:
        es = [sorted_seg(*e) for e in ref.edges()]
        return multiseg(es)
    return plane.contour(star(rng, 20, k))


def big_pair(rng, da, db):
    """operands of dimensions da, db with tens to hundreds of edges"""
    k = rng.choice([60, 60, 60, 60, 60, 150])
    if da == db == 2:
        c = rng.randrange(4)
        if c == 0:
            n = rng.randint(4, 7 if k == 60 else 10)
            gr = Grid(rng, n, n, 0, 0, 1, rng.random() < 0.3)
            a, b = gr.region(), gr.region()
            if a.kind != 'empty' and b.kind != 'empty':
                return a, b
        a = big_shaped(rng, k)
        return (a, derived_shape(rng, a)) if c == 1 else (a, big_shaped(rng, k))
    if da == db == 1:
        a = big_linear(rng, None, k)
        return a, big_linear(rng, a if rng.random() < 0.6 else None, k)
    s = big_shaped(rng, k)
    lin = big_linear(rng, s, k)
    return (lin, s) if da == 1 else (s, lin)


def pair(rng, da=None, db=None, size=None):
    """operands of the wanted dimensions (None: any) from every generator"""
    if da is None:
        da, db = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
    if size is None:
        size = rng.choice([1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 7])
    k = rng.random()
    if k < 0.035:
        a, b = big_pair(rng, da, db)
        return finish(rng, a, b)
    if k < 0.37:
        ka, kb = rng.choice(KINDS[da]), rng.choice(KINDS[db])
        if 1 in (da, db) and k > 0.3:
            # single segments are treated apart by the library
            if db == 2 or da == 1 and rng.random() < 0.5:
                ka = 'segment'
            else:
                kb = 'segment'
        a, b = kinded_pair(rng, ka, kb, min(size, 4))
        return finish(rng, a, b)
    k = rng.randrange(10)
    a = b = None
    if k < 2:
        for _ in range(40):
            x, y = spread_pair(rng)
            if (x.dim, y.dim) == (da, db):
                a, b = x, y
                break
            if (y.dim, x.dim) == (da, db):
                a, b = y, x
                break
    elif k == 2 and 1 in (da, db):
        x, y = fan_pair(rng) if da == db else chord_pair(rng, size)
        for _ in range(20):
            if {x.dim, y.dim} == {da, db}:
                break
            x, y = chord_pair(rng, size)
        if (x.dim, y.dim) == (da, db):
            a, b = x, y
        elif (y.dim, x.dim) == (da, db):
            a, b = y, x
    if a is None:
        if da == db == 2:
            a, b = shaped_pair(rng, size)
        elif da == db == 1:
            a, b = linear_pair(rng, size)
        else:
            a, b = mixed_pair(rng, size)
            if da == 2:
                a, b = b, a
    if da == db and rng.random() < 0.4:
        a, b = b, a
    if rng.random() < 0.12:
        a, b = outlying(rng, a, b)
    return finish(rng, a, b)
