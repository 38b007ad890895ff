"""Exact planar geometry used as the reference (oracle) side of every monitor.

Nothing in this module imports rene.  Points are homogeneous integer triples
(X, Y, W), W > 0, reduced by their gcd, so equality is tuple equality and every
predicate is a sign of an integer polynomial: no rounding, no tolerance.
"""
from __future__ import annotations

from fractions import Fraction
from functools import cmp_to_key
from math import gcd

BOUNDARY, EXTERIOR, INTERIOR = 'BOUNDARY', 'EXTERIOR', 'INTERIOR'


def pt(x, y=None):
    """rational coordinates -> homogeneous point"""
    if y is None:
        x, y = x
    if type(x) is int and type(y) is int:
        return (x, y, 1)
    x, y = Fraction(x), Fraction(y)
    a, b, c, d = x.numerator, x.denominator, y.numerator, y.denominator
    w = b * d // gcd(b, d)
    return (a * (w // b), c * (w // d), w)


def norm(X, Y, W):
    if W < 0:
        X, Y, W = -X, -Y, -W
    g = gcd(gcd(X, Y), W)
    return (X // g, Y // g, W // g) if g > 1 else (X, Y, W)


def xy(p):
    return Fraction(p[0], p[2]), Fraction(p[1], p[2])


def orient(p, q, r):
    """sign of the signed area of p, q, r (counterclockwise positive)"""
    p0, p1, p2 = p
    q0, q1, q2 = q
    r0, r1, r2 = r
    if p2 == 1 and q2 == 1 and r2 == 1:
        d = (q0 - p0) * (r1 - p1) - (q1 - p1) * (r0 - p0)
    else:
        d = (p0 * (q1 * r2 - q2 * r1) - p1 * (q0 * r2 - q2 * r0)
             + p2 * (q0 * r1 - q1 * r0))
    return (d > 0) - (d < 0)


def lt(p, q):
    a, b = p[0] * q[2], q[0] * p[2]
    return a < b or (a == b and p[1] * q[2] < q[1] * p[2])


def cmp(p, q):
    return 0 if p == q else (-1 if lt(p, q) else 1)


key = cmp_to_key(cmp)


def sorted_seg(p, q):
    return (p, q) if lt(p, q) else (q, p)


def on_segment(p, q, r):
    """r on the closed segment pq (p, q in any order)"""
    if orient(p, q, r):
        return False
    p, q = sorted_seg(p, q)
    return not lt(r, p) and not lt(q, r)


def line_cross(a, b, c, d):
    """intersection point of the non-parallel lines ab and cd"""
    def cross(u, v):
        return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
                u[0] * v[1] - u[1] * v[0])
    return norm(*cross(cross(a, b), cross(c, d)))


def mid(p, q):
    return norm(p[0] * q[2] + q[0] * p[2], p[1] * q[2] + q[1] * p[2],
                2 * p[2] * q[2])


def seg_inter(s, t):
    """Intersection of two sorted non-degenerate segments:
    None | ('point', p) | ('overlap', p, q)"""
    a, b = s
    c, d = t
    # quick rejection in x
    if b[0] * c[2] < c[0] * b[2] or d[0] * a[2] < a[0] * d[2]:
        return None
    o1, o2 = orient(a, b, c), orient(a, b, d)
    if o1 == o2:
        if o1:
            return None
        lo = c if lt(a, c) else a
        hi = b if lt(b, d) else d
        if lo == hi:
            return ('point', lo)
        return ('overlap', lo, hi) if lt(lo, hi) else None
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o3 == o4:
        return None
    if o1 == 0:
        return ('point', c) if o3 != o4 and o3 * o4 <= 0 else None
    if o2 == 0:
        return ('point', d) if o3 * o4 <= 0 else None
    if o1 * o2 > 0:
        return None
    if o3 == 0:
        return ('point', a)
    if o4 == 0:
        return ('point', b)
    if o3 * o4 > 0:
        return None
    return ('point', line_cross(a, b, c, d))


class Geo:
    """Plain copy of a geometry.

    kind: 'empty' | 'segment' | 'multisegment' | 'contour' | 'polygon' |
          'multipolygon'
    segs: linear geometries - list of (start, end) in the given order
    verts: contour vertices
    polys: shaped geometries - list of (border vertices, [hole vertices])
    """
    __slots__ = ('kind', 'polys', 'segs', 'verts')

    def __init__(self, kind, segs=(), polys=(), verts=()):
        self.kind, self.segs, self.polys, self.verts = (
            kind, list(segs), list(polys), list(verts))

    @property
    def dim(self):
        return {'empty': -1, 'segment': 1, 'multisegment': 1, 'contour': 1,
                'polygon': 2, 'multipolygon': 2}[self.kind]

    def rings(self):
        for border, holes in self.polys:
            yield border
            yield from holes

    def edges(self):
        if self.dim == 1:
            return self.segs
        return [e for ring in self.rings() for e in ring_edges(ring)]

    def points(self):
        if self.dim == 1:
            return [p for s in self.segs for p in s]
        return [p for ring in self.rings() for p in ring]


def ring_edges(ring):
    return [(ring[i - 1], ring[i]) for i in range(len(ring))]


def empty():
    return Geo('empty')


def seg(p, q):
    return Geo('segment', segs=[(p, q)])


def mseg(segs):
    return Geo('multisegment', segs=segs)


def contour(verts):
    return Geo('contour', segs=ring_edges(verts), verts=verts)


def poly(border, holes=()):
    return Geo('polygon', polys=[(list(border), [list(h) for h in holes])])


def mpoly(polys):
    return Geo('multipolygon', polys=[(list(b), [list(h) for h in hs])
                                      for b, hs in polys])


# ---------------------------------------------------------------- location

def ray_count(edges, m):
    """edges: sorted (p<q) segments.  (strictly below m, through m) with the
    half-open x rule; through counts only edges whose x-range holds m.x"""
    below = through = 0
    mx, mw = m[0], m[2]
    for a, b in edges:
        if a[0] * mw <= mx * a[2] and mx * b[2] < b[0] * mw:
            o = orient(a, b, m)
            if o > 0:
                below += 1
            elif o == 0:
                through += 1
    return below, through


def locate(geo, p):
    edges = geo.edges()
    for a, b in edges:
        if a == b:
            if p == a:
                return BOUNDARY
        elif on_segment(a, b, p):
            return BOUNDARY
    if geo.dim != 2:
        return EXTERIOR
    below, _ = ray_count([sorted_seg(*e) for e in edges], p)
    return INTERIOR if below & 1 else EXTERIOR


def ring_area2(ring):
    """twice the signed area"""
    s = Fraction(0)
    for p, q in ring_edges(ring):
        s += Fraction(p[0] * q[1] - q[0] * p[1], p[2] * q[2])
    return s


def area2(geo):
    return sum((abs(ring_area2(b)) - sum((abs(ring_area2(h)) for h in hs),
                                         Fraction(0))
                for b, hs in geo.polys), Fraction(0))


# ------------------------------------------------------------- arrangement

def transpose(p):
    return (p[1], p[0], p[2])


class Arrangement:
    """Overlay of several geometries.

    edges: elementary edges (p < q) of the union of all their segments, cut at
    every mutual intersection.
    For each geometry index g and elementary edge index i:
      on[g][i]      multiplicity of the edge on g's own segments
      side[g][i]    (just below/right-of-vertical?, just above) 2-D membership
                    as a pair (lo, hi): the two faces next to the edge
    """

    def __init__(self, geos):
        self.geos = geos
        owners = []
        for g, geo in enumerate(geos):
            for s in geo.edges():
                if s[0] != s[1]:
                    owners.append((sorted_seg(*s), g))
        owners.sort(key=lambda o: key(o[0][0]))
        cuts = {}
        uniq = []
        seen = {}
        for s, g in owners:
            if s not in seen:
                seen[s] = len(uniq)
                uniq.append(s)
                cuts[s] = set(s)
        n = len(uniq)
        active = []
        for j in range(n):
            t = uniq[j]
            c = t[0]
            cx, cw = c[0], c[2]
            active = [s for s in active if not s[1][0] * cw < cx * s[1][2]]
            for s in active:
                r = seg_inter(s, t)
                if r is not None:
                    for q in r[1:]:
                        cuts[s].add(q)
                        cuts[t].add(q)
            active.append(t)
        pieces = {}
        on = [{} for _ in geos]
        parts = {}
        for s in uniq:
            ps = sorted(cuts[s], key=key)
            parts[s] = list(zip(ps, ps[1:]))
            for e in parts[s]:
                pieces.setdefault(e, len(pieces))
        for s, g in owners:
            og = on[g]
            for e in parts[s]:
                i = pieces[e]
                og[i] = og.get(i, 0) + 1
        self.edges = list(pieces)
        m = len(self.edges)
        self.on = [[og.get(i, 0) for i in range(m)] for og in on]
        self.side = []
        prep = []
        for geo in geos:
            if geo.dim == 2:
                es = [sorted_seg(*e) for e in geo.edges() if e[0] != e[1]]
                tes = [sorted_seg(transpose(a), transpose(b)) for a, b in es]
                prep.append((es, tes))
            else:
                prep.append(None)
        self.mids = [mid(p, q) for p, q in self.edges]
        for pr in prep:
            if pr is None:
                self.side.append([(False, False)] * m)
                continue
            es, tes = pr
            out = []
            for (p, q), c in zip(self.edges, self.mids):
                if p[0] * q[2] == q[0] * p[2]:
                    below, through = ray_count(tes, transpose(c))
                else:
                    below, through = ray_count(es, c)
                out.append((bool(below & 1), bool((below + through) & 1)))
            self.side.append(out)

    def covers(self, g, i):
        """closed geometry g contains elementary edge i"""
        if self.geos[g].dim == 1:
            return self.on[g][i] > 0
        lo, hi = self.side[g][i]
        return lo or hi or self.on[g][i] > 0

    def inside(self, g, i):
        """relative interior of edge i lies in the topological interior"""
        lo, hi = self.side[g][i]
        return lo and hi and not self.on[g][i]

    def vertices(self):
        """vertex -> list of incident elementary edge indices"""
        out = {}
        for i, (p, q) in enumerate(self.edges):
            out.setdefault(p, []).append(i)
            out.setdefault(q, []).append(i)
        return out


# ------------------------------------------------------- boolean operations

OPS = {'and': lambda a, b: a and b, 'or': lambda a, b: a or b,
       'sub': lambda a, b: a and not b, 'xor': lambda a, b: a != b}


def check_boolean(op, a, b, r, arr=None):
    """None if r is exactly `a op b` (dimension-regularised), else a message.

    shaped op shaped: compared face by face.
    linear results: compared elementary edge by elementary edge, a closed
    shaped operand covering the edges of its boundary.
    """
    f = OPS[op]
    arr = arr or Arrangement([a, b, r])
    if a.kind == 'empty' or b.kind == 'empty' or a.dim == b.dim:
        rdim = max(a.dim, b.dim)
    elif op == 'and':
        rdim = 1
    else:
        rdim = a.dim
    if r.kind != 'empty' and r.dim != rdim:
        return f'result has dimension {r.dim}, expected {rdim}'
    for i, e in enumerate(arr.edges):
        if rdim == 2:
            for k in (0, 1):
                want = f(arr.side[0][i][k], arr.side[1][i][k])
                if want != arr.side[2][i][k]:
                    return (f'face next to {show_edge(e)} side {k}: expected '
                            f'{"in" if want else "not in"} the result')
        else:
            want = f(bool(arr.covers(0, i)), bool(arr.covers(1, i)))
            if want != (arr.on[2][i] > 0):
                return (f'edge {show_edge(e)}: expected '
                        f'{"in" if want else "not in"} the result')
    return None


def show_pt(p):
    x, y = xy(p)
    return f'({x}, {y})'


def show_edge(e):
    return f'{show_pt(e[0])}-{show_pt(e[1])}'


# ------------------------------------------------------------- validity

def multisegment_defects(segs):
    """crossing / overlapping / degenerate segments in a linear geometry"""
    ss = []
    for p, q in segs:
        if p == q:
            return 'degenerate segment ' + show_pt(p)
        ss.append(sorted_seg(p, q))
    ss.sort(key=lambda s: key(s[0]))
    active = []
    for t in ss:
        c = t[0]
        active = [s for s in active
                  if not s[1][0] * c[2] < c[0] * s[1][2]]
        for s in active:
            r = seg_inter(s, t)
            if r is None:
                continue
            if r[0] == 'overlap':
                return f'overlap {show_edge(s)} with {show_edge(t)}'
            p = r[1]
            if p not in s and p not in t:
                return f'crossing {show_edge(s)} with {show_edge(t)}'
        active.append(t)
    return None


def t_junction(segs):
    """a segment with an end point of another one inside of it, or None"""
    ss = sorted((sorted_seg(*s) for s in segs), key=lambda s: key(s[0]))
    active = []
    for t in ss:
        c = t[0]
        active = [s for s in active
                  if not s[1][0] * c[2] < c[0] * s[1][2]]
        for s in active:
            for u, v in ((s, t), (t, s)):
                for p in v:
                    if p not in u and on_segment(*u, p):
                        return f'{show_pt(p)} inside {show_edge(u)}'
        active.append(t)
    return None


def contour_defects(verts):
    n = len(verts)
    if n < 3:
        return 'fewer than 3 vertices'
    for i in range(n):
        a, b, c = verts[i - 2], verts[i - 1], verts[i]
        if a == b:
            return 'repeated vertex ' + show_pt(a)
        if orient(a, b, c) == 0:
            return 'collinear vertices at ' + show_pt(b)
    if len(set(verts)) != n:
        return 'self-touching vertex'
    es = [(sorted_seg(*e), i) for i, e in enumerate(ring_edges(verts))]
    es.sort(key=lambda s: key(s[0][0]))
    active = []
    for t, j in es:
        c = t[0]
        active = [(s, i) for s, i in active
                  if not s[1][0] * c[2] < c[0] * s[1][2]]
        for s, i in active:
            r = seg_inter(s, t)
            if r is None:
                continue
            if r[0] == 'overlap':
                return f'edges overlap {show_edge(s)} {show_edge(t)}'
            if (i - j) % n not in (1, n - 1):
                return f'edges meet {show_edge(s)} {show_edge(t)}'
            if r[1] not in s or r[1] not in t:
                return f'edges meet {show_edge(s)} {show_edge(t)}'
        active.append((t, j))
    return None


def shaped_defects(geo):
    """None if every ring is a valid contour, rings meet only in points, holes
    lie inside their border and outside each other, polygons have disjoint
    interiors"""
    for ring in geo.rings():
        d = contour_defects(ring)
        if d:
            return d
    rings = []
    for k, (border, holes) in enumerate(geo.polys):
        rings.append((k, None, border))
        rings.extend((k, h, hole) for h, hole in enumerate(holes))
    es = []
    for r, (_, _, ring) in enumerate(rings):
        es.extend((sorted_seg(*e), r) for e in ring_edges(ring))
    es.sort(key=lambda s: key(s[0][0]))
    active = []
    for t, j in es:
        c = t[0]
        active = [(s, i) for s, i in active
                  if not s[1][0] * c[2] < c[0] * s[1][2]]
        for s, i in active:
            if i == j:
                continue
            r = seg_inter(s, t)
            if r is None:
                continue
            if r[0] == 'overlap':
                return f'rings share an edge {show_edge(r[1:])}'
            if r[1] not in s and r[1] not in t:
                return f'rings cross at {show_pt(r[1])}'
        active.append((t, j))
    # rings do not overlap or cross edges properly; vertices may touch.  Check
    # containment with the faces next to every elementary edge.
    parts = [poly(ring) for _, _, ring in rings]
    if len(parts) == 1:
        return None
    arr = Arrangement(parts)
    for i in range(len(arr.edges)):
        for k in (0, 1):
            owners = []
            for r, (idx, h, _) in enumerate(rings):
                if arr.side[r][i][k]:
                    owners.append((idx, h))
            borders = {idx for idx, h in owners if h is None}
            holes = [(idx, h) for idx, h in owners if h is not None]
            if len({idx for idx, _ in holes}) != len(holes):
                return f'holes overlap near {show_edge(arr.edges[i])}'
            for idx, _ in holes:
                if idx not in borders:
                    return f'hole outside its border near {show_edge(arr.edges[i])}'
            if len(borders) - len(holes) > 1:
                return f'polygons overlap near {show_edge(arr.edges[i])}'
    return None


def defects(geo):
    if geo.kind == 'empty':
        return None
    if geo.kind == 'segment':
        return ('degenerate segment' if geo.segs[0][0] == geo.segs[0][1]
                else None)
    if geo.kind == 'multisegment':
        if len(geo.segs) < 2:
            return 'fewer than 2 segments'
        return multisegment_defects(geo.segs)
    if geo.kind == 'contour':
        return contour_defects(geo.verts)
    if geo.kind == 'multipolygon' and len(geo.polys) < 2:
        return 'fewer than 2 polygons'
    return shaped_defects(geo)


# ------------------------------------------------------- canonical point set

def line_of(p, q):
    """primitive integer (A, B, C) of the line through p and q"""
    a = p[1] * q[2] - p[2] * q[1]
    b = p[2] * q[0] - p[0] * q[2]
    c = p[0] * q[1] - p[1] * q[0]
    g = gcd(gcd(a, b), c)
    if a < 0 or (a == 0 and b < 0):
        g = -g
    return (a // g, b // g, c // g)


def canon(geo):
    """value determined by the point set of a geometry alone (shaped: the
    regularised region, linear: the union of the segments)"""
    lines = {}
    if geo.dim == 2:
        for b, hs in geo.polys:
            for ring, sign in [(b, 1)] + [(h, -1) for h in hs]:
                if (ring_area2(ring) > 0) != (sign > 0):
                    ring = ring[::-1]
                for p, q in ring_edges(ring):
                    lo, hi = sorted_seg(p, q)
                    # interior on the left of p -> q
                    lines.setdefault(line_of(p, q), []).append(
                        (lo, hi, 1 if lo == p else -1))
    else:
        for p, q in geo.edges():
            lo, hi = sorted_seg(p, q)
            lines.setdefault(line_of(p, q), []).append((lo, hi, 1))
    return canon_lines(lines, geo.dim)


def canon_lines(lines, dim):
    out = set()
    for ss in lines.values():
        ev = []
        for lo, hi, s in ss:
            ev.append((key(lo), lo, s))
            ev.append((key(hi), hi, -s))
        ev.sort(key=lambda e: e[0])
        level, since = 0, None
        i = 0
        while i < len(ev):
            v, new = ev[i][1], level
            while i < len(ev) and ev[i][1] == v:
                new += ev[i][2]
                i += 1
            a = level if dim == 2 else level > 0
            b = new if dim == 2 else new > 0
            if a != b:
                if a:
                    out.add((since, v, int(a)))
                since = v
            level = new
    return (dim if out else -1, frozenset(out))


def canon_map(c, f):
    """canonical value of the image under an affine map"""
    dim, es = c
    flip = dim == 2 and f.det < 0
    out = set()
    for p, q, s in es:
        u, v = f(p), f(q)
        if not lt(u, v):
            u, v = v, u
            if dim == 2:
                s = -s
        out.add((u, v, -s if flip else s))
    return (dim, frozenset(out))


# ------------------------------------------------------------- relation

def relation(a, b, arr=None):
    """Name of the documented Relation of a to b"""
    if a.kind == 'empty' and b.kind == 'empty':
        return 'EQUAL'
    if a.kind == 'empty' or b.kind == 'empty':
        return 'DISJOINT'
    arr = arr or Arrangement([a, b])
    n = len(arr.edges)
    ca = [arr.covers(0, i) for i in range(n)]
    cb = [arr.covers(1, i) for i in range(n)]
    two = any(x and y for i in range(n)
              for x, y in zip(arr.side[0][i], arr.side[1][i]))
    one = any(x and y for x, y in zip(ca, cb))
    verts = arr.vertices()
    # a vertex belongs to a closed geometry iff some incident edge does
    zero = [v for v, inc in verts.items()
            if any(ca[i] for i in inc) and any(cb[i] for i in inc)]
    if not zero:
        return 'DISJOINT'
    a_sub = (all(y or not x for x, y in zip(ca, cb))
             and all(y or not x for i in range(n)
                     for x, y in zip(arr.side[0][i], arr.side[1][i])))
    b_sub = (all(x or not y for x, y in zip(ca, cb))
             and all(x or not y for i in range(n)
                     for x, y in zip(arr.side[0][i], arr.side[1][i])))
    if a_sub and b_sub:
        return 'EQUAL'
    on0, on1 = arr.on[0], arr.on[1]
    if a_sub or b_sub:
        # sub: the geometry contained in the other (sup)
        sub_on, sup_on = (on0, on1) if a_sub else (on1, on0)
        sup_shaped = (b if a_sub else a).dim == 2
        if all(sup_on[i] for i in range(n) if sub_on[i]):
            # boundary (all of it) lies on the other's boundary
            names = ('COMPONENT', 'COMPOSITE')
        elif not sup_shaped:
            raise AssertionError('linear subset off the linear superset')
        else:
            sub_bv = {p for i in range(n) if sub_on[i] for p in arr.edges[i]}
            sup_bv = {p for i in range(n) if sup_on[i] for p in arr.edges[i]}
            names = (('ENCLOSED', 'ENCLOSES') if sub_bv & sup_bv
                     else ('WITHIN', 'COVER'))
        return names[0] if a_sub else names[1]
    if a.dim == b.dim == 2:
        return 'OVERLAP' if two else 'TOUCH'
    if a.dim == b.dim == 1:
        if one:
            return 'OVERLAP'
        for v in zero:
            if _interleaved(v, verts[v], arr):
                return 'CROSS'
        return 'TOUCH'
    # linear against shaped
    lin, shp = (0, 1) if a.dim == 1 else (1, 0)
    for i in range(n):
        if arr.on[lin][i] and arr.inside(shp, i):
            return 'CROSS'
    return 'TOUCH'


def _interleaved(v, inc, arr):
    """the rays of the two linear geometries at v alternate around v"""
    rays = []
    for i in inc:
        p, q = arr.edges[i]
        o = q if p == v else p
        rays.append((o, 0 if arr.on[0][i] else 1))

    def half(o):
        x = o[0] * v[2] - v[0] * o[2]
        y = o[1] * v[2] - v[1] * o[2]
        return 0 if y > 0 or (y == 0 and x > 0) else 1

    def c(r, s):
        h = half(r[0]) - half(s[0])
        return h if h else -orient(v, r[0], s[0])
    rays.sort(key=cmp_to_key(c))
    labels = [r[1] for r in rays]
    changes = sum(labels[k - 1] != labels[k] for k in range(len(labels)))
    return changes >= 4
