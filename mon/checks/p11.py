"""P11: Delaunay triangulations of point sets."""
from fractions import Fraction

from rene import exact as rx

from mon import conv, gen, plane, tri
from mon.plane import pt

PROPERTY = 'P11'
QUICK = 50000
THOROUGH = 480
RULE = ('point multisets: random on coarse and fine lattices, lines with '
        'points off them, whole grids (many cocircular points), circles of '
        'integer points and next to circles, points moved by next to nothing, '
        'duplicates, any order and scalar types; non-trivial '
        'when not all points are collinear')
ASSUMPTIONS = ()
REQUIRE = {'collinear points': 100, 'cocircular neighbours': 200,
           'duplicates': 200, 'points on hull edges': 200,
           'more than 60 points': 20, 'triangles judged': 10000,
           'single point': 200, 'several in line': 500}


def circle(rng):
    """points of a circle, some off it by next to nothing"""
    out = []
    e = rng.choice([0, 2, 8, 16, 20, 30])
    for _ in range(rng.randint(4, 9)):
        t = Fraction(rng.randint(-12, 12), rng.randint(1, 12))
        r = 1 + (Fraction(rng.choice([-1, 0, 0, 1]), 10 ** e) if e else 0)
        out.append(pt((1 - t * t) / (1 + t * t) * r, 2 * t / (1 + t * t) * r))
    if rng.random() < 0.3:
        out.append(pt(0, 0))
    return out


def similarity(rng):
    u, v = rng.choice([(1, 0), (0, 1), (1, 1), (3, 4), (-2, 1)])
    s = rng.choice([1, 1, Fraction(1, 3), 10 ** 9, Fraction(1, 10 ** 12),
                    10 ** 200])
    o = rng.choice([0, 0, 5, Fraction(1, 3), 10 ** 12])
    u, v = u * s, v * s
    if rng.random() < 0.5:
        return gen.Affine(u, -v, v, u, o, -o)
    return gen.Affine(u, v, v, -u, -o, o)


def nudge(rng, ps):
    """some of the points moved by next to nothing"""
    d = Fraction(1, 10 ** rng.choice([2, 9, 17, 25]))
    out = []
    for p in ps:
        if rng.random() < 0.3:
            x, y = plane.xy(p)
            p = pt(x + rng.choice([-d, 0, d]), y + rng.choice([-d, 0, d]))
        out.append(p)
    return out


def points(rng):
    k = rng.randrange(10)
    if k == 0:
        u, v = rng.choice([(1, 0), (0, 1), (1, 2), (-3, 1)])
        return [pt(t * u, t * v) for t in
                (rng.randint(-9, 9) for _ in range(rng.randint(1, 9)))]
    if k == 1:
        w, h = rng.randint(2, 6), rng.randint(2, 6)
        return [pt(x, y) for x in range(w) for y in range(h)
                if rng.random() < 0.95]
    if k == 2:
        # integer points of a circle
        r2 = rng.choice([25, 65, 325])
        n = int(r2 ** 0.5) + 1
        ps = [pt(x, y) for x in range(-n, n + 1) for y in range(-n, n + 1)
              if x * x + y * y == r2]
        rng.shuffle(ps)
        return ps[:rng.randint(3, len(ps))] + (
            [pt(0, 0)] if rng.random() < 0.5 else [])
    if k == 3:
        n = rng.choice([1000, 10 ** 6])
        return [gen.rnd_pt(rng, n) for _ in range(rng.randint(3, 40))]
    if k == 4:
        # a line and a few points off it
        ps = [pt(t, 0) for t in range(rng.randint(2, 8))]
        return ps + [gen.rnd_pt(rng, 6) for _ in range(rng.randint(1, 4))]
    if k == 5:
        n = rng.choice([2, 3, 5])
        return [gen.rnd_pt(rng, n, rng.choice([1, 2, 3]))
                for _ in range(rng.randint(1, 16))]
    if k == 6:
        # two clusters far apart, columns of equal x
        return [pt(rng.choice([0, 1, 10 ** 6, 10 ** 6 + 1]), rng.randint(0, 8))
                for _ in range(rng.randint(3, 24))]
    if k == 7:
        # nearly collinear: a flat parabola
        d = rng.choice([1, 10 ** 6])
        return [pt(Fraction(t), Fraction(t * t, d)) for t in
                (rng.randint(-9, 9) for _ in range(rng.randint(3, 20)))]
    if k == 8:
        return gen.shaped(rng, rng.choice([1, 2, 3, 4])).points()
    if rng.random() < 0.1:
        n = rng.choice([8, 30, 10 ** 4])
        return [gen.rnd_pt(rng, n) for _ in range(rng.randint(60, 150))]
    return [gen.rnd_pt(rng, 4) for _ in range(rng.randint(1, 25))]


def case(rng, obs):
    k = rng.randrange(20)
    ps = circle(rng) if k < 2 else points(rng)
    if k > 16:
        ps = nudge(rng, ps)
    f = similarity(rng) if k < 2 or rng.random() < 0.2 else gen.affine(rng)
    ps = [f(p) for p in ps]
    if rng.random() < 0.4:
        ps += [rng.choice(ps) for _ in range(rng.randint(1, 4))]
    rng.shuffle(ps)
    typed = rng if rng.random() < 0.1 else None
    rps = obs.run(lambda: [conv.rpt(p, typed) for p in ps], what='Point')
    obs.given(points=lambda: rps)
    before = list(rps)
    t = obs.run(rx.DelaunayTriangulation.from_points, rps,
                what='DelaunayTriangulation.from_points')
    obs.check(rps == before, 'input list modified')
    judge(obs, ps, t)


def judge(obs, ps, t):
    ring = tri.hull(ps)
    tris = obs.run(lambda: [tuple(conv.P(v) for v in c.vertices)
                            for c in t.triangles], what='triangles')
    unique = set(ps)
    if len(unique) != len(ps):
        obs.hit('duplicates')
    flat = len(ring) < 3
    if flat:
        obs.hit('collinear points')
        obs.check(not tris, 'triangles over collinear points', str(tris))
        obs.check(obs.run(bool, t, what='bool') is (len(unique) > 1),
                  f'triangulation of {min(len(unique), 2)} or more distinct '
                  f'points is {bool(t)}')
        obs.hit('single point' if len(unique) == 1 else 'several in line')
        try:
            b = obs.run(lambda: t.border, what='border', allow=ValueError)
        except ValueError:
            obs.hit('no border')
        else:
            obs.fail('border of collinear points', repr(b))
        return
    directed = tri.structure(tris)
    if isinstance(directed, str):
        obs.fail('broken mesh: ' + directed.split(' (')[0], directed)
    used = {p for x in tris for p in x}
    obs.check(used == unique, 'points lost or invented',
              lambda: f'{sorted(unique ^ used)}')
    area = tri.area2(tris)
    obs.check(area == plane.ring_area2(ring),
              'triangles do not tile the hull', f'{area}')
    # hull boundary: every edge without a twin must lie on the hull
    lone = [e for e in directed if e[::-1] not in directed]
    for p, q in lone:
        if any(tri.orient(p, q, r) < 0 for r in ring):
            obs.fail('unmatched edge inside the hull',
                     plane.show_edge((p, q)))
    d = tri.not_delaunay(directed)
    if d:
        obs.fail('not Delaunay', d)
    border = obs.run(lambda: [conv.P(v) for v in t.border.vertices],
                     what='border')
    obs.check(tri.canonical_ring(border) == tri.canonical_ring(ring),
              'border is not the hull', lambda: str(border))
    obs.check(obs.run(bool, t, what='bool') is True,
              'triangulation of non-collinear points is falsy')
    obs.events['triangles judged'] += len(tris)
    if len(lone) > len(ring):
        obs.hit('points on hull edges')
    if len(unique) > 60:
        obs.hit('more than 60 points')
    if any(tri.in_circle(p, q, r, directed[q, p]) == 0
           for (p, q), r in list(directed.items())[:60]
           if (q, p) in directed):
        obs.hit('cocircular neighbours')
    obs.nontrivial(sorted(unique))
