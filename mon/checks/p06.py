"""P06: point location."""
from fractions import Fraction

from mon import conv, gen, plane
from mon.plane import key, pt

from .common import build

PROPERTY = 'P06'
QUICK = 40000
THOROUGH = 480
RULE = ('geometries of every kind; query points: all vertices, edge midpoints '
        'and other rational points of edges, points an exact 10**-30 off '
        'edges, points level with vertices, points of other components and '
        'holes, random and far points; each located by locate and `in`')
ASSUMPTIONS = ('geometries are valid',)
REQUIRE = {'BOUNDARY': 3000, 'INTERIOR': 1500, 'EXTERIOR': 3000,
           'level with a vertex': 1000, 'in a hole': 50}


def queries(rng, g, n=24):
    pts = g.points()
    es = g.edges()
    out = []
    for _ in range(n):
        k = rng.randrange(9)
        if k == 0 or not pts:
            out.append(rng.choice(pts) if pts else gen.rnd_pt(rng, 4, 2))
            continue
        e = rng.choice(es)
        if k == 1:
            out.append(plane.mid(*e))
        elif k == 2:
            out.append(gen.lerp(*e, Fraction(rng.randint(-3, 10), 7)))
        elif k == 3:
            # a hair off an edge
            x, y = plane.xy(gen.lerp(*e, Fraction(rng.randint(0, 8), 8)))
            h = Fraction(1, 10 ** rng.choice([3, 12, 30]))
            out.append(pt(x + rng.choice([-h, 0, h]), y + rng.choice([-h, h])))
        elif k == 4:
            # level with a vertex
            x, y = plane.xy(rng.choice(pts))
            u, v = plane.xy(rng.choice(pts))
            d = Fraction(rng.randint(-4, 4), 2)
            out.append(pt(x, v) if rng.random() < 0.5 else
                       pt(x + d, y) if rng.random() < 0.5 else pt(x, y + d))
        elif k == 5:
            # between two points of it
            out.append(gen.lerp(rng.choice(pts), rng.choice(pts),
                                Fraction(rng.randint(-1, 5), 4)))
        elif k == 6:
            # centroid of three of its points
            a, b, c = (plane.xy(rng.choice(pts)) for _ in range(3))
            out.append(pt((a[0] + b[0] + c[0]) / 3, (a[1] + b[1] + c[1]) / 3))
        elif k == 7:
            x, y = plane.xy(rng.choice(pts))
            out.append(pt(x + rng.choice([-10 ** 9, 10 ** 9, 0]),
                          y + rng.choice([-10 ** 9, 10 ** 9, 0])))
        else:
            out.append(gen.rnd_pt(rng, 5, rng.choice([1, 2, 3])))
    return out


def case(rng, obs):
    if rng.random() < 0.04:
        g = gen.big_shaped(rng) if rng.random() < 0.7 else gen.big_linear(rng)
        g, = gen.finish(rng, g)
    else:
        g = gen.any_geo(rng, rng.choice([1, 2, 3, 4]))
    if rng.random() < 0.01:
        g = plane.empty()
    x = build(obs, g, rng)
    obs.given(geometry=lambda: x)
    pts = g.points()
    levels = {p[0] * 10 ** 0 if p[2] == 1 else plane.xy(p)[0] for p in pts}
    rows = {plane.xy(p)[1] for p in pts}
    seen = []
    for q in queries(rng, g):
        p = obs.run(conv.rpt, q, rng if rng.random() < 0.2 else None,
                    what='Point')
        want = plane.locate(g, q) if pts else plane.EXTERIOR
        got = obs.run(x.locate, p, what='locate')
        inside = obs.run(lambda: p in x, what='in')
        name = getattr(got, 'name', repr(got))
        obs.check(name == want, f'locate on {g.kind}: {name} for {want}',
                  lambda: f'{p!r}: {name}, expected {want}')
        obs.check(inside is (want != plane.EXTERIOR),
                  f'containment disagrees with location on {g.kind}',
                  lambda: f'{p!r} in: {inside}, expected location {want}')
        obs.hit(want, f'{want} {g.kind}')
        if plane.xy(q)[1] in rows or plane.xy(q)[0] in levels:
            obs.hit('level with a vertex')
        if want == plane.EXTERIOR and any(
                plane.locate(plane.poly(h), q) == plane.INTERIOR
                for _, hs in g.polys for h in hs):
            obs.hit('in a hole')
        seen.append((q, want))
    obs.nontrivial(g.kind, g.segs, g.polys, seen)
