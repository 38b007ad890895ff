"""P08: answers depend on the point sets only: not on how they are written
down and not on the exact coordinate frame."""
from fractions import Fraction

from mon import conv, gen, plane

from .common import OPS, boolean, build, read, skeleton, supported
from .p06 import queries
from .p10 import ring, segments

PROPERTY = 'P08'
QUICK = 3000
THOROUGH = 480
RULE = ('operand pairs (a quarter of them with tens to hundreds of edges) '
        'related, combined, located and validated once as they are and again '
        're-written (rings rotated and reversed, components and segments '
        'reordered and flipped) and under invertible affine maps with exact '
        'rational coefficients; answers are compared as canonical point sets; '
        'non-trivial when an operation gives a non-empty result')
ASSUMPTIONS = ('operands are valid geometries',)
REQUIRE = {'same results': 4000, 'same relation': 1500,
           'same location': 10000, 'more than 80 edges': 40,
           'orientation-reversing map': 300, 'huge coordinates': 50,
           'non-empty result': 1000, 'same validity True': 300,
           'same validity False': 300}


def transform(rng):
    k = rng.randrange(8)
    if k == 0:
        return gen.Affine(1, 0, 0, 1, 0, 0)
    if k == 1:
        t = 10 ** rng.choice([9, 18, 60])
        return gen.Affine(1, 0, 0, 1, t, rng.choice([t, -t, t - 1]))
    if k == 2:
        s = Fraction(1, rng.choice([3, 10 ** 20, 2 ** 70 + 1]))
        return gen.Affine(s, 0, 0, -s, 0, 0)
    if k == 3:
        # nearly degenerate: squeezes the plane into a thin strip
        t = Fraction(1, rng.choice([10 ** 6, 10 ** 15]))
        return gen.Affine(1, 1 - t, 1, 1, 0, 0)
    while True:
        m = [Fraction(rng.randint(-9, 9), rng.choice([1, 1, 2, 7]))
             for _ in range(6)]
        if m[0] * m[3] - m[1] * m[2]:
            return gen.Affine(*m)


def validity(rng, obs, f):
    """the same segments or ring, valid or not, written differently"""
    g = (plane.mseg(segments(rng)) if rng.random() < 0.5
         else plane.contour(ring(rng)))
    h = gen.rewrite(rng, gen.map_geo(g, f))
    u, v = build(obs, g, rng), build(obs, h, rng)
    obs.given(validated=lambda: u, validated_too=lambda: v)
    p = obs.run(u.is_valid, what='is_valid')
    q = obs.run(v.is_valid, what='is_valid')
    obs.check(p is q, f'validity of {g.kind} depends on the representation',
              lambda: f'{p} and {q}')
    obs.hit(f'same validity {p}')


def case(rng, obs):
    if rng.random() < 0.12:
        da, db = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 2)])
        a, b = gen.big_pair(rng, da, db)
    else:
        a, b = gen.pair(rng)
    f = transform(rng)
    a2, b2 = (gen.rewrite(rng, gen.map_geo(g, f)) for g in (a, b))
    x, y = build(obs, a, rng), build(obs, b, rng)
    x2, y2 = build(obs, a2, rng), build(obs, b2, rng)
    obs.given(a=lambda: x, b=lambda: y, a2=lambda: x2, b2=lambda: y2)
    n = len(a.edges()) + len(b.edges())
    r1 = obs.run(x.relate_to, y, what='relate_to')
    r2 = obs.run(x2.relate_to, y2, what='relate_to')
    obs.check(r1 is r2, f'relation of {a.kind} to {b.kind} depends on the '
              'representation', lambda: f'{r1!r} and {r2!r}')
    obs.hit('same relation')
    some = False
    ops = [o for o in OPS if supported(o, a, b)]
    if n > 80:
        ops = ops[:] if rng.random() < 0.3 else [rng.choice(ops)]
    for op in ops:
        p = read(obs, boolean(obs, op, x, y))
        q = read(obs, boolean(obs, op, x2, y2))
        for g in (p, q):
            if n <= 40:
                d = plane.defects(g)
                if d:
                    obs.fail('malformed result ' + skeleton(d), d)
        cp, cq = plane.canon(p), plane.canon(q)
        obs.check(plane.canon_map(cp, f) == cq,
                  f'result of {op} of {a.kind} and {b.kind} depends on the '
                  'representation',
                  lambda: f'{len(cp[1])} and {len(cq[1])} maximal edges')
        obs.hit('same results')
        if cp[1]:
            obs.hit('non-empty result')
            some = True
    for g, u, v in ((a, x, x2), (b, y, y2)):
        for s in queries(rng, g, 6):
            p, q = conv.rpt(s), conv.rpt(f(s))
            l1 = obs.run(u.locate, p, what='locate')
            l2 = obs.run(v.locate, q, what='locate')
            obs.check(l1 is l2, f'location in {g.kind} depends on the '
                      'representation', lambda: f'{p!r}: {l1!r} and {l2!r}')
            obs.hit('same location')
        if g.kind in ('contour', 'multisegment'):
            obs.check(obs.run(v.is_valid, what='is_valid') is
                      obs.run(u.is_valid, what='is_valid'),
                      'validity depends on the representation')
    for _ in range(rng.choice([0, 1, 2])):
        validity(rng, obs, f)
    if n > 80:
        obs.hit('more than 80 edges')
    if f.det < 0:
        obs.hit('orientation-reversing map')
    if max(map(abs, f.m)) > 10 ** 8:
        obs.hit('huge coordinates')
    if some:
        obs.nontrivial(a.segs, a.polys, b.segs, b.polys, f.m)
