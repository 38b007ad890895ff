"""P13: trapezoidation point location agrees with the geometry for every
seed."""
import math
import sys

from rene import exact as rx

from mon import conv, gen, plane

from .common import build
from .p06 import queries

PROPERTY = 'P13'
QUICK = 60000
THOROUGH = 480
RULE = ('polygons and multisegments (holes, touching rings, T joints, '
        'vertical edges, many components), several seeds each - every '
        'insertion order of small inputs over the thorough runs - and query '
        'points on, a hair off and level with edges and vertices')
ASSUMPTIONS = ('geometries are valid',)
MAX_SEED = (sys.maxsize << 1) + 1
REQUIRE = {'BOUNDARY': 3000, 'INTERIOR': 1000, 'EXTERIOR': 3000,
           'polygon': 1000, 'multisegment': 1000, 'default seeder': 100,
           'rejected seed': 100, 'more than 40 edges': 20, 'touching edges': 100}


def subject(rng):
    k = rng.random()
    if k < 0.03:
        g = gen.big_shaped(rng)
        g = plane.poly(*max(g.polys, key=lambda p: len(p[0]) + len(p[1])))
        if rng.random() < 0.4:
            g = gen.big_linear(rng)
            g = plane.mseg(g.segs) if len(g.segs) > 1 else plane.mseg(
                g.segs + [(gen.rnd_pt(rng, 1), plane.pt(100, 100))])
    elif k < 0.08:
        # on one line or along it
        n = rng.choice([1, 2, 3, 5, 8])
        g = None
        while g is None:
            g = gen.row(rng, rng.choice(['multisegment', 'polygon']),
                        [rng.choice([0, 0, 0, 1, -1]) for _ in range(n + 1)])
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                g = gen.map_geo(g, gen.Affine(0, 1, 1, 0, 0, 0))
            return gen.rewrite(rng, g)
    elif k < 0.5:
        g = gen.shaped(rng, rng.choice([1, 2, 3, 4]))
        g = plane.poly(*rng.choice(g.polys))
    else:
        for _ in range(50):
            g = gen.linear(rng, rng.choice([1, 2, 3, 4]))
            if len(g.segs) > 1:
                break
        g = plane.mseg(gen.valid_subset(rng, g.segs, 60))
        if len(g.segs) < 2:
            g = plane.mseg([(plane.pt(0, 0), plane.pt(2, 0)),
                            (plane.pt(1, 0), plane.pt(1, 1))])
    return gen.finish(rng, g)[0]


def seeds(rng, n):
    orders = math.factorial(min(n, 25))
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(4)
        if k == 0:
            yield rng.randint(0, n)
        elif k == 1:
            yield rng.choice([0, 1, n, MAX_SEED, MAX_SEED - 1, sys.maxsize])
        else:
            yield rng.randrange(min(orders, MAX_SEED + 1))


def case(rng, obs):
    g = subject(rng)
    x = build(obs, g, rng)
    obs.given(geometry=lambda: x)
    make = (rx.Trapezoidation.from_polygon if g.kind == 'polygon'
            else rx.Trapezoidation.from_multisegment)
    n = len(g.edges())
    ends = set(g.points())
    # an edge touched inside by other edges' ends counts once per piece
    pieces = n + sum(p not in e and plane.on_segment(*e, p)
                     for e in g.edges() for p in ends)
    if pieces > n:
        obs.hit('touching edges')
    qs = queries(rng, g, 12)
    qs = [(conv.rpt(q, rng if rng.random() < 0.1 else None),
           plane.locate(g, q)) for q in qs]
    tries = list(seeds(rng, n))
    if rng.random() < 0.15:
        tries.append(None)
    used = []
    obs.given(seeds=lambda: used)
    for s in tries:
        used.append(s)
        if s is None:
            import random
            random.seed(rng.random())
            t = obs.run(make, x, what='trapezoidation')
            obs.hit('default seeder')
        else:
            t = obs.run(make, x, seeder=lambda: s, what='trapezoidation')
        for p, want in qs:
            got = obs.run(t.locate, p, what='locate')
            name = getattr(got, 'name', repr(got))
            obs.check(name == want,
                      f'trapezoidation of {g.kind} locates {name} for {want}',
                      lambda: f'{p!r} with seed {s}')
            obs.check(obs.run(lambda: p in t, what='in')
                      is (want != plane.EXTERIOR),
                      'containment disagrees with location',
                      lambda: f'{p!r} with seed {s}')
            obs.hit(want)
        h = obs.run(lambda: t.height, what='height')
        # a search structure over n edges has at most 3 nodes per insertion
        # on any path
        obs.check(type(h) is int and 0 < h <= 3 * pieces, 'height out of bounds',
                  f'{h} for {pieces} edges')
    if rng.random() < 0.1:
        for bad, e in ((-rng.randint(1, 9), ValueError),
                       (MAX_SEED + rng.randint(1, 9), OverflowError),
                       (1.5, TypeError), ('1', TypeError)):
            try:
                obs.run(make, x, seeder=lambda: bad,
                        allow=(ValueError, OverflowError, TypeError))
            except e:
                obs.hit('rejected seed')
            except (ValueError, OverflowError, TypeError) as err:
                obs.fail('invalid seed rejected with another error',
                         f'{bad!r}: {err!r}')
            else:
                obs.fail('invalid seed accepted', repr(bad))
    obs.hit(g.kind)
    if n > 40:
        obs.hit('more than 40 edges')
    obs.nontrivial(g.kind, g.segs, g.polys, used)
