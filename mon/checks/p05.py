"""P05: every boolean operation returns a well-formed geometry, however deep
the expression it takes part in."""
from mon import conv, gen, plane

from .common import (OPS, SYMBOLS, boolean, build, read, skeleton, supported,
                     tiny_kinds)

PROPERTY = 'P05'
QUICK = 9000
THOROUGH = 480
RULE = ('chains of 1 to 6 operators over operands of every kind, results fed '
        'back as operands; every intermediate result is inspected; '
        'non-trivial when some result is not Empty and not an operand')
ASSUMPTIONS = ('leaf operands are valid geometries',)
REQUIRE = {'result polygon': 200, 'result multipolygon': 200,
           'result multisegment': 200, 'result segment': 50,
           'result empty': 50, 'result with holes': 50,
           'result of a result': 500,
           'linear result without T joints': 1000}


def case(rng, obs):
    a, b = gen.pair(rng)
    pool = [(a, build(obs, a, rng), 0), (b, build(obs, b, rng), 0)]
    x0, y0 = pool[0][1], pool[1][1]
    obs.given(a=lambda: x0, b=lambda: y0)
    trail = []
    obs.given(steps=lambda: trail)
    total = sum(len(g.edges()) for g, _, _ in pool)
    steps = 1 if total > 80 else rng.randint(1, 6)
    useful = []
    for _ in range(steps):
        i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
        if rng.random() < 0.6:
            i, j = rng.choice([(len(pool) - 1, j), (i, len(pool) - 1)])
        (a, x, da), (b, y, db) = pool[i], pool[j]
        if len(a.edges()) + len(b.edges()) > 400:
            continue
        ops = [o for o in OPS if supported(o, a, b)]
        if not ops:
            continue
        op = rng.choice(ops)
        trail.append(f'#{i} {SYMBOLS[op]} #{j}')
        r = boolean(obs, op, x, y)
        g = judge(obs, op, a, b, r)
        depth = max(da, db) + 1
        obs.hit(f'result {g.kind}')
        if depth > 1:
            obs.hit('result of a result')
        if any(h for _, h in g.polys):
            obs.hit('result with holes')
        if g.kind != 'empty':
            useful.append((op, g.segs, g.polys))
        pool.append((g, r, depth))
    if useful:
        obs.nontrivial(useful)
    if rng.random() < 0.3:
        d = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
        for ka, kb in tiny_kinds(rng, *d):
            a, b = gen.tiny_pair(rng, ka, kb)
            op = rng.choice([o for o in OPS if supported(o, a, b)])
            obs.afresh()
            x, y = build(obs, a, rng), build(obs, b, rng)
            obs.given(a=lambda: x, b=lambda: y, operator=lambda: op)
            judge(obs, op, a, b, boolean(obs, op, x, y))
            obs.hit('pair of tiny operands')


def judge(obs, op, a, b, r):
    name = type(r).__name__
    obs.check(name in ('Empty', 'Segment', 'Multisegment', 'Contour',
                       'Polygon', 'Multipolygon'),
              'result of a foreign type', name)
    g = read(obs, r)
    d = plane.defects(g)
    if d:
        obs.fail('malformed result ' + skeleton(d), d)
    if g.kind == 'empty':
        # nothing may be lost: Empty only for an empty point set
        d = plane.check_boolean(op, a, b, g)
        if d:
            obs.fail('Empty for a non-empty result', d)
    else:
        want = {'and': min, 'or': max, 'xor': max,
                'sub': lambda p: a.dim}[op]((a.dim, b.dim))
        obs.check(g.dim == want, 'result of a wrong dimension',
                  f'{g.dim}, expected {want}')
    if g.dim == 1 and not (a.kind == b.kind == 'segment') and not any(
            plane.t_junction(o.edges()) for o in (a, b) if o.dim == 1):
        d = plane.t_junction(g.edges())
        obs.check(d is None, 'end point of a segment inside another one', d)
        obs.hit('linear result without T joints')
    if g.kind in ('multisegment', 'contour'):
        obs.check(obs.run(r.is_valid, what='is_valid') is True,
                  'result fails its own is_valid')
    for border, holes in g.polys:
        obs.check(len(border) >= 3 and all(len(h) >= 3 for h in holes),
                  'degenerate ring')
    if g.dim == 2:
        polys = [r] if g.kind == 'polygon' else list(r.polygons)
        for p in polys:
            obs.check(obs.run(p.border.is_valid, what='is_valid') is True
                      and all(obs.run(h.is_valid, what='is_valid') is True
                              for h in p.holes),
                      'ring of the result fails its own is_valid')
        # positive area everywhere: no sliver component
        obs.check(all(plane.ring_area2(b) != 0 for b, _ in g.polys),
                  'component without area')
    return g
