"""P22: geometries of hundreds of edges are handled exactly, within the default
recursion limit and with work that grows moderately."""
import random
import sys
from contextlib import contextmanager
from fractions import Fraction

from rene import exact as rx

from mon import conv, engine, gen, plane, tri
from mon.plane import pt, sorted_seg

from .common import OPS, SYMBOLS, read

PROPERTY = 'P22'
QUICK = 260
THOROUGH = 480
CHUNK = 3
CASE_CPU = 200.0
RULE = ('combs, lattices of squares, onions, sieves, staircases, spirals, '
        'convex chains, zigzags, fans and collinear chains of tens to '
        'hundreds of edges and of three times that size, under exact affine maps, '
        'in every operation; answers judged by closed formulas, area and '
        'length balance and exact point probes, effort by the number of '
        'calls inside rene (sys.monitoring); the recursion limit is the '
        'default one; every case is non-trivial')
ASSUMPTIONS = ('operands are valid geometries',
               'effort is the number of Python calls made inside rene')
REQUIRE = {'&': 40, '|': 25, '-': 25, '^': 25, 'relate_to': 30,
           'is_valid': 40, 'trapezoidation': 12, 'delaunay': 8,
           'constrained delaunay': 5, 'more than 256 edges': 60,
           'growth': 100, 'invalid seen': 10,
           'more than 1000 edges': 8}
# work <= SLACK * (ratio of sizes) ** exponent * work of the smaller + GRACE
# by kind: the greatest n up to which an exponent is tolerated (logarithmic
# factors weigh more in small inputs)
EXPONENT = {'trapezoids': ((None, 2.3),), 'constrained': ((None, 3.2),),
            'delaunay': ((63, 1.55), (127, 1.42), (299, 1.32), (None, 1.24)),
            'identity': ((None, 1.05),), 'locate': ((None, 1.05),),
            'valid': ((None, 1.7),)}
SWEEP = ((31, 1.6), (63, 1.5), (None, 1.42))
SLACK = 1.25
GRACE = 3000


def rect(x0, y0, x1, y1):
    return [pt(x0, y0), pt(x1, y0), pt(x1, y1), pt(x0, y1)]


def ring(pts):
    return [pt(x, y) for x, y in pts]


# every family: n -> geometries by name, facts by name
#   ('&', a, b): (area | None, components | None, holes | None)

def comb(n):
    n = max(2, n // 4)
    r = [(0, 0), (2 * n - 1, 0)]
    for i in range(n - 1, -1, -1):
        r += [(2 * i + 1, 5), (2 * i, 5), (2 * i, 1), (2 * i - 1, 1)]
    r = r[:-2]
    a = plane.poly(ring(r))
    b = plane.poly(rect(-1, 2, 2 * n, 3))
    base, bar = 2 * n - 1 + 4 * n, 2 * n + 1
    return {'a': a, 'b': b}, {
        '&': (n, n, 0), '|': (base + bar - n, 1, n - 1),
        'a-b': (base - n, n + 1, 0), 'b-a': (bar - n, n + 1, 0),
        '^': (base + bar - 2 * n, None, None), 'relation': 'OVERLAP'}


def lattice(n):
    k = max(2, round((n / 4) ** 0.5))
    def squares(o):
        return plane.mpoly([(rect(4 * i + o, 4 * j + o, 4 * i + o + 2,
                                  4 * j + o + 2), [])
                            for i in range(k) for j in range(k)])
    q = k * k
    return {'a': squares(0), 'b': squares(1)}, {
        '&': (q, q, 0), '|': (7 * q, q, 0), 'a-b': (3 * q, q, 0),
        'b-a': (3 * q, q, 0), '^': (6 * q, None, None),
        'relation': 'OVERLAP'}


def sieve(n):
    k = max(2, round((n / 4) ** 0.5))
    big = rect(-1, -1, 4 * k, 4 * k)
    holes = [rect(4 * i, 4 * j, 4 * i + 2, 4 * j + 2)
             for i in range(k) for j in range(k)]
    q, all_ = k * k, (4 * k + 1) ** 2
    return {'a': plane.poly(big, holes),
            'b': plane.mpoly([(h, []) for h in holes])}, {
        '&': (0, 0, 0), '|': (all_, 1, 0), 'a-b': (all_ - 4 * q, 1, q),
        'b-a': (4 * q, q, 0), '^': (all_, 1, 0), 'relation': 'TOUCH'}


def plate(n):
    k = max(2, round((n / 4) ** 0.5))
    big = rect(-1, -1, 4 * k, 4 * k)
    parts = [rect(4 * i, 4 * j, 4 * i + 2, 4 * j + 2)
             for i in range(k) for j in range(k)]
    q, all_ = k * k, (4 * k + 1) ** 2
    return {'a': plane.mpoly([(h, []) for h in parts]),
            'b': plane.poly(big)}, {
        '&': (4 * q, q, 0), '|': (all_, 1, 0), 'a-b': (0, 0, 0),
        'b-a': (all_ - 4 * q, 1, q), '^': (all_ - 4 * q, 1, q),
        'relation': 'WITHIN'}


def onion(n):
    k = max(2, n // 8)

    def square(r):
        return rect(-r, -r, r, r)
    a = plane.mpoly([(square(4 * i + 2), [square(4 * i)])
                     for i in range(1, k)] + [(square(2), [])])
    b = plane.mpoly([(square(4 * i + 4), [square(4 * i + 2)])
                     for i in range(k)])
    all_ = (8 * k) ** 2
    x = sum((8 * i + 4) ** 2 - (8 * i) ** 2 for i in range(k))
    return {'a': a, 'b': b}, {
        '&': (0, 0, 0), '|': (all_, 1, 0), 'a-b': (x, k, k - 1),
        'b-a': (all_ - x, k, k), '^': (all_, 1, 0), 'relation': 'TOUCH'}


def convex(n):
    a = plane.poly(ring([(i, i * i) for i in range(n)]))
    b = plane.poly(ring([(i, n * n - i * i) for i in range(n)]))
    return {'a': a, 'b': b}, {'&': (None, 1, 0), '|': (None, 1, 0),
                              'relation': 'OVERLAP'}


def stairs(n):
    """a staircase cuts a rectangle in two"""
    n = max(2, n // 2)
    up = [(0, 0)]
    for i in range(n):
        up += [(i + 1, i), (i + 1, i + 1)]
    low = gen.drop_collinear(ring([(-1, 0)] + up + [(-1, n)]))
    high = gen.drop_collinear(ring([(n + 1, 0), (n + 1, n)] + up[::-1]))
    whole = n * (n + 2)
    return {'a': plane.poly(low), 'b': plane.poly(high)}, {
        '&': (0, 0, 0), '|': (whole, 1, 0), '^': (whole, 1, 0),
        'relation': 'TOUCH'}


def spiral(n):
    k = max(2, n // 8)
    out = []
    # outward square spiral of width 1, gap 1
    x = y = 0
    step = 2
    d = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    pts = [(0, 0)]
    for i in range(4 * k):
        dx, dy = d[i % 4]
        x, y = x + dx * step, y + dy * step
        pts.append((x, y))
        if i % 2:
            step += 2
    # offset to the right by one: corners move along the outward diagonal
    o = {0: (0, -1), 1: (1, 0), 2: (0, 1), 3: (-1, 0)}
    outer = []
    for i, (px, py) in enumerate(pts):
        a = o[(i - 1) % 4] if i else (0, 0)
        b = o[i % 4] if i < len(pts) - 1 else (0, 0)
        outer.append((px + a[0] + b[0], py + a[1] + b[1]))
    out = ring(pts + outer[::-1])
    m = max(abs(v) for p in pts for v in p) + 3
    return {'a': plane.poly(out), 'b': plane.poly(
        ring([(-m, -m), (m, -m), (m, m)]))}, {'relation': 'OVERLAP'}


SHAPED = (comb, lattice, sieve, plate, onion, convex, stairs, spiral)


def zig(n):
    def line(s):
        v = [(i, s * (1 if i & 1 else -1)) for i in range(n + 1)]
        return plane.mseg([(pt(*v[i]), pt(*v[i + 1])) for i in range(n)])
    return {'a': line(1), 'b': line(-1)}, {
        '&': (0, 0), '|': (2 * n + 2 * n * 1, 4 * n), 'a-b': (n + 2 * n, None),
        '^': (4 * n + 2 * n, None), 'relation': 'CROSS'}


def chain(n):
    a = plane.mseg([(pt(2 * i, 0), pt(2 * i + 2, 0)) for i in range(n)])
    b = plane.mseg([(pt(2 * i + 1, 0), pt(2 * i + 3, 0)) for i in range(n)])
    return {'a': a, 'b': b}, {'&': (2 * n - 1, None), '|': (2 * n + 1, None),
                              'a-b': (1, 1), 'b-a': (1, 1), '^': (2, 2),
                              'relation': 'OVERLAP'}


def dashes(n):
    a = plane.mseg([(pt(2 * i, 0), pt(2 * i + 1, 0)) for i in range(n)])
    b = plane.mseg([(pt(-1, 0), pt(n, 0)), (pt(n, 0), pt(2 * n, 0))])
    return {'a': a, 'b': b}, {'&': (n, None), '|': (2 * n + 1, None),
                              'a-b': (0, 0), 'b-a': (n + 1, None),
                              '^': (n + 1, None), 'relation': 'COMPONENT'}


def star(n):
    n = max(4, n // 2)
    a = plane.mseg([(pt(0, 0), pt(n, 2 * i - n)) for i in range(n)])
    b = plane.mseg([(pt(1, -n), pt(1, n)), (pt(n + 1, 0), pt(n + 2, 0))])
    return {'a': a, 'b': b}, {'&': (0, 0), 'relation': 'CROSS'}


def mesh(n):
    k = max(2, n // 2)
    k = round((2 * k) ** 0.5) + 1
    a = plane.mseg([(pt(0, i), pt(k, i)) for i in range(1, k)])
    b = plane.mseg([(pt(i, 0), pt(i, k)) for i in range(1, k)])
    if k < 3:
        return zig(n)
    return {'a': a, 'b': b}, {'&': (0, 0), '|': (2 * k * (k - 1),
                                                2 * k * (k - 1)),
                              'a-b': (k * (k - 1), None),
                              '^': (2 * k * (k - 1), 2 * k * (k - 1)),
                              'relation': 'CROSS'}


def teeth(n):
    """outline of a comb against its own upper parts"""
    g, _ = comb(n)
    r = g['a'].polys[0][0]
    up = [e for e in plane.ring_edges(r) if plane.xy(e[0])[1] == 5
          == plane.xy(e[1])[1]]
    k = len(up)
    return {'a': plane.contour(r), 'b': plane.mseg(up)}, {
        '&': (k, k), 'b-a': (0, 0), 'relation': 'COMPOSITE'}


LINEAR = (zig, chain, dashes, star, mesh, teeth)


def mix(rng, n):
    """shaped operand cut by a linear one"""
    k = rng.randrange(4)
    if k == 0:
        g, _ = comb(n)
        m = max(2, n // 4)
        b = plane.mseg([(pt(-1, 2), pt(2 * m, 2)), (pt(-1, 3), pt(2 * m, 3))])
        return {'a': g['a'], 'b': b}, {'&': (2 * m, 2 * m), 'b-a':
                                       (2 * m + 2, 2 * m + 2),
                                       'relation': 'CROSS'}
    if k == 1:
        g, _ = sieve(n)
        q = len(g['b'].polys)
        es = [e for b, _ in g['b'].polys for e in plane.ring_edges(b)]
        return {'a': g['a'], 'b': plane.mseg(es)}, {
            '&': (8 * q, 4 * q), 'b-a': (0, 0), 'relation': 'COMPOSITE'}
    if k == 2:
        g, _ = lattice(n)
        w = round(len(g['a'].polys) ** 0.5)
        b = plane.mseg([(pt(-1, 4 * j + 1), pt(4 * w, 4 * j + 1))
                        for j in range(w)])
        return {'a': g['a'], 'b': b}, {'&': (2 * w * w, w * w), 'b-a':
                                       (w * (2 * w + 1), w * (w + 1)),
                                       'relation': 'CROSS'}
    g, _ = onion(n)
    w = max(abs(v) for p in g['a'].points() for v in plane.xy(p))
    b = plane.mseg([(pt(-w - 1, 1), pt(w + 1, 1)),
                    (pt(1, -w - 1), pt(1, 0))])
    return {'a': g['a'], 'b': b}, {'relation': 'CROSS'}


# ------------------------------------------------------------------ monitor

TOOL = 3
CALLS = [0]


class Effort:
    """counts calls of functions of rene"""
    prefix = None

    def __enter__(self):
        mon = sys.monitoring
        if Effort.prefix is None:
            import os
            Effort.prefix = os.path.join(engine.REPO, 'rene') + os.sep
        try:
            mon.use_tool_id(TOOL, 'verif-effort')
        except ValueError:
            pass
        prefix = Effort.prefix

        def start(code, offset):
            if code.co_filename.startswith(prefix):
                CALLS[0] += 1
                return None
            return mon.DISABLE
        CALLS[0] = 0
        mon.register_callback(TOOL, mon.events.PY_START, start)
        mon.set_events(TOOL, mon.events.PY_START)
        return self

    def __exit__(self, *exc):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.PY_START,
                                         None)
        self.calls = CALLS[0]


@contextmanager
def default_recursion():
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


def call(obs, what, f, *args):
    """-> (result, calls)"""
    def limited():
        with default_recursion():
            return f(*args)
    with Effort() as e:
        r = obs.run(limited, what=what)
    return r, e.calls


def l1(g):
    s = Fraction(0)
    for p, q in g.edges():
        (a, b), (c, d) = plane.xy(p), plane.xy(q)
        s += abs(a - c) + abs(b - d)
    return s


def some_points(rng, g, n):
    es = g.edges()
    for _ in range(n if es else 0):
        a, b = rng.choice(es)
        k = rng.randrange(4)
        if k == 0:
            yield a
            continue
        m = gen.lerp(a, b, Fraction(rng.randint(1, 6), 7))
        if k == 1:
            yield m
            continue
        x, y = plane.xy(m)
        (ax, ay), (bx, by) = plane.xy(a), plane.xy(b)
        s = rng.choice([1, -1]) * Fraction(1, rng.choice([3, 50, 10 ** 9]))
        yield pt(x - (by - ay) * s, y + (bx - ax) * s)


def shaped_ops(rng, obs, family, n, f):
    gs, facts = family(n)
    f_area = abs(f.det)
    a, b = (gen.map_geo(gs[k], f) for k in 'ab')
    with default_recursion():
        x, y = obs.run(conv.rene, a), obs.run(conv.rene, b)
    out = {}
    area = {}
    effort = {}
    for key in ('&', '|', 'a-b', 'b-a', '^'):
        op = {v: k for k, v in SYMBOLS.items()}[key.strip('ab')]
        u, v = (y, x) if key == 'b-a' or key in '&|^' and rng.random() < .5 \
            else (x, y)
        r, effort[key] = call(obs, f'{key} of {family.__name__}', OPS[op],
                              u, v)
        obs.hit(SYMBOLS[op])
        g = out[key] = read(obs, r)
        area[key] = plane.area2(g) / 2 / f_area
        want = facts.get(key)
        if want is not None:
            if want[0] is not None:
                obs.check(area[key] == want[0], f'{key}: wrong area',
                          f'{family.__name__}({n}): {area[key]} for {want[0]}')
            if want[1] is not None:
                obs.check(len(g.polys) == want[1],
                          f'{key}: wrong number of polygons',
                          f'{family.__name__}({n}): {len(g.polys)} for '
                          f'{want[1]}')
                hs = sum(len(h) for _, h in g.polys)
                obs.check(hs == want[2], f'{key}: wrong number of holes',
                          f'{family.__name__}({n}): {hs} for {want[2]}')
    sa, sb = (plane.area2(g) / 2 / f_area for g in (a, b))
    for name, left, right in (
            ('| and &', area['|'] + area['&'], sa + sb),
            ('- and &', area['a-b'] + area['&'], sa),
            ('swapped - and &', area['b-a'] + area['&'], sb),
            ('^', area['^'], area['a-b'] + area['b-a'])):
        obs.check(left == right, f'areas of {name} do not add up',
                  f'{family.__name__}({n})')
    for src in (a, b):
        for p in some_points(rng, src, 8):
            la, lb = plane.locate(a, p), plane.locate(b, p)
            if plane.BOUNDARY in (la, lb):
                continue
            ia, ib = (v == plane.INTERIOR for v in (la, lb))
            for key, want in (('&', ia and ib), ('|', ia or ib),
                              ('a-b', ia and not ib), ('b-a', ib and not ia),
                              ('^', ia != ib)):
                got = plane.locate(out[key], p)
                obs.check((got == plane.INTERIOR) is want
                          and got != plane.BOUNDARY,
                          f'{key}: wrong membership of a point',
                          f'{family.__name__}({n}) at {plane.show_pt(p)}')
                obs.hit('probe')
    relate(rng, obs, family.__name__, n, x, y, facts, effort)
    return effort, size(obs, a, b, out['^'])


COMPLEMENT = {'COMPONENT': 'COMPOSITE', 'COVER': 'WITHIN',
              'ENCLOSED': 'ENCLOSES', 'COMPOSITE': 'COMPONENT',
              'WITHIN': 'COVER', 'ENCLOSES': 'ENCLOSED'}


def size(obs, *gs):
    n = sum(len(g.edges()) for g in gs)
    if n > 256:
        obs.hit('more than 256 edges')
    return n


def relate(rng, obs, name, n, x, y, facts, effort):
    r, effort['relate_to'] = call(obs, f'relate_to of {name}', x.relate_to, y)
    obs.hit('relate_to')
    want = facts['relation']
    obs.check(r.name == want, f'relates as {r.name} for {want}',
              f'{name}({n})')
    r, effort['relate_to back'] = call(obs, f'relate_to of {name}',
                                       y.relate_to, x)
    want = COMPLEMENT.get(want, want)
    obs.check(r.name == want, f'relates as {r.name} for {want}',
              f'{name}({n}) swapped')


def linear_ops(rng, obs, family, n, f):
    gs, facts = family(n)
    a, b = (gen.map_geo(gs[k], f) for k in 'ab')
    with default_recursion():
        x, y = obs.run(conv.rene, a), obs.run(conv.rene, b)
    mixed = a.dim != b.dim
    effort, out = {}, {}
    plain = (f.m[1] == f.m[2] == 0 and abs(f.m[0]) == abs(f.m[3]))
    for key in ('&', '|', 'a-b', 'b-a', '^'):
        if mixed and key not in ('&', 'b-a'):
            continue
        op = {v: k for k, v in SYMBOLS.items()}[key.strip('ab')]
        u, v = (y, x) if key == 'b-a' or key in '&|^' and rng.random() < .5 \
            else (x, y)
        r, effort[key] = call(obs, f'{key} of {family.__name__}', OPS[op],
                              u, v)
        obs.hit(SYMBOLS[op])
        g = out[key] = read(obs, r)
        want = facts.get(key)
        if want is not None:
            if plain and want[0] is not None:
                # measure of the unmapped picture
                got = l1(g) / abs(f.m[0])
                obs.check(want[0] in (got, None)
                          or family in (zig, star), f'{key}: wrong length',
                          f'{family.__name__}({n}): {got} for {want[0]}')
            if want[0] == 0:
                obs.check(g.kind == 'empty', f'{key}: not empty',
                          f'{family.__name__}({n})')
            if want[1] is not None:
                obs.check(len(g.edges()) == want[1],
                          f'{key}: wrong number of segments',
                          f'{family.__name__}({n}): {len(g.edges())} for '
                          f'{want[1]}')
    # lengths add up whatever the map, piece by piece
    if mixed:
        obs.check(l1(out['&']) + l1(out['b-a']) == l1(b),
                  'lengths of & and - do not add up',
                  f'{family.__name__}({n})')
    else:
        for name, left, right in (
                ('| and &', l1(out['|']) + l1(out['&']), l1(a) + l1(b)),
                ('- and &', l1(out['a-b']) + l1(out['&']), l1(a)),
                ('^', l1(out['^']), l1(out['a-b']) + l1(out['b-a']))):
            obs.check(left == right, f'lengths of {name} do not add up',
                      f'{family.__name__}({n})')
    for src in (a, b):
        for p in some_points(rng, src, 6):
            ia, ib = (plane.locate(g, p) for g in (a, b))
            if mixed and ia == plane.BOUNDARY:
                continue
            ia, ib = ia != plane.EXTERIOR, ib != plane.EXTERIOR
            if ia and ib and not mixed:
                continue
            for key, want in (('&', ia and ib), ('|', ia or ib),
                              ('a-b', ia and not ib), ('b-a', ib and not ia),
                              ('^', ia != ib)):
                if key in out:
                    got = plane.locate(out[key], p) != plane.EXTERIOR
                    obs.check(got is want,
                              f'{key}: wrong membership of a point',
                              f'{family.__name__}({n}) at '
                              f'{plane.show_pt(p)}')
                    obs.hit('probe')
    relate(rng, obs, family.__name__, n, x, y, facts, effort)
    return effort, size(obs, a, b, out['&' if mixed else '|'])


def validity(rng, obs, family, n, f):
    gs, _ = family(n)
    effort = {}
    total = 0
    for k in 'ab':
        g = gen.map_geo(gs[k], f)
        with default_recursion():
            if g.dim == 2:
                rings = [r for b, hs in g.polys for r in (b, *hs)]
                r = max(rings, key=len)
                es = [e for q in rings for e in plane.ring_edges(q)]
                xs = {'contour': rx.Contour([conv.rpt(p) for p in r]),
                      'multisegment': conv.rene(plane.mseg(es))}
            else:
                es = g.edges()
                xs = {'multisegment': conv.rene(plane.mseg(es))}
        for name, x in xs.items():
            v, effort[f'{k} {name}'] = call(obs, f'is_valid of {name}',
                                            x.is_valid)
            obs.hit('is_valid')
            obs.check(v is True, f'{name} reported invalid',
                      f'{family.__name__}({n})')
        total += size(obs, plane.mseg(es))
        # a short segment across the middle of one of them
        p, q = rng.choice(es)
        (ax, ay), (bx, by) = plane.xy(p), plane.xy(q)
        h = Fraction(1, 1000 + 10 * n)
        u = plane.xy(gen.lerp(p, q, Fraction(rng.randint(1, 6), 7)))
        s = rng.choice(['cross', 'overlap', 'touch'])
        c = pt(u[0] - (by - ay) * h, u[1] + (bx - ax) * h)
        d = (pt(u[0] + (by - ay) * h, u[1] - (bx - ax) * h) if s == 'cross'
             else pt(u[0] + (bx - ax) * h, u[1] + (by - ay) * h))
        extra = (pt(*u), d) if s == 'overlap' else (
            (c, pt(*u)) if s == 'touch' else (c, d))
        more = es + [extra]
        rng.shuffle(more)
        with default_recursion():
            x = conv.rene(plane.mseg(more))
        v, _ = call(obs, 'is_valid', x.is_valid)
        obs.check(v is (s == 'touch'), f'{s} of one segment with another: '
                  f'validity is {v}', f'{family.__name__}({n})')
        obs.hit('invalid seen' if s != 'touch' else 'contact seen')
    return effort, total


def trapezoids(rng, obs, family, n, f):
    gs, _ = family(n)
    g = gen.map_geo(gs['a'], f)
    if g.dim == 2:
        g = plane.poly(*max(g.polys, key=lambda p: len(p[0]) + sum(
            map(len, p[1]))))
    else:
        g = plane.mseg(g.edges())
    m = len(g.edges())
    make = (rx.Trapezoidation.from_polygon if g.dim == 2
            else rx.Trapezoidation.from_multisegment)
    with default_recursion():
        x = conv.rene(g)
    s = rng.randrange(sys.maxsize)
    t, calls = call(obs, 'trapezoidation', lambda: make(x, seeder=lambda: s))
    h, _ = call(obs, 'height', lambda: t.height)
    obs.check(type(h) is int and 0 < h <= 3 * m, 'height out of bounds',
              f'{h} for {m} edges')
    for p in some_points(rng, g, 40):
        want = plane.locate(g, p)
        got, _ = call(obs, 'locate', t.locate, conv.rpt(p))
        obs.check(got.name == want, f'locates {got.name} for {want}',
                  f'{family.__name__}({n}) seed {s} at {plane.show_pt(p)}')
        obs.hit(want)
    obs.hit('trapezoidation')
    return {'trapezoidation': calls}, size(obs, g)


def locations(rng, obs, family, n, f):
    gs, _ = family(n)
    effort = {}
    total = 0
    for k in 'ab':
        g = gen.map_geo(gs[k], f)
        with default_recursion():
            x = obs.run(conv.rene, g)
        worst = 0
        for p in some_points(rng, g, 25):
            want = plane.locate(g, p)
            q = conv.rpt(p)
            got, c = call(obs, 'locate', x.locate, q)
            worst = max(worst, c)
            obs.check(got.name == want, f'locates {got.name} for {want}',
                      f'{family.__name__}({n}) at {plane.show_pt(p)}')
            obs.hit(want)
        effort[k] = worst
        total += size(obs, g)
    return effort, total


def identity(rng, obs, family, n, f):
    """equality, hash, text and views of large geometries"""
    gs, _ = family(n)
    effort = {}
    total = 0
    for k in 'ab':
        g = gen.map_geo(gs[k], f)
        h = gen.rewrite(rng, g)
        with default_recursion():
            x, y = obs.run(conv.rene, g), obs.run(conv.rene, h)
        r, effort[f'{k} =='] = call(obs, '==', lambda: x == y)
        obs.check(r is True, 'rewritten geometry not equal',
                  f'{family.__name__}({n})')
        (p, q), effort[f'{k} hash'] = call(obs, 'hash',
                                           lambda: (hash(x), hash(y)))
        obs.check(p == q, 'equal geometries with different hashes',
                  f'{family.__name__}({n})')
        r, effort[f'{k} repr'] = call(obs, 'repr', lambda: repr(x))
        obs.check(r.count('Point(') == len(list(
            g.points() if g.kind not in ('polygon', 'multipolygon', 'contour')
            else [v for b, hs in g.polys for q in (b, *hs) for v in q]
            or g.verts)) or g.dim == 1, 'repr lacks points', f'{n}')
        box, effort[f'{k} box'] = call(obs, 'bounding_box',
                                       lambda: x.bounding_box)
        xs, ys = zip(*map(plane.xy, g.points()))
        obs.check([conv.num(v) for v in (box.min_x, box.max_x, box.min_y,
                                         box.max_y)]
                  == [min(xs), max(xs), min(ys), max(ys)],
                  'bounding box differs', f'{family.__name__}({n})')
        if g.dim == 1:
            n_, effort[f'{k} views'] = call(
                obs, 'views', lambda: (len(x.segments), len(list(x.segments)),
                                       len(x.segments[::-1])))
            obs.check(n_ == (len(g.edges()),) * 3, 'views differ in length')
        total += size(obs, g)
    obs.hit('identity')
    return effort, total


def cloud(rng, n, kind):
    if kind == 0:
        k = max(3, round(n ** 0.5))
        ps = [(i, j) for i in range(k) for j in range(k)]
    elif kind == 1:
        ps = [(i, i * i) for i in range(n)]
    elif kind == 2:
        ps = [(i, 0) for i in range(n - 1)] + [(n // 2, 7)]
    elif kind == 3:
        ps = [(rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 6))
              for _ in range(n)]
    elif kind == 4:
        # points of one circle
        ps = []
        for i in range(n):
            t = Fraction(2 * i - n + 1, 7)
            ps.append(((1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)))
    else:
        ps = [(0, i) for i in range(n // 2)] + [
            (i + 1, 0) for i in range(n // 2)]
    return ring(ps)


def delaunay(rng, obs, kind, n, f):
    pts = [f(p) for p in cloud(random.Random(n), n, kind)]
    rng.shuffle(pts)
    with default_recursion():
        ps = [conv.rpt(p) for p in pts]
    t, calls = call(obs, 'Delaunay triangulation',
                    rx.DelaunayTriangulation.from_points, ps)
    trs, _ = call(obs, 'triangles', lambda: t.triangles)
    tris = [[conv.P(v) for v in c.vertices] for c in trs]
    tris = [r if plane.orient(*r) > 0 else r[::-1] for r in tris]
    hull = tri.hull(pts)
    obs.check(tri.area2(tris) == plane.ring_area2(hull),
              'triangles do not fill the hull', f'cloud {kind} of {n}')
    directed = {}
    for r in tris:
        for i in range(3):
            directed[r[i - 1], r[i]] = r[(i + 1) % 3]
    obs.check(len(directed) == 3 * len(tris), 'triangles overlap',
              f'cloud {kind} of {n}')
    obs.check({v for r in tris for v in r} == set(pts),
              'points left out', f'cloud {kind} of {n}')
    bad = tri.not_delaunay(directed)
    obs.check(bad is None, 'not Delaunay', bad)
    b, _ = call(obs, 'border', lambda: t.border)
    obs.check(tri.canonical_ring(tri.shrink([conv.P(v) for v in b.vertices]))
              == tri.canonical_ring(hull), 'border is not the hull',
              f'cloud {kind} of {n}')
    obs.hit('delaunay')
    if n > 256:
        obs.hit('more than 256 edges')
    return {'delaunay': calls}, len(pts)


def constrained(rng, obs, family, n, f):
    gs, _ = family(n)
    g = gen.map_geo(gs['a'], f)
    g = plane.poly(*max(g.polys, key=lambda p: len(p[0]) + sum(
        map(len, p[1]))))
    with default_recursion():
        x = conv.rene(g)
    t, calls = call(obs, 'constrained triangulation',
                    rx.ConstrainedDelaunayTriangulation.from_polygon, x)
    trs, _ = call(obs, 'triangles', lambda: t.triangles)
    tris = [[conv.P(v) for v in c.vertices] for c in trs]
    tris = [r if plane.orient(*r) > 0 else r[::-1] for r in tris]
    obs.check(tri.area2(tris) == plane.area2(g),
              'triangles do not fill the polygon', f'{family.__name__}({n})')
    directed = {}
    for r in tris:
        for i in range(3):
            directed[r[i - 1], r[i]] = r[(i + 1) % 3]
    obs.check(len(directed) == 3 * len(tris), 'triangles overlap',
              f'{family.__name__}({n})')
    fixed = {sorted_seg(*e) for e in g.edges()}
    single = {sorted_seg(p, q) for p, q in directed
              if (q, p) not in directed}
    obs.check(single == fixed, 'border of the triangles is not the border of '
              'the polygon', f'{family.__name__}({n})')
    bad = tri.not_delaunay(directed, fixed)
    obs.check(bad is None, 'not Delaunay', bad)
    obs.hit('constrained delaunay')
    return {'constrained delaunay': calls}, size(obs, g)


KINDS = (('shaped', 5), ('linear', 4), ('mixed', 3), ('valid', 3),
         ('trapezoids', 3), ('delaunay', 2), ('constrained', 2),
         ('locate', 2), ('identity', 2), ('long', 3))
BAG = [k for k, w in KINDS for _ in range(w)]
JOBS = {'shaped': (shaped_ops, SHAPED), 'linear': (linear_ops, LINEAR),
        'valid': (validity, SHAPED + LINEAR),
        'trapezoids': (trapezoids, SHAPED + LINEAR),
        'constrained': (constrained, SHAPED),
        'locate': (locations, SHAPED + LINEAR),
        'identity': (identity, SHAPED + LINEAR),
        'delaunay': (delaunay, range(6))}
LONG = ((trapezoids, (convex, chain, dashes, zig), 4),
        (validity, SHAPED + LINEAR, 3), (locations, SHAPED + LINEAR, 2),
        (identity, SHAPED + LINEAR, 2), (shaped_ops, (plate, convex, stairs), 1),
        (linear_ops, (chain, dashes, teeth), 1))
TOP = {'constrained': 40, 'delaunay': 900, 'locate': 300, 'identity': 300,
       'trapezoids': 150, 'valid': 150}


def case(rng, obs):
    kind = rng.choice(BAG)
    f = gen.affine(rng)
    # mostly moderate, now and then large
    n = int(16 * (TOP.get(kind, 90) / 16) ** rng.random())
    if kind == 'long':
        n = rng.randint(1000, 1150)
        work, families, _ = rng.choices(LONG, [w for *_, w in LONG])[0]
        family = rng.choice(families)
        name = f'{work.__name__} of {family.__name__}'
    elif kind == 'mixed':
        k = rng.randrange(10 ** 9)

        def family(n):
            return mix(random.Random(k), n)
        family.__name__ = name = 'mixed'
        work = linear_ops
    else:
        work, families = JOBS[kind]
        family = rng.choice(families)
        name = getattr(family, '__name__', f'cloud {family}')
    if name == 'cloud 4':
        # a similarity keeps the points on a circle
        s = Fraction(rng.randint(1, 9), 7)
        f = gen.Affine(s, 0, 0, s, 1, 3)
    obs.given(what=f'{kind} {name} n={n} under {f.m}')
    if kind == 'long':
        work(rng, obs, family, n, f)
        obs.hit('more than 1000 edges')
    else:
        grow(rng, obs, kind, name, work, family, n, f)
    obs.hit(f'{kind} {name}')
    obs.nontrivial(kind, name, n, f.m)


RATIO = []


def grow(rng, obs, kind, name, work, family, n, f):
    first, s = work(rng, obs, family, n, f)
    second, t = work(rng, obs, family, 3 * n, f)
    exponent = next(e for top, e in EXPONENT.get(kind, SWEEP)
                    if top is None or n <= top)
    factor = SLACK * max(t / s, 1) ** exponent
    for k, small in first.items():
        big = second.get(k)
        if big is not None:
            RATIO.append((kind, name, k, n, s, t, small, big))
            obs.check(big <= factor * small + GRACE, 'work grows too fast',
                      f'{k} of {kind} {name}: {small} calls for size {s}, '
                      f'{big} for {t}')
            obs.hit('growth')
