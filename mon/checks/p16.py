"""P16: coordinates are exact whatever number type they come in, points are
ordered lexicographically, text gives the geometry back."""
import re
from fractions import Fraction

from rithm.fraction import Fraction as RFraction
from rithm.integer import Int as RInt

from rene import constants, enums, exact as rx

from mon import conv, gen, plane

from .common import build

PROPERTY = 'P16'
QUICK = 60000
THOROUGH = 300
RULE = ('numbers of every accepted type (int, bool-free, float down to '
        'subnormals, Fraction, rithm Int and Fraction, huge and tiny) through '
        'points and boxes and back; pairs of points around ties compared by '
        'all six operators and sorted; repr and str of random geometries '
        'evaluated back; non-numbers, NaN, infinities and too few components '
        'offered to constructors; non-trivial when a non-integer is involved')
ASSUMPTIONS = ()
REQUIRE = {'float': 1000, 'Fraction': 1000, 'rithm': 1000, 'int': 1000,
           'text read back': 3000, 'refused': 2000, 'tie': 1000, 'enumerations': 50,
           'least counts': 50}
NAMES = {n: getattr(rx, n) for n in ('Box', 'Contour', 'Empty', 'Multipolygon',
                                     'Multisegment', 'Point', 'Polygon',
                                     'Segment')}
NAMES.update(Fraction=RFraction, Int=RInt, __builtins__={})


def number(rng):
    """-> (value to pass, exact Python value, type label)"""
    k = rng.randrange(6)
    if k == 0:
        v = rng.choice([rng.randint(-5, 5), rng.randint(-10 ** 40, 10 ** 40),
                        2 ** 63, -2 ** 64 - 1, 2 ** 1024, -10 ** 330])
        return v, v, 'int'
    if k == 1:
        v = rng.choice([rng.uniform(-4, 4), rng.gauss(0, 1e300), 5e-324,
                        -0.0, 0.1, 1e308, -2.5, rng.random() * 1e-300,
                        float(rng.randint(-4, 4))])
        if v != v or v in (float('inf'), float('-inf')):
            v = 1e308
        return v, Fraction(v), 'float'
    if k == 2:
        v = Fraction(rng.randint(-99, 99), 
                     rng.choice([1, 2, 3, 7, 10 ** 30, 10 ** 330]))
        return v, v, 'Fraction'
    if k == 3:
        n, d = rng.randint(-99, 99), rng.choice([1, 2, 3, 6, 10 ** 30 + 9])
        return RFraction(n, d), Fraction(n, d), 'rithm'
    if k == 4:
        n = rng.choice([rng.randint(-9, 9), 10 ** 50])
        return RInt(n), n, 'rithm'
    n = rng.randint(-3, 3)
    return n, n, 'int'


def near(rng, v):
    return rng.choice([0, 0, 0, 1, -1, Fraction(1, 10 ** 30),
                       -Fraction(1, 10 ** 30)]) + v


def refuse(obs, errors, f, *args):
    try:
        r = obs.run(f, *args, allow=(ValueError, OverflowError, TypeError))
    except errors:
        obs.hit('refused')
    except (ValueError, OverflowError, TypeError) as e:
        obs.fail('refused with another error', repr(e))
    else:
        obs.fail(f'{f.__name__} accepts what it must refuse',
                 lambda: f'{args!r}: {r!r}')


def case(rng, obs):
    k = rng.randrange(4)
    if k == 0:
        values(rng, obs)
    elif k == 1:
        order(rng, obs)
    elif k == 2:
        text(rng, obs)
    else:
        refusals(rng, obs)


def values(rng, obs):
    (a, ea, la), (b, eb, lb) = number(rng), number(rng)
    obs.given(a=lambda: a, b=lambda: b)
    p = obs.run(rx.Point, a, b, what='Point')
    obs.check(conv.num(p.x) == ea and conv.num(p.y) == eb,
              f'coordinates of a point from {la} and {lb} changed',
              lambda: repr(p))
    q = obs.run(rx.Point, Fraction(ea), RFraction(Fraction(eb)), what='Point')
    obs.check(p == q and hash(p) == hash(q) and not p != q,
              'equal points from different number types differ',
              lambda: f'{p!r}, {q!r}')
    lo, hi = sorted([(ea, a), (eb, b)], key=lambda t: t[0])
    box = obs.run(rx.Box, lo[1], hi[1], lo[1], hi[1], what='Box')
    obs.check((conv.num(box.min_x), conv.num(box.max_x), conv.num(box.min_y),
               conv.num(box.max_y)) == (lo[0], hi[0], lo[0], hi[0]),
              'coordinates of a box changed', lambda: repr(box))
    s = obs.run(rx.Segment, p, rx.Point(b, a))
    obs.check(s.start == p and conv.num(s.end.x) == eb,
              'endpoints of a segment changed')
    if ea != eb:
        obs.check(obs.run(lambda: p in s) and obs.run(lambda: s.end in s),
                  'endpoint not on its segment', lambda: repr(s))
        m = rx.Point(Fraction(ea + eb) / 2, Fraction(ea + eb) / 2)
        obs.check(obs.run(lambda: m in s), 'midpoint not on its segment',
                  lambda: f'{m!r} {s!r}')
        off = rx.Point(Fraction(ea + eb) / 2,
                       Fraction(ea + eb) / 2 + Fraction(1, 10 ** 400))
        obs.check(obs.run(lambda: off not in s),
                  'point off a segment found on it')
    obs.hit(la, lb)
    obs.nontrivial(repr(a), repr(b))


def order(rng, obs):
    (a, ea, la), (b, eb, lb) = number(rng), number(rng)
    p = rx.Point(a, b)
    ex, ey = near(rng, ea), near(rng, eb)
    q = rx.Point(ex, ey)
    obs.given(p=lambda: p, q=lambda: q)
    u, v = (ea, eb), (ex, ey)
    for name, got, want in (
            ('<', lambda: p < q, u < v), ('<=', lambda: p <= q, u <= v),
            ('>', lambda: p > q, u > v), ('>=', lambda: p >= q, u >= v),
            ('==', lambda: p == q, u == v), ('!=', lambda: p != q, u != v)):
        r = obs.run(got, what=name)
        obs.check(r is want, f'points compare {name} as {r}')
    if u[0] == v[0] or u[1] == v[1]:
        obs.hit('tie')
    pts = [gen.rnd_pt(rng, 2, rng.choice([1, 1, 2, 3])) for _ in range(8)]
    got = [conv.P(t) for t in obs.run(sorted, [conv.rpt(t, rng) for t in pts],
                                      what='sorted')]
    obs.check(got == sorted(pts, key=plane.key), 'points sort wrongly')
    obs.nontrivial(repr(a), repr(b), repr(v))


NUMBER = re.compile(r'-?\d+(/\d+)?')


ENUMS = {n: getattr(enums, n) for n in ('Location', 'Orientation', 'Relation')}


def members(obs):
    for cls in ENUMS.values():
        for m in cls.__members__.values():
            r = obs.run(repr, m, what='repr')
            try:
                y = eval(r, dict(ENUMS, __builtins__={}))
            except Exception as e:
                obs.fail('repr of an enumeration does not evaluate',
                         f'{r}: {e!r}')
            obs.check(y is m and y == m and hash(y) == hash(m),
                      'repr of an enumeration gives another member', r)
            for o in cls.__members__.values():
                obs.check((m == o) is (m is o) and (m != o) is (m is not o),
                          'members of an enumeration compare wrongly',
                          f'{m!r} {o!r}')
    obs.hit('enumerations')
    obs.nontrivial('enumerations')


def least(rng, obs):
    """exactly as many components as the constants demand are enough"""
    n = constants.MIN_CONTOUR_VERTICES_COUNT
    pts = [conv.rpt((i, i * i, 1), rng) for i in range(n)]
    c = obs.run(rx.Contour, pts, what='Contour')
    obs.check(len(c.vertices) == n, 'least contour loses vertices')
    refuse(obs, ValueError, rx.Contour, pts[:-1])
    n = constants.MIN_MULTISEGMENT_SEGMENTS_COUNT
    segs = [rx.Segment(rx.Point(i, 0), rx.Point(i, 1)) for i in range(n)]
    c = obs.run(rx.Multisegment, segs, what='Multisegment')
    obs.check(len(c.segments) == n, 'least multisegment loses segments')
    refuse(obs, ValueError, rx.Multisegment, segs[:-1])
    n = constants.MIN_MULTIPOLYGON_POLYGONS_COUNT
    pgs = [rx.Polygon(rx.Contour([rx.Point(2 * i, 0), rx.Point(2 * i + 1, 0),
                                  rx.Point(2 * i, 1)]), []) for i in range(n)]
    c = obs.run(rx.Multipolygon, pgs, what='Multipolygon')
    obs.check(len(c.polygons) == n, 'least multipolygon loses polygons')
    refuse(obs, ValueError, rx.Multipolygon, pgs[:-1])
    obs.hit('least counts')
    obs.nontrivial('least', repr(pts))


def text(rng, obs):
    k = rng.random()
    if k < 0.02:
        return members(obs)
    if k < 0.04:
        return least(rng, obs)
    if k < 0.1:
        (a, ea, _), (b, eb, _) = number(rng), number(rng)
        x = rx.Point(a, b)
    elif k < 0.2:
        v = [number(rng)[0] for _ in range(4)]
        x = rx.Box(*v)
    else:
        g = gen.any_geo(rng) if k < 0.97 else plane.empty()
        x = build(obs, g, rng)
    obs.given(x=lambda: x)
    r = obs.run(repr, x, what='repr')
    try:
        y = eval(r, dict(NAMES))
    except Exception as e:
        obs.fail('repr does not evaluate', f'{r[:300]}: {e!r}')
    obs.check(type(y) is type(x) and y == x and repr(y) == r,
              'repr evaluates to something else', r[:300])
    s = obs.run(str, x, what='str')
    try:
        y = eval(NUMBER.sub(lambda m: f"Fraction({m[0].replace('/', ', ')})",
                            s), dict(NAMES))
    except Exception as e:
        obs.fail('str does not evaluate', f'{s[:300]}: {e!r}')
    obs.check(type(y) is type(x) and y == x,
              'str describes something else', s[:300])
    obs.check(obs.run(lambda: f'{x}', what='format') == s,
              'format differs from str')
    obs.hit('text read back')
    obs.nontrivial(r)


def refusals(rng, obs):
    good = number(rng)[0]
    for bad, e in ((float('nan'), ValueError), (float('inf'), OverflowError),
                   (float('-inf'), OverflowError), ('1', TypeError),
                   (1j, TypeError), ([1], TypeError)):
        refuse(obs, e, rx.Point, *rng.choice([(bad, good), (good, bad)]))
        args = [good] * 4
        args[rng.randrange(4)] = bad
        refuse(obs, e, rx.Box, *args)
    n = rng.randint(0, 2)
    pts = [conv.rpt(gen.rnd_pt(rng, 5)) for _ in range(3)]
    refuse(obs, ValueError, rx.Contour, pts[:n])
    segs = [rx.Segment(pts[0], pts[1])]
    refuse(obs, ValueError, rx.Multisegment, segs[:rng.randint(0, 1)])
    ring = rx.Contour([rx.Point(0, 0), rx.Point(1, 0), rx.Point(0, 1)])
    refuse(obs, ValueError, rx.Multipolygon,
           [rx.Polygon(ring, [])][:rng.randint(0, 1)])
    for cls in (*[v for n, v in NAMES.items() if n[0].isupper()
                  and v.__module__.startswith('rene')],
                rx.DelaunayTriangulation, rx.Trapezoidation,
                rx.ConstrainedDelaunayTriangulation):
        refuse(obs, TypeError, type, 'Sub', (cls,), {})
    p = pts[0]
    for name in ('x', 'y'):
        try:
            setattr(p, name, good)
        except AttributeError:
            obs.hit('refused')
        else:
            obs.fail('coordinate of a point can be replaced')
    obs.nontrivial(repr(good))
