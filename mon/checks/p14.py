"""P14: box predicates and relation agree with the rectangles they stand
for."""
from fractions import Fraction

from rene import exact as rx

from mon import conv

from .p07 import COMPLEMENT

PROPERTY = 'P14'
QUICK = 500000
THOROUGH = 240
CHUNK = 200
RULE = ('every order type of two boxes (all pairs over a 4x4 grid of '
        'coordinates, flat and point-like boxes included, hit in turn), each '
        'under a random monotone map of the coordinates to integers, '
        'fractions, floats and huge values; non-trivial when not disjoint')
ASSUMPTIONS = ('boxes are valid; the relation is judged for boxes with area',)
REQUIRE = {'COVER': 40, 'WITHIN': 40, 'ENCLOSES': 100, 'ENCLOSED': 100,
           'EQUAL': 100, 'OVERLAP': 100, 'TOUCH': 100, 'DISJOINT': 100,
           'flat': 1000, 'invalid box': 500}

GRID = range(4)
SPANS = [(i, j) for i in GRID for j in GRID if i <= j]
PAIRS = [(a, b, c, d) for a in SPANS for b in SPANS for c in SPANS
         for d in SPANS]


def coords(rng):
    """four increasing numbers"""
    k = rng.randrange(5)
    if k == 0:
        return sorted(rng.sample(range(-20, 20), 4))
    if k == 1:
        out = set()
        while len(out) < 4:
            out.add(Fraction(rng.randint(-30, 30), rng.randint(1, 9)))
        return sorted(out)
    if k == 2:
        b = rng.choice([10 ** 30, -10 ** 30, 2 ** 64, -2 ** 63])
        return [b + i for i in sorted(rng.sample(range(-3, 4), 4))]
    if k == 3:
        h = Fraction(1, 10 ** 25)
        b = rng.choice([0, 1, Fraction(1, 3), -7])
        return [b + h * i for i in sorted(rng.sample(range(-3, 4), 4))]
    return [v / 8 for v in sorted(rng.sample(range(-40, 40), 4))]


def inside1(p, q):
    return q[0] < p[0] and p[1] < q[1]


def relation(a, b, c, d):
    """relation of the rectangle a x b to c x d (both with area)"""
    if a == c and b == d:
        return 'EQUAL'
    if a[1] < c[0] or c[1] < a[0] or b[1] < d[0] or d[1] < b[0]:
        return 'DISJOINT'
    if a[1] == c[0] or c[1] == a[0] or b[1] == d[0] or d[1] == b[0]:
        return 'TOUCH'
    if c[0] <= a[0] and a[1] <= c[1] and d[0] <= b[0] and b[1] <= d[1]:
        return 'WITHIN' if inside1(a, c) and inside1(b, d) else 'ENCLOSED'
    if a[0] <= c[0] and c[1] <= a[1] and b[0] <= d[0] and d[1] <= b[1]:
        return 'COVER' if inside1(c, a) and inside1(d, b) else 'ENCLOSES'
    return 'OVERLAP'


def num(v, rng):
    if isinstance(v, float) and rng.random() < 0.5:
        return v
    v = Fraction(v)
    return conv.scalar(v.numerator, v.denominator,
                       rng if rng.random() < 0.5 else None)




def case(rng, obs):
    a, b, c, d = PAIRS[rng.randrange(len(PAIRS))]
    if rng.random() < 0.5:
        while a[0] == a[1] or b[0] == b[1] or c[0] == c[1] or d[0] == d[1]:
            a, b, c, d = PAIRS[rng.randrange(len(PAIRS))]
    xs, ys = coords(rng), coords(rng)
    box = rx.Box

    def make(p, q):
        return obs.run(box, num(xs[p[0]], rng), num(xs[p[1]], rng),
                       num(ys[q[0]], rng), num(ys[q[1]], rng), what='Box')
    u, v = make(a, b), make(c, d)
    obs.given(first=lambda: u, second=lambda: v)
    for w, (p, q) in ((u, (a, b)), (v, (c, d))):
        for name, want in (('min_x', xs[p[0]]), ('max_x', xs[p[1]]),
                           ('min_y', ys[q[0]]), ('max_y', ys[q[1]])):
            obs.check(conv.num(getattr(w, name)) == Fraction(want),
                      'box attribute differs from its argument', name)
    eq = (a, b) == (c, d)
    disjoint = a[1] < c[0] or c[1] < a[0] or b[1] < d[0] or d[1] < b[0]
    for name, want in (
            ('is_valid', True), ('disjoint_with', disjoint),
            ('equals_to', eq)):
        got = obs.run(getattr(u, name), *(() if name == 'is_valid' else (v,)),
                      what=name)
        obs.check(got is want, f'{name} is {got}')
    obs.check((u == v) is eq and (u != v) is not eq, '== of boxes')
    if eq:
        obs.check(hash(u) == hash(v), 'equal boxes with different hashes')
        obs.hit('EQUAL')
    flat = a[0] == a[1] or b[0] == b[1] or c[0] == c[1] or d[0] == d[1]
    for name, want in (
            ('within', inside1(a, c) and inside1(b, d)),
            ('covers', inside1(c, a) and inside1(d, b))):
        got = obs.run(getattr(u, name), v, what=name)
        obs.check(got is want, f'{name} is {got}')
    if flat:
        obs.hit('flat')
        for name, back in (('touches', 'touches'), ('overlaps', 'overlaps'),
                           ('encloses', 'enclosed_by'),
                           ('enclosed_by', 'encloses')):
            obs.check(obs.run(getattr(u, name), v, what=name)
                      is obs.run(getattr(v, back), u, what=back),
                      f'{name} disagrees with {back} of swapped boxes')
        sub = (c[0] <= a[0] and a[1] <= c[1] and d[0] <= b[0]
               and b[1] <= d[1])
        got = obs.run(u.enclosed_by, v, what='enclosed_by')
        obs.check(got is (sub and not eq
                          and not (inside1(a, c) and inside1(b, d))),
                  f'enclosed_by is {got} for flat boxes')
        r, s = (obs.run(u.relate_to, v, what='relate_to'),
                obs.run(v.relate_to, u, what='relate_to'))
        obs.check(s is r.complement, 'flat boxes relate back wrongly',
                  f'{r!r} and {s!r}')
        obs.check((r.name == 'EQUAL') is eq
                  and (r.name == 'DISJOINT') is disjoint,
                  f'flat boxes relate as {r.name}')
        if disjoint:
            for name in ('encloses', 'enclosed_by', 'overlaps', 'touches'):
                got = obs.run(getattr(u, name), v, what=name)
                obs.check(got is False, f'{name} is {got} for disjoint boxes')
    else:
        want = relation(a, b, c, d)
        for name, rel in (('encloses', 'ENCLOSES'),
                          ('enclosed_by', 'ENCLOSED'), ('overlaps', 'OVERLAP'),
                          ('touches', 'TOUCH'), ('covers', 'COVER'),
                          ('within', 'WITHIN')):
            got = obs.run(getattr(u, name), v, what=name)
            obs.check(got is (want == rel), f'{name} is {got} for {want}')
        got = obs.run(u.relate_to, v, what='relate_to')
        obs.check(getattr(got, 'name', got) == want,
                  f'boxes relate as {getattr(got, "name", got)} for {want}')
        back = obs.run(v.relate_to, u, what='relate_to')
        obs.check(back is got.complement
                  and back.name == COMPLEMENT.get(want, want),
                  f'boxes relate back as {back!r} for {want}')
        obs.hit(want)
    if not disjoint:
        obs.nontrivial(a, b, c, d, xs, ys)
    if rng.random() < 0.1:
        p, q = rng.choice(SPANS), rng.choice(SPANS)
        if rng.random() < 0.7:
            p = p[::-1]
        else:
            q = q[::-1]
        w = make(p, q)
        want = p[0] <= p[1] and q[0] <= q[1]
        obs.check(obs.run(w.is_valid, what='is_valid') is want,
                  'is_valid of a box', lambda: repr(w))
        if not want:
            obs.hit('invalid box')


