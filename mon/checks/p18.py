"""P18: every operator is total and consistent on its documented domain, Empty
is its neutral or absorbing element and foreign operands are refused."""
from rene import exact as rx

from mon import conv, gen, plane

from .common import OPS, SYMBOLS, build, read, skeleton, supported
from .p06 import queries

PROPERTY = 'P18'
QUICK = 4000
THOROUGH = 300
RULE = ('geometries of every kind against themselves, Empty, every other '
        'kind and foreign values under every operator and relation, in both '
        'positions; unsupported combinations must raise TypeError or give '
        'the exact answer; foreign operands with their own reflected '
        'operators must be given their turn; non-trivial always')
ASSUMPTIONS = ('operands are valid geometries',)
REQUIRE = {'with Empty': 3000, 'with itself': 3000, 'foreign': 3000,
           'outside the domain': 500, 'reflected': 1000,
           **{f'{a} op {b}': 10 for a in
              ('segment', 'multisegment', 'contour', 'polygon',
               'multipolygon') for b in
              ('segment', 'multisegment', 'contour', 'polygon',
               'multipolygon')}}


class Other:
    """a foreign operand with operators of its own"""

    def __init__(self, log):
        self.log = log

    def _r(self, name):
        self.log.append(name)
        return ('foreign', name)

    def __rand__(self, o):
        return self._r('and')

    def __ror__(self, o):
        return self._r('or')

    def __rsub__(self, o):
        return self._r('sub')

    def __rxor__(self, o):
        return self._r('xor')


def refused(obs, f, what, errors=(TypeError,)):
    try:
        r = obs.run(f, what=what, allow=errors)
    except errors:
        return
    obs.fail(f'{what} accepted', lambda: repr(r)[:300])


def case(rng, obs):
    a, b = gen.pair(rng, size=rng.choice([1, 2, 3]))
    x, y = build(obs, a, rng), build(obs, b, rng)
    obs.given(a=lambda: x, b=lambda: y)
    empty = obs.run(rx.Empty)
    with_empty(obs, rng, a, x, empty)
    with_itself(obs, rng, a, x)
    # every pair of kinds
    for op in OPS:
        if supported(op, a, b):
            r = obs.run(OPS[op], x, y, what=SYMBOLS[op])
            g = read(obs, r)
            obs.check(g.kind == 'empty' or plane.canon(g)[1],
                      'result covers nothing but is not Empty')
        else:
            obs.hit('outside the domain')
            try:
                r = obs.run(OPS[op], x, y, what=SYMBOLS[op], allow=TypeError)
            except TypeError:
                continue
            g = read(obs, r)
            if op == 'sub' or (op == 'or' and g.dim == 2):
                # a later version may support it, but then exactly
                d = plane.check_boolean(op, a, b, g)
                if d:
                    obs.fail('wrong answer outside the documented domain', d)
    obs.hit(f'{a.kind} op {b.kind}')
    foreign(obs, rng, rng.choice([x, empty, y]))
    obs.nontrivial(a.kind, a.segs, a.polys, b.kind, b.segs, b.polys)


def with_empty(obs, rng, a, x, e):
    def is_empty(f, what):
        r = obs.run(f, what=what)
        obs.check(type(r).__name__ == 'Empty' and r == e,
                  f'{what} is not Empty', lambda: repr(r)[:300])

    def is_x(f, what):
        r = obs.run(f, what=what)
        obs.check(r == x, f'{what} is not the operand',
                  lambda: repr(r)[:300])
    is_empty(lambda: x & e, f'{a.kind} & Empty')
    is_empty(lambda: e & x, f'Empty & {a.kind}')
    is_empty(lambda: e - x, f'Empty - {a.kind}')
    is_x(lambda: x - e, f'{a.kind} - Empty')
    is_x(lambda: x | e, f'{a.kind} | Empty')
    is_x(lambda: e | x, f'Empty | {a.kind}')
    is_x(lambda: x ^ e, f'{a.kind} ^ Empty')
    is_x(lambda: e ^ x, f'Empty ^ {a.kind}')
    for op in OPS:
        is_empty(lambda: OPS[op](e, e), f'Empty {SYMBOLS[op]} Empty')
    for u, v, want in ((x, e, 'DISJOINT'), (e, x, 'DISJOINT'),
                       (e, e, 'EQUAL')):
        r = obs.run(u.relate_to, v, what='relate_to')
        obs.check(r.name == want, f'relation with Empty is {r.name}')
    obs.check((x == e) is False and (e == x) is False and (e != x) is True,
              f'{a.kind} equals Empty')
    p = conv.rpt(rng.choice(a.points()))
    obs.check(e.locate(p).name == 'EXTERIOR' and p not in e,
              'a point found in Empty')
    obs.check(rx.Empty() == e and hash(rx.Empty()) == hash(e),
              'two Empty differ')
    obs.hit('with Empty')


def with_itself(obs, rng, a, x):
    want = plane.canon(a)
    z = x
    if rng.random() < 0.5:
        z = build(obs, gen.rewrite(rng, a))
    for op in ('and', 'or'):
        g = read(obs, obs.run(OPS[op], x, z, what=SYMBOLS[op]))
        d = plane.defects(g)
        if d:
            obs.fail('malformed result ' + skeleton(d), d)
        obs.check(plane.canon(g) == want,
                  f'{a.kind} {SYMBOLS[op]} itself is something else')
    for op in ('sub', 'xor'):
        r = obs.run(OPS[op], x, z, what=SYMBOLS[op])
        obs.check(type(r).__name__ == 'Empty',
                  f'{a.kind} {SYMBOLS[op]} itself is not Empty',
                  lambda: repr(r)[:300])
    r = obs.run(x.relate_to, z, what='relate_to')
    obs.check(r.name == 'EQUAL', f'{a.kind} relates to itself as {r.name}')
    obs.hit('with itself')


def foreign(obs, rng, x):
    for f in (None, 1, 0.5, 'x', [x], rx.Point(0, 0), rx.Box(0, 1, 0, 1)):
        op = rng.choice(list(OPS))
        refused(obs, lambda: OPS[op](x, f), 'operator on a foreign operand')
        refused(obs, lambda: OPS[op](f, x), 'operator on a foreign operand')
        if type(x).__name__ != 'Empty':
            refused(obs, lambda: x.relate_to(f), 'relation to a foreign value')
        obs.hit('foreign')
    log = []
    o = Other(log)
    for op in OPS:
        r = obs.run(OPS[op], x, o, what=SYMBOLS[op])
        obs.check(r == ('foreign', op), 'reflected operator ignored')
        obs.hit('reflected')
