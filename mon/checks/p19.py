"""P19: relations, operators and point locations tell one story."""
from rene import exact as rx

from mon import conv, gen, plane

from .common import boolean, build, read, supported
from .p06 import queries

PROPERTY = 'P19'
QUICK = 5000
THOROUGH = 480
RULE = ('operand pairs (a fifth with tens to hundreds of edges): the relation '
        'is confronted with which of the intersection, differences and '
        'symmetric difference are Empty, with the location of points of one '
        'operand in the other and with the boxes; the location of points in '
        'every result is confronted with their locations in the operands; '
        'non-trivial when the operands are not disjoint')
ASSUMPTIONS = ('operands are valid geometries',)
REQUIRE = {'OVERLAP': 200, 'TOUCH': 100, 'CROSS': 100, 'DISJOINT': 100,
           'subset': 300, 'EQUAL': 50, 'point of a result': 20000,
           'point inside both': 500, 'more than 80 edges': 80}
SUBSET = ('EQUAL', 'WITHIN', 'ENCLOSED', 'COMPONENT')
SUPERSET = ('EQUAL', 'COVER', 'ENCLOSES', 'COMPOSITE')


def case(rng, obs):
    if rng.random() < 0.06:
        a, b = gen.finish(rng, *gen.big_pair(rng, *rng.choice(
            [(1, 1), (1, 2), (2, 1), (2, 2), (2, 2)])))
    else:
        a, b = gen.pair(rng)
    x, y = build(obs, a, rng), build(obs, b, rng)
    obs.given(a=lambda: x, b=lambda: y)
    rel = obs.run(x.relate_to, y, what='relate_to').name
    res = {}
    for op in ('and', 'or', 'sub', 'xor'):
        if supported(op, a, b):
            res[op] = boolean(obs, op, x, y)
    if supported('sub', b, a):
        res['bus'] = boolean(obs, 'sub', y, x)
    void = {k: type(r).__name__ == 'Empty' for k, r in res.items()}

    def agree(ok, what):
        obs.check(ok, f'{a.kind} {rel} {b.kind} although {what}',
                  lambda: str(void))
    sub, sup = rel in SUBSET, rel in SUPERSET
    if 'sub' in void:
        agree(void['sub'] is sub or (a.dim > b.dim), 'a - b is '
              + ('' if void['sub'] else 'not ') + 'Empty')
    if 'bus' in void:
        agree(void['bus'] is sup or (b.dim > a.dim), 'b - a is '
              + ('' if void['bus'] else 'not ') + 'Empty')
    if 'xor' in void:
        agree(void['xor'] is (rel == 'EQUAL'), 'a ^ b is '
              + ('' if void['xor'] else 'not ') + 'Empty')
    if a.dim == b.dim:
        agree(void['and'] is (rel in ('DISJOINT', 'TOUCH', 'CROSS')),
              'a & b is ' + ('' if void['and'] else 'not ') + 'Empty')
    elif rel == 'DISJOINT':
        agree(void['and'], 'a & b is not Empty')
    elif rel != 'TOUCH':
        agree(not void['and'], 'a & b is Empty')
    # boxes
    u, v = x.bounding_box, y.bounding_box
    if rel == 'EQUAL':
        agree(u == v, 'the boxes differ')
    elif sub:
        agree(u == v or u.within(v) or u.enclosed_by(v),
              'the box of a is not in the box of b')
    elif sup:
        agree(u == v or v.within(u) or v.enclosed_by(u),
              'the box of b is not in the box of a')
    if rel != 'DISJOINT':
        agree(not u.disjoint_with(v), 'the boxes are disjoint')
    points(obs, rng, a, b, x, y, rel, res)
    obs.hit(rel)
    if rel in SUBSET[1:] + SUPERSET[1:]:
        obs.hit('subset')
    if len(a.edges()) + len(b.edges()) > 80:
        obs.hit('more than 80 edges')
    if rel != 'DISJOINT':
        obs.nontrivial(a.kind, a.segs, a.polys, b.kind, b.segs, b.polys)


def points(obs, rng, a, b, x, y, rel, res):
    qs = queries(rng, a, 6) + queries(rng, b, 6)
    for r in res.values():
        if type(r).__name__ != 'Empty':
            qs += queries(rng, conv.plain(r), 2)
    for q in qs:
        p = conv.rpt(q)
        la = obs.run(x.locate, p, what='locate').name
        lb = obs.run(y.locate, p, what='locate').name
        ina, inb = la != 'EXTERIOR', lb != 'EXTERIOR'

        def agree(ok, what):
            obs.check(ok, what, lambda: f'{p!r}: {la} of a, {lb} of b')
        if rel == 'DISJOINT':
            agree(not (ina and inb), 'common point of DISJOINT geometries')
        elif rel in SUBSET:
            agree(inb or not ina, f'point of a outside b although {rel}')
            if rel == 'WITHIN':
                agree(not ina or lb == 'INTERIOR',
                      'point of a not inside b although WITHIN')
            if rel == 'COMPONENT' and la == 'BOUNDARY':
                agree(lb == 'BOUNDARY', 'boundary point of COMPONENT')
        if rel in SUPERSET:
            agree(ina or not inb, f'point of b outside a although {rel}')
            if rel == 'COVER':
                agree(not inb or la == 'INTERIOR',
                      'point of b not inside a although COVER')
        if rel == 'TOUCH' and a.dim == b.dim == 2:
            agree(not (la == lb == 'INTERIOR'),
                  'common interior point although TOUCH')
        if la == lb == 'INTERIOR':
            obs.hit('point inside both')
        same = a.dim == b.dim == 2
        lin = a.dim == b.dim == 1
        for op, r in res.items():
            l = obs.run(r.locate, p, what='locate').name
            obs.check(obs.run(lambda: p in r, what='in')
                      is (l != 'EXTERIOR'), 'containment of a result')
            inr = l != 'EXTERIOR'
            obs.hit('point of a result')
            if op == 'or':
                agree(inr is (ina or inb), f'a | b locates as {l}')
                if same and 'INTERIOR' in (la, lb):
                    agree(l == 'INTERIOR', f'a | b locates as {l}')
            elif op == 'and':
                agree(not inr or (ina and inb), f'a & b locates as {l}')
                if same:
                    agree((l == 'INTERIOR') is (la == lb == 'INTERIOR'),
                          f'a & b locates as {l}')
            elif op in ('sub', 'bus'):
                m, n = (la, lb) if op == 'sub' else (lb, la)
                agree(not inr or m != 'EXTERIOR', f'a - b locates as {l}')
                if same:
                    agree((l == 'INTERIOR')
                          is (m == 'INTERIOR' and n == 'EXTERIOR'),
                          f'a - b locates as {l}')
                elif m != 'EXTERIOR' and n == 'EXTERIOR':
                    agree(inr, f'a - b locates as {l}')
                elif n == 'INTERIOR':
                    agree(not inr, f'a - b locates as {l}')
            else:
                agree(not inr or ina or inb, f'a ^ b locates as {l}')
                if same and {la, lb} == {'INTERIOR', 'EXTERIOR'}:
                    agree(l == 'INTERIOR', f'a ^ b locates as {l}')
                elif same and la == lb == 'INTERIOR':
                    agree(not inr, f'a ^ b locates as {l}')
                elif lin and ina != inb:
                    agree(inr, f'a ^ b locates as {l}')
