"""Pieces shared by the monitors."""
from __future__ import annotations

import operator

from mon import conv, gen, plane

OPS = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub,
       'xor': operator.xor}
SYMBOLS = {'and': '&', 'or': '|', 'sub': '-', 'xor': '^'}
EMPTY = plane.empty()


def build(obs, g, rng=None):
    """the rene object of a plain geometry; sometimes with mixed scalar
    types"""
    r = rng if rng is not None and rng.random() < 0.1 else None
    return obs.run(conv.rene, g, r, what=f'construction of {g.kind}')


def read(obs, r, what='result'):
    return obs.run(conv.plain, r, what=f'reading {what}')


def boolean(obs, op, x, y):
    return obs.run(OPS[op], x, y, what=f'{SYMBOLS[op]}')


def supported(op, a, b):
    """documented domain of the operators"""
    if -1 in (a.dim, b.dim) or a.dim == b.dim or op == 'and':
        return True
    return op == 'sub' and a.kind in ('contour', 'multisegment')


def frac(rng, lo=-3, hi=3, den=4):
    from fractions import Fraction
    return Fraction(rng.randint(lo * den, hi * den), den)


def touches_of(arr):
    """what kind of contact the operands have: for the evidence"""
    out = []
    n = len(arr.edges)
    shared = crossing = inside = False
    for i in range(n):
        a, b = arr.on[0][i], arr.on[1][i]
        if a and b:
            shared = True
        elif (a and any(arr.side[1][i])) or (b and any(arr.side[0][i])):
            inside = True
    verts = arr.vertices()
    for inc in verts.values():
        if (any(arr.on[0][i] for i in inc)
                and any(arr.on[1][i] for i in inc)):
            crossing = True
            break
    if shared:
        out.append('contact: shared boundary')
    if crossing:
        out.append('contact: common point')
    if inside:
        out.append('contact: edge inside the other')
    if not out:
        out.append('contact: none')
    return out


def boolean_case(op, rng, obs):
    if op in ('or', 'xor'):
        d = rng.choice([1, 2, 2])
        da = db = d
    elif op == 'sub':
        da, db = rng.choice([(1, 1), (1, 2), (2, 2), (2, 2)])
    else:
        da, db = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 2)])
    judge(op, *gen.pair(rng, da, db), rng, obs)
    if rng.random() < 0.5:
        for ka, kb in tiny_kinds(rng, da, db):
            if op == 'sub' and ka == 'segment':
                kb = rng.choice(gen.KINDS[1])
            judge(op, *gen.tiny_pair(rng, ka, kb), rng, obs, True)
            obs.hit('pair of tiny operands')


def tiny_kinds(rng, da, db):
    """kinds of some pairs of tiny operands: each combination is computed by
    code of its own, single segments take next to no time to judge"""
    out = []
    for _ in range(6):
        ka, kb = rng.choice(gen.KINDS[da]), rng.choice(gen.KINDS[db])
        out.append((ka, kb))
        if da == 1:
            out.append(('segment', kb))
        if db == 1:
            out.append((ka, 'segment'))
    return out


def judge(op, a, b, rng, obs, tiny=False):
    obs.afresh()
    if not supported(op, a, b):
        # segment - shaped is outside the operator's domain
        (s, e), = a.segs
        m = plane.mid(s, e)
        a = plane.mseg([(s, m), (m, e)])
    x, y = build(obs, a, rng), build(obs, b, rng)
    obs.given(a=lambda: x, b=lambda: y)
    r = boolean(obs, op, x, y)
    obs.given(result=lambda: r)
    pr = read(obs, r)
    d = plane.defects(pr)
    if d:
        obs.fail('malformed result ' + skeleton(d), d)
    arr = plane.Arrangement([a, b, pr])
    d = plane.check_boolean(op, a, b, pr, arr)
    if d:
        obs.fail(f'wrong points ({a.kind} {SYMBOLS[op]} {b.kind})', d)
    contact = touches_of(arr)
    obs.hit(f'{a.kind} {SYMBOLS[op]} {b.kind}', f'result {pr.kind}', *contact)
    if len(arr.edges) > 100:
        obs.hit('overlay of more than 100 edges')
    obs.events['elementary edges judged'] += len(arr.edges)
    if contact != ['contact: none'] and not tiny:
        obs.nontrivial(op, a.segs, a.polys, b.segs, b.polys)


def skeleton(d):
    return ' '.join(w for w in d.split() if w.isalpha())
