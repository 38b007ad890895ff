"""rene objects <-> plain geometries (public attributes only)."""
from __future__ import annotations

from fractions import Fraction
from math import gcd

from rene import exact as rx

try:
    from rithm.fraction import Fraction as RFraction
    from rithm.integer import Int as RInt
except ImportError:
    RFraction = RInt = None

from . import plane


def num(v):
    """a coordinate of a rene point, as an exact Python rational"""
    n, d = v.numerator, v.denominator
    return int(n) if d == 1 else Fraction(int(n), int(d))


def P(p):
    x, y = p.x, p.y
    b, d = int(x.denominator), int(y.denominator)
    a, c = int(x.numerator), int(y.numerator)
    if b == 1 and d == 1:
        return (a, c, 1)
    w = b * d // gcd(b, d)
    return (a * (w // b), c * (w // d), w)


def plain(g):
    t = type(g).__name__
    if t == 'Empty':
        return plane.empty()
    if t == 'Segment':
        return plane.seg(P(g.start), P(g.end))
    if t == 'Multisegment':
        return plane.mseg([(P(s.start), P(s.end)) for s in g.segments])
    if t == 'Contour':
        return plane.contour([P(v) for v in g.vertices])
    if t == 'Polygon':
        return plane.poly(*plain_poly(g))
    if t == 'Multipolygon':
        return plane.mpoly([plain_poly(p) for p in g.polygons])
    raise TypeError(f'not a compound geometry: {g!r}')


def plain_poly(p):
    return ([P(v) for v in p.border.vertices],
            [[P(v) for v in h.vertices] for h in p.holes])


def scalar(n, d, rng=None):
    """exact rational n/d as one of the scalar types Point accepts"""
    if rng is None:
        return n if d == 1 else Fraction(n, d)
    k = rng.randrange(6)
    if k == 0 and d & (d - 1) == 0 and abs(n) < 1 << 52 and d < 1 << 60:
        return n / d
    if k == 1:
        return Fraction(n, d)
    if k == 2 and RFraction is not None:
        return RFraction(n, d)
    if k == 3 and d == 1 and RInt is not None:
        return RInt(n)
    return n if d == 1 else Fraction(n, d)


def rpt(p, rng=None):
    X, Y, W = p
    if W == 1 and rng is None:
        return rx.Point(X, Y)
    x, y = Fraction(X, W), Fraction(Y, W)
    return rx.Point(scalar(x.numerator, x.denominator, rng),
                    scalar(y.numerator, y.denominator, rng))


def rsegment(s, rng=None):
    return rx.Segment(rpt(s[0], rng), rpt(s[1], rng))


def rcontour(vs, rng=None):
    return rx.Contour([rpt(v, rng) for v in vs])


def rpoly(border, holes, rng=None):
    return rx.Polygon(rcontour(border, rng), [rcontour(h, rng) for h in holes])


def rene(g, rng=None):
    k = g.kind
    if k == 'empty':
        return rx.Empty()
    if k == 'segment':
        return rsegment(g.segs[0], rng)
    if k == 'multisegment':
        return rx.Multisegment([rsegment(s, rng) for s in g.segs])
    if k == 'contour':
        return rcontour(g.verts, rng)
    if k == 'polygon':
        return rpoly(*g.polys[0], rng)
    return rx.Multipolygon([rpoly(*p, rng) for p in g.polys])
