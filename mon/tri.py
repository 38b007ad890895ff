"""Oracles over triangulations (plain triangles: triples of points)."""
from __future__ import annotations

from fractions import Fraction

from . import plane
from .plane import key, orient, sorted_seg, xy


def in_circle(a, b, c, d):
    """sign: d strictly inside (> 0) the circumcircle of counterclockwise
    a, b, c"""
    ax, ay = xy(a)
    bx, by = xy(b)
    cx, cy = xy(c)
    dx, dy = xy(d)
    ax -= dx
    ay -= dy
    bx -= dx
    by -= dy
    cx -= dx
    cy -= dy
    v = ((ax * ax + ay * ay) * (bx * cy - cx * by)
         - (bx * bx + by * by) * (ax * cy - cx * ay)
         + (cx * cx + cy * cy) * (ax * by - bx * ay))
    return (v > 0) - (v < 0)


def hull(points):
    """strictly convex hull, counterclockwise"""
    ps = sorted(set(points), key=key)
    if len(ps) < 3:
        return ps
    out = []
    for seq in (ps, ps[::-1]):
        chain = []
        for p in seq:
            while len(chain) > 1 and orient(chain[-2], chain[-1], p) <= 0:
                chain.pop()
            chain.append(p)
        out += chain[:-1]
    return out


def canonical_ring(ring):
    """rotation and direction independent form"""
    n = len(ring)
    best = None
    for r in (ring, ring[::-1]):
        i = min(range(n), key=lambda k: key(r[k]))
        c = tuple(r[i:] + r[:i])
        if best is None or c[1] != best[1] and plane.lt(c[1], best[1]):
            best = c
    return best


def shrink(ring):
    ring = list(ring)
    again = True
    while again and len(ring) > 2:
        again = False
        for i in range(len(ring)):
            a, b, c = ring[i - 1], ring[i], ring[(i + 1) % len(ring)]
            if orient(a, b, c) == 0:
                del ring[i]
                again = True
                break
    return ring


def structure(tris):
    """None | message; checks shape, direction and that directed edges are
    used once (triangles on the two sides of an edge only)"""
    directed = {}
    for t in tris:
        if len(t) != 3:
            return f'face with {len(t)} vertices'
        if orient(*t) <= 0:
            return f'triangle not counterclockwise {show(t)}'
        for i in range(3):
            e = (t[i - 1], t[i])
            if e in directed:
                return f'two triangles on one side of {plane.show_edge(e)}'
            directed[e] = t[i - 2]
    return directed


def show(t):
    return ' '.join(map(plane.show_pt, t))


def area2(tris):
    return sum((plane.ring_area2(t) for t in tris), Fraction(0))


def not_delaunay(directed, fixed=()):
    """a shared edge, not fixed, whose opposite vertices see each other inside
    their circles"""
    for (p, q), r in directed.items():
        s = directed.get((q, p))
        if s is None or sorted_seg(p, q) in fixed:
            continue
        if in_circle(p, q, r, s) > 0:
            return f'edge {plane.show_edge((p, q))} is not Delaunay'
    return None
