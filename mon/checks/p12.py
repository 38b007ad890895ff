"""P12: constrained Delaunay triangulations of polygons."""
from rene import exact as rx

from mon import conv, gen, plane, tri
from mon.plane import sorted_seg

from .common import build

PROPERTY = 'P12'
QUICK = 60000
THOROUGH = 480
RULE = ('polygons from grid worlds (holes touching each other and the border '
        'in vertices and inside edges), stars, combs, nested rings, many '
        'holes, under exact affine maps and re-written representations; '
        'non-trivial when not a single triangle')
ASSUMPTIONS = ('polygons are valid with a connected interior',)
REQUIRE = {'holes': 300, 'triangular hole': 50, 'touching rings': 50,
           'concave': 300, 'triangles judged': 10000,
           'more than 40 vertices': 20}


def polygon(rng):
    while True:
        if rng.random() < 0.04:
            g = gen.big_shaped(rng)
        elif rng.random() < 0.15:
            g = gen.row_holes(rng)
        elif rng.random() < 0.4:
            g = gen.with_holes(rng, rng.choice([1, 2, 3, 5]))
        else:
            g = gen.shaped(rng, rng.choice([1, 2, 2, 3, 3, 4, 5]))
        b, hs = rng.choice(g.polys)
        g = plane.poly(b, hs)
        if gen.connected(g):
            return gen.finish(rng, g)[0]


def case(rng, obs):
    g = polygon(rng)
    x = build(obs, g, rng)
    obs.given(polygon=lambda: x)
    t = obs.run(rx.ConstrainedDelaunayTriangulation.from_polygon, x,
                what='from_polygon')
    tris = obs.run(lambda: [tuple(conv.P(v) for v in c.vertices)
                            for c in t.triangles], what='triangles')
    directed = tri.structure(tris)
    if isinstance(directed, str):
        obs.fail('broken mesh: ' + directed.split(' (')[0], directed)
    points = set(g.points())
    used = {p for x_ in tris for p in x_}
    obs.check(used == points, 'vertices lost or invented',
              lambda: f'{sorted(used ^ points)}')
    obs.check(tri.area2(tris) == plane.area2(g),
              'triangles do not tile the polygon',
              lambda: f'area {tri.area2(tris)} against {plane.area2(g)}')
    # every triangle inside: its edges never enter the outside
    cover = plane.mpoly([(list(t_), []) for t_ in tris])
    arr = plane.Arrangement([g, cover])
    for i, e in enumerate(arr.edges):
        if arr.side[0][i] != arr.side[1][i]:
            obs.fail('triangles do not tile the polygon',
                     'next to ' + plane.show_edge(e))
    fixed = {sorted_seg(*e) for e in g.edges()}
    # pieces of constraints cut by vertices lying on them
    cut = set()
    for p, q in directed:
        e = sorted_seg(p, q)
        if e not in fixed and any(
                plane.on_segment(*f, p) and plane.on_segment(*f, q)
                for f in fixed):
            cut.add(e)
    d = tri.not_delaunay(directed, fixed | cut)
    if d:
        obs.fail('not constrained Delaunay', d)
    border = obs.run(lambda: [conv.P(v) for v in t.border.vertices],
                     what='border')
    want = g.polys[0][0]
    obs.check(tri.canonical_ring(border) == tri.canonical_ring(want),
              'border is not the border of the polygon', lambda: str(border))
    obs.check(obs.run(bool, t, what='bool') is True,
              'triangulation of a polygon is falsy')
    holes = g.polys[0][1]
    if holes:
        obs.hit('holes')
    if any(len(h) == 3 for h in holes):
        obs.hit('triangular hole')
    n = sum(len(r) for r in g.rings())
    if len(points) < n or cut:
        obs.hit('touching rings')
    if cut:
        obs.hit('vertex inside a constraint')
    if len(tri.hull(want)) < len(want):
        obs.hit('concave')
    if n > 40:
        obs.hit('more than 40 vertices')
    obs.events['triangles judged'] += len(tris)
    if len(tris) > 1:
        obs.nontrivial(g.polys)
