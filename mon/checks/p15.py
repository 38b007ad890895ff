"""P15: derived attributes (boxes, orientation, edges) and the sequence views
of components describe exactly the geometry they belong to."""
from fractions import Fraction

from rene import exact as rx

from mon import conv, gen, plane
from mon.plane import pt, sorted_seg, xy

from .common import build

PROPERTY = 'P15'
QUICK = 36000
THOROUGH = 300
RULE = ('geometries of every kind: bounding box, orientation, edges and '
        'endpoints recomputed from the construction arguments; every '
        'component view put through random lengths, indices (negative and '
        'out of range too), slices, membership, count, index with bounds, '
        'reversal, comparison and hashing against the plain tuple of the same '
        'components; non-trivial always')
ASSUMPTIONS = ('contours have distinct vertices',)
REQUIRE = {'view of a view': 2000, 'view segments': 2000, 'view vertices': 2000, 'view holes': 500,
           'view polygons': 500, 'found by index': 2000,
           'refused by index': 1000, 'slice': 5000, 'CLOCKWISE': 300,
           'COUNTERCLOCKWISE': 300, 'box after operation': 200}


def box_of(points):
    xs = [xy(p)[0] for p in points]
    ys = [xy(p)[1] for p in points]
    return min(xs), max(xs), min(ys), max(ys)


def check_box(obs, x, points, what):
    b = obs.run(lambda: x.bounding_box, what='bounding_box')
    got = tuple(Fraction(conv.num(getattr(b, n)))
                for n in ('min_x', 'max_x', 'min_y', 'max_y'))
    obs.check(got == box_of(points), f'bounding box of {what}',
              lambda: f'{got}, expected {box_of(points)}')
    obs.check(obs.run(b.is_valid, what='is_valid') is True,
              'bounding box is not valid')


def check_view(obs, rng, view, items, strangers, name, depth=0):
    """view behaves like the tuple `items`"""
    n = len(items)
    obs.hit(f'view of a view' if depth else f'view {name}')
    obs.check(obs.run(len, view, what='len') == n, f'len of {name}')
    obs.check(list(obs.run(iter, view, what='iter')) == items,
              f'iteration over {name}')
    obs.check(list(obs.run(reversed, view, what='reversed')) == items[::-1],
              f'reversal of {name}')
    for i in {0, n - 1, -1, -n, n, -n - 1, rng.randint(-n - 3, n + 3)}:
        try:
            want = items[i]
        except IndexError:
            try:
                got = obs.run(lambda: view[i], what='[]', allow=IndexError)
            except IndexError:
                continue
            obs.fail(f'{name} accept index out of range', f'[{i}]: {got!r}')
        got = obs.run(lambda: view[i], what='[]')
        obs.check(got == want, f'{name} by index', f'[{i}]')
    ends = [None, *range(-n - 2, n + 3)]
    for _ in range(3):
        sl = slice(rng.choice(ends), rng.choice(ends),
                   rng.choice([None, None, 1, 2, -1, -2, 3, -3]))
        part = obs.run(lambda: view[sl], what='slicing')
        obs.check(list(part) == items[sl] and len(part) == len(items[sl]),
                  f'slice of {name}', lambda: f'{sl}: {list(part)!r}')
        obs.check((part == view) is (items[sl] == items),
                  f'comparison of {name} with their slice', f'{sl}')
        if items[sl] == items:
            obs.check(hash(part) == hash(view), f'hash of {name}')
        obs.hit('slice')
        if depth < 2 and rng.random() < 0.15:
            # what was sliced is a view as well
            check_view(obs, rng, part, items[sl], strangers, name, depth + 1)
    for change in (lambda: view.__setitem__(0, items[0]),
                   lambda: view.__delitem__(0),
                   lambda: view.append(items[0])):
        try:
            obs.run(change, what='change of a view',
                    allow=(TypeError, AttributeError, IndexError))
        except (TypeError, AttributeError, IndexError):
            continue
        obs.fail(f'{name} can be changed')
    again = obs.run(lambda: view[:], what='slicing')
    obs.check(again == view and hash(again) == hash(view)
              and not again != view, f'comparison of {name} with themselves')
    if n > 1 and items != items[::-1]:
        obs.check(obs.run(lambda: view[::-1] != view, what='!=') is True,
                  f'{name} equal their reversal')
    for foreign in (None, 1, 'ab'):
        obs.check(view.count(foreign) == 0 and foreign not in view,
                  f'{name} contain a foreign object')
        obs.check((view == foreign) is False and (view != foreign) is True,
                  f'{name} equal a foreign object')
    for v in [rng.choice(items) if items else strangers[0],
              rng.choice(strangers)]:
        obs.check(obs.run(view.count, v, what='count') == items.count(v),
                  f'count in {name}', lambda: repr(v))
        obs.check(obs.run(lambda: v in view, what='in') is (v in items),
                  f'membership in {name}', lambda: repr(v))
        for bounds in ((), (rng.randint(-n - 2, n + 2),),
                       (rng.randint(-n - 2, n + 2),
                        rng.choice([None, *range(-n - 2, n + 3)]))):
            try:
                want = items.index(v, *(c for c in bounds if c is not None))
            except ValueError:
                try:
                    got = obs.run(view.index, v, *bounds, what='index',
                                  allow=ValueError)
                except ValueError:
                    obs.hit('refused by index')
                    continue
                obs.fail(f'index in {name} finds what is not there',
                         f'{v!r}, {bounds}: {got}')
            got = obs.run(view.index, v, *bounds, what='index')
            obs.check(got == want, f'index in {name}',
                      f'{v!r}, {bounds}: {got}, expected {want}')
            obs.hit('found by index')


def flip(s):
    return rx.Segment(s.end, s.start)


def case(rng, obs):
    if rng.random() < 0.03:
        g = gen.finish(rng, gen.big_shaped(rng) if rng.random() < 0.5
                       else gen.big_linear(rng))[0]
    else:
        g = gen.any_geo(rng, rng.choice([1, 2, 3, 4]))
    if g.dim == 2 and rng.random() < 0.3:
        g = plane.contour(rng.choice(g.polys)[0])
    x = build(obs, g, rng)
    obs.given(x=lambda: x)
    check_box(obs, x, g.points(), g.kind)
    strange = conv.rsegment((pt(0, 77), pt(1, 78)))
    if g.kind == 'segment':
        s, e = g.segs[0]
        obs.check(conv.P(x.start) == s and conv.P(x.end) == e,
                  'endpoints of segment')
    elif g.kind == 'multisegment':
        items = [conv.rsegment(s) for s in g.segs]
        check_view(obs, rng, x.segments, items,
                   [strange, flip(rng.choice(items))], 'segments')
        for s, t in zip(x.segments, g.segs):
            check_box(obs, s, t, 'segment')
    elif g.kind == 'contour':
        check_contour(obs, rng, x, g.verts, strange)
    else:
        polys = [x] if g.kind == 'polygon' else list(x.polygons)
        if g.kind == 'multipolygon':
            items = [conv.rpoly(*p) for p in g.polys]
            check_view(obs, rng, x.polygons, items,
                       [conv.rpoly([pt(0, 0), pt(1, 0), pt(0, 99)], []),
                        conv.rpoly(*gen.rewrite(rng, plane.poly(
                            *rng.choice(g.polys))).polys[0])], 'polygons')
        for p, (b, hs) in zip(polys, g.polys):
            check_box(obs, p, b, 'polygon')
            items = [conv.rcontour(h) for h in hs]
            strangers = [conv.rcontour([pt(0, 0), pt(1, 0), pt(0, 99)])]
            if hs:
                strangers.append(conv.rcontour(gen.rewrite(
                    rng, plane.contour(rng.choice(hs))).verts))
            check_view(obs, rng, p.holes, items, strangers, 'holes')
            obs.check(p.border == conv.rcontour(b), 'border of polygon')
            check_contour(obs, rng, p.border, b, strange)
            for h, v in zip(p.holes, hs):
                if rng.random() < 0.3:
                    check_contour(obs, rng, h, v, strange)
    if g.dim >= 0 and rng.random() < 0.2:
        # the same holds for what operations return
        o = build(obs, gen.any_geo(rng, 2))
        r = obs.run(lambda: x & o, what='&')
        if type(r).__name__ != 'Empty':
            check_box(obs, r, conv.plain(r).points(), 'result of &')
            obs.hit('box after operation')
    obs.nontrivial(g.kind, g.segs, g.polys, g.verts)


def check_contour(obs, rng, x, verts, strange):
    items = [conv.rpt(v) for v in verts]
    check_view(obs, rng, x.vertices, items,
               [conv.rpt(pt(-77, 78)), conv.rpt(gen.rnd_pt(rng, 3))],
               'vertices')
    check_box(obs, x, verts, 'contour')
    o = obs.run(lambda: x.orientation, what='orientation')
    want = ('COUNTERCLOCKWISE' if plane.ring_area2(verts) > 0 else
            'CLOCKWISE')
    obs.check(o.name == want, f'orientation is {o.name} for {want}')
    obs.hit(want)
    n = len(verts)
    segs = obs.run(lambda: list(x.segments), what='segments')
    obs.check(len(segs) == n, 'number of segments of contour')
    got = [sorted_seg(conv.P(s.start), conv.P(s.end)) for s in segs]
    edges = [sorted_seg(verts[i - 1], verts[i]) for i in range(n)]
    obs.check(sorted(got, key=repr) == sorted(edges, key=repr),
              'segments of contour are not its edges')
    for i in range(n):
        # consecutive segments follow the contour
        obs.check(set(got[i - 1]) & set(got[i]),
                  'consecutive segments of contour do not meet')
    check_view(obs, rng, x.segments, segs,
               [strange, flip(rng.choice(segs))], 'segments')
