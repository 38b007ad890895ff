"""P09: equality and hashing see structure, not representation."""
from rene import exact as rx

from mon import conv, gen, plane
from mon.plane import Geo, key, sorted_seg

from .common import build

PROPERTY = 'P09'
QUICK = 20000
THOROUGH = 300
RULE = ('pairs of geometries which are the same up to rotation and reversal '
        'of rings, order of components and direction of segments, and pairs '
        'one small edit apart (swapped vertices, moved vertex, dropped or '
        'duplicated part, ring bound to another border, other kind), each '
        'compared by ==, !=, hash, sets and dictionaries both ways')
ASSUMPTIONS = ('geometries are well-formed (distinct vertices of a ring, '
               'distinct parts)',)
REQUIRE = {'equal': 3000, 'different': 3000, 'equal contour': 300,
           'equal polygon': 300, 'equal multipolygon': 300,
           'equal multisegment': 300, 'different contour': 200,
           'different polygon': 200, 'different multipolygon': 200,
           'different multisegment': 200, 'other kind': 300,
           'same vertices in another order': 100, 'equal edited': 3000,
           'collinear at the minimal vertex': 50,
           'relative of another kind': 5000}


def ring_key(r):
    i = min(range(len(r)), key=lambda k: key(r[k]))
    f = tuple(r[i:] + r[:i])
    b = (f[0],) + f[:0:-1]
    return min(f, b)


def structure(g):
    if g.kind == 'contour':
        return ('contour', ring_key(g.verts))
    if g.dim == 1:
        return (g.kind, frozenset(sorted_seg(*s) for s in g.segs))
    if g.dim == 2:
        ps = frozenset((ring_key(b), frozenset(ring_key(h) for h in hs))
                       for b, hs in g.polys)
        return (g.kind, ps)
    return ('empty',)


def edit(rng, g):
    """a small change that may or may not change the structure"""
    k = rng.randrange(8)
    if g.kind == 'contour':
        v = list(g.verts)
        if k < 3:
            i, j = rng.sample(range(len(v)), 2)
            v[i], v[j] = v[j], v[i]
        elif k == 3:
            i = rng.randrange(len(v))
            while v[i] in g.verts:
                v[i] = gen.rnd_pt(rng, 9, 2)
        elif k == 4 and len(v) > 3:
            v.pop(rng.randrange(len(v)))
        elif k == 5:
            i = rng.randrange(len(v))
            m = plane.mid(v[i - 1], v[i])
            if m not in v:
                v.insert(i, m)
        elif k == 6:
            i, j = sorted(rng.sample(range(len(v) + 1), 2))
            v[i:j] = v[i:j][::-1]
        elif rng.random() < 0.5:
            # a spike at the minimal vertex
            i = min(range(len(v)), key=lambda q: key(v[q]))
            (a, b), (c, d) = plane.xy(v[i]), plane.xy(v[(i + 1) % len(v)])
            f = rng.choice([2, 3, plane.Fraction(1, 2)])
            w = plane.pt(a + f * (c - a), b + f * (d - b))
            if w not in v:
                v[i - 1] = w
        else:
            return plane.mseg([sorted_seg(*e) for e in g.edges()])
        return plane.contour(v)
    if g.dim == 1:
        ss = list(g.segs)
        i = rng.randrange(len(ss))
        if k < 3:
            p, q = ss[i]
            ss[i] = (p, gen.rnd_pt(rng, 9, 2))
            if ss[i][0] == ss[i][1]:
                ss[i] = (p, q)
        elif k < 5 and len(ss) > 2:
            ss.pop(i)
        elif k == 5 and g.kind == 'segment':
            m = plane.mid(*ss[0])
            return plane.mseg([(ss[0][0], m), (m, ss[0][1])])
        elif len(ss) > 1:
            # exchange ends
            j = rng.randrange(len(ss))
            (a, b), (c, d) = ss[i], ss[j]
            if i != j and a != d and c != b:
                ss[i], ss[j] = (a, d), (c, b)
        if len({sorted_seg(*s) for s in ss}) < len(ss):
            return g
        return Geo('segment' if g.kind == 'segment' else g.kind, ss)
    polys = [(list(b), [list(h) for h in hs]) for b, hs in g.polys]
    i = rng.randrange(len(polys))
    b, hs = polys[i]
    if k == 0 and hs:
        hs.pop(rng.randrange(len(hs)))
    elif k == 1 and hs:
        # fill a hole: border becomes hole of ... another polygon
        j = rng.randrange(len(polys))
        h = hs.pop(rng.randrange(len(hs)))
        polys[j][1].append(h)
    elif k == 2:
        c = edit(rng, plane.contour(b))
        if c.kind == 'contour':
            polys[i] = (c.verts, hs)
    elif k == 3 and hs:
        j = rng.randrange(len(hs))
        c = edit(rng, plane.contour(hs[j]))
        if c.kind == 'contour':
            hs[j] = c.verts
    elif k == 4 and len(polys) > 2:
        polys.pop(i)
    elif k == 5 and hs:
        # swap border with a hole
        polys[i] = (hs[0], [b] + hs[1:])
    elif k == 6 and len(polys) > 1:
        j = rng.randrange(len(polys))
        if i != j:
            (b1, h1), (b2, h2) = polys[i], polys[j]
            polys[i], polys[j] = (b1, h2), (b2, h1)
    elif k == 7 and g.kind == 'polygon':
        return plane.mpoly(polys + [([plane.pt(100, 100), plane.pt(101, 100),
                                      plane.pt(100, 101)], [])])
    return Geo(g.kind, polys=polys)


def compare(obs, x, y, same, what):
    eq = obs.run(lambda: x == y, what='==')
    ne = obs.run(lambda: x != y, what='!=')
    obs.check(eq is same and ne is not same, f'== of {what} is {eq}')
    if same:
        hx, hy = obs.run(hash, x, what='hash'), obs.run(hash, y, what='hash')
        obs.check(hx == hy, f'equal {what} with different hashes')
        obs.check(obs.run(lambda: y in {x}, what='set lookup'),
                  f'equal {what} not found in a set')
        obs.check(obs.run(lambda: {x: 1}.get(y), what='dict lookup') == 1,
                  f'equal {what} not found in a dictionary')


def relatives(g):
    """geometries of other kinds made of the same parts"""
    if g.kind == 'segment':
        (p, q), = g.segs
        m = plane.mid(p, q)
        yield plane.mseg([(p, m), (m, q)])
    elif g.kind == 'multisegment':
        yield plane.seg(*g.segs[0])
    elif g.kind == 'contour':
        yield plane.poly(g.verts)
        yield plane.mseg(g.edges())
    elif g.kind == 'polygon':
        yield plane.contour(g.polys[0][0])
        yield plane.mseg(plane.contour(g.polys[0][0]).edges())
    elif g.kind == 'multipolygon':
        yield plane.poly(*g.polys[0])
    if g.kind != 'empty':
        yield plane.empty()


def case(rng, obs):
    g = gen.any_geo(rng, rng.choice([1, 2, 3, 4]))
    if rng.random() < 0.02:
        g = plane.empty()
    x = build(obs, g, rng)
    obs.given(x=lambda: x)
    # the same thing written differently
    h = gen.rewrite(rng, g)
    y = build(obs, h, rng)
    obs.given(y=lambda: y)
    compare(obs, x, y, True, g.kind)
    compare(obs, y, x, True, g.kind)
    obs.hit('equal', f'equal {g.kind}')
    # something close by
    if g.kind != 'empty':
        e = h
        for _ in range(rng.choice([1, 1, 2])):
            e = edit(rng, e)
        z = build(obs, gen.rewrite(rng, e), rng)
        obs.given(z=lambda: z)
        same = structure(g) == structure(e)
        what = f'{g.kind} and {e.kind}'
        compare(obs, x, z, same, what)
        compare(obs, z, x, same, what)
        obs.hit('equal' if same else 'different')
        # malformed or not, it equals itself written differently
        z2 = build(obs, gen.rewrite(rng, e), rng)
        compare(obs, z, z2, True, f'edited {e.kind}')
        obs.hit('equal edited')
        if e.kind == 'contour':
            i = min(range(len(e.verts)), key=lambda k: key(e.verts[k]))
            n = len(e.verts)
            if not plane.orient(e.verts[i - 1], e.verts[i],
                                e.verts[(i + 1) % n]):
                obs.hit('collinear at the minimal vertex')
        if not same:
            obs.hit(f'different {g.kind}' if g.kind == e.kind
                    else 'other kind')
            if set(g.points()) == set(e.points()) and g.kind == e.kind:
                obs.hit('same vertices in another order')
    for o in relatives(g):
        z = build(obs, o)
        compare(obs, x, z, False, f'{g.kind} and {o.kind}')
        compare(obs, z, x, False, f'{o.kind} and {g.kind}')
        obs.hit('relative of another kind')
    for foreign in (None, 1, 'x', (), object(), conv.rpt(plane.pt(0, 0)),
                    getattr(x, 'segments', 0), getattr(x, 'polygons', 0)):
        obs.check(obs.run(lambda: x == foreign, what='==') is False
                  and obs.run(lambda: x != foreign, what='!=') is True,
                  f'{g.kind} equals a foreign object')
    if g.dim >= 0:
        p = rng.choice(g.points())
        q = rng.choice(g.points())
        compare(obs, conv.rpt(p, rng), conv.rpt(q, rng), p == q, 'points')
        bb = [conv.num(getattr(x.bounding_box, n))
              for n in ('min_x', 'max_x', 'min_y', 'max_y')]
        compare(obs, x.bounding_box, rx.Box(*bb), True, 'boxes')
        w = list(bb)
        w[rng.randrange(4)] += rng.choice([0, 1])
        compare(obs, x.bounding_box, rx.Box(*w), w == bb, 'boxes')
    obs.nontrivial(g.kind, g.segs, g.polys, g.verts)
