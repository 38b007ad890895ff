"""P20: expressions of any depth denote the set the algebra says: histories of
operations against a cell-by-cell model, and the laws of set algebra at
scale."""
from fractions import Fraction

from mon import conv, gen, plane
from mon.plane import sorted_seg

from .common import (EMPTY, OPS, SYMBOLS, boolean, build, read, skeleton,
                     supported)

PROPERTY = 'P20'
QUICK = 2000
THOROUGH = 480
RULE = ('histories of 3 to 40 operations on accumulators over a tiled window '
        '(regions) or over a planar graph (linear geometries, or both), every '
        'intermediate result compared exactly with the set of cells or edges '
        'kept by the model; and commutativity, associativity, '
        'distributivity, absorption, De Morgan inside a window, partition, '
        'also between regions and linear geometries, '
        'and inclusion-exclusion of areas on larger unrelated operands; '
        'non-trivial when a history keeps at least one non-empty value')
ASSUMPTIONS = ('leaf operands are valid geometries',)
REQUIRE = {'step of a history of regions': 3000,
           'step of a history of segments': 1600,
           'step of a history of both': 1000, 'mixed step of a history': 500,
           'history of more than 20 steps': 60, 'law': 500, 'mixed law': 100,
           'law on more than 80 edges': 100, 'holes': 200,
           'several components': 400}


def history_of_regions(rng, obs):
    n, m = rng.randint(2, 6), rng.randint(2, 6)
    grid = gen.Grid(rng, n, m, 0, 0, rng.choice([1, 2]), rng.random() < 0.4)
    f = gen.affine(rng)
    if f.det < 0:
        f = gen.Affine(1, 2, 0, 1, 3, -1)
    faces = [tuple(f(p) for p in r) for r in grid.faces]
    owner = {}
    for i, r in enumerate(faces):
        for e in plane.ring_edges(r):
            owner.setdefault(sorted_seg(*e), []).append(i)

    def boundary(cells):
        """canonical value of the union of cells"""
        directed = set()
        for i in cells:
            for p, q in plane.ring_edges(faces[i]):
                if (q, p) in directed:
                    directed.discard((q, p))
                else:
                    directed.add((p, q))
        # every directed edge has its interior on the left
        lines = {}
        for p, q in directed:
            lo, hi = sorted_seg(p, q)
            lines.setdefault(plane.line_of(p, q), []).append(
                (lo, hi, 1 if lo == p else -1))
        return plane.canon_lines(lines, 2)

    def pick():
        k = rng.randrange(4)
        if k == 0:
            return {rng.randrange(len(faces))}
        if k == 1:
            d = rng.random()
            return {i for i in range(len(faces)) if rng.random() < d}
        if k == 2:
            blob = set(map(id, grid._blob()))
            return {i for i, r in enumerate(grid.faces) if id(r) in blob}
        i = rng.randrange(len(faces))
        vs = set(faces[i])
        return {j for j, r in enumerate(faces) if vs & set(r)}

    def leaf():
        cells = pick()
        g = gen.region_of_faces([faces[i] for i in cells])
        g = gen.rewrite(rng, g)
        return cells, build(obs, g, rng), g
    return leaf, boundary, len(faces)


def history_of_segments(rng, obs):
    n = rng.randint(1, 4)
    es = gen.Grid(rng, n, rng.randint(1, 4)).edges()
    f = gen.affine(rng)
    es = [sorted_seg(f(p), f(q)) for p, q in es]

    def boundary(ids):
        return plane.canon(plane.mseg([es[i] for i in ids]))

    def leaf():
        d = rng.choice([0.1, 0.3, 0.6, 0.9])
        ids = {i for i in range(len(es)) if rng.random() < d}
        segs = [es[i] for i in ids]
        if segs:
            segs = gen.merge_runs(rng, segs, rng.choice([0, 0.5, 1]))
        g = gen.multiseg(segs) if segs else EMPTY
        return ids, build(obs, gen.rewrite(rng, g), rng), g
    return leaf, boundary, len(es)


SETS = {'and': set.__and__, 'or': set.__or__, 'sub': set.__sub__,
        'xor': set.__xor__}


def history(rng, obs, linear):
    leaf, boundary, total = (history_of_segments if linear else
                             history_of_regions)(rng, obs)
    name = 'segments' if linear else 'regions'
    regs = [leaf() for _ in range(rng.randint(2, 4))]
    leaves = [r[1] for r in regs]
    trail = []
    obs.given(leaves=lambda: leaves, steps=lambda: trail)
    steps = rng.choice([3, 6, 10, 25, 40])
    kept = []
    for s in range(steps):
        i = rng.randrange(len(regs))
        if rng.random() < 0.35:
            j, right = None, leaf()
            leaves.append(right[1])
        else:
            j = rng.randrange(len(regs))
            right = regs[j]
        # keeps values from growing into the whole or shrinking to nothing
        fill = len(regs[i][0]) / total
        op = rng.choice(['and', 'or', 'sub', 'xor', 'xor',
                         'or' if fill < 0.4 else 'sub'])
        k = rng.randrange(len(regs))
        trail.append(f'r{k} = r{i} {SYMBOLS[op]} '
                     + (f'r{j}' if j is not None else
                        f'leaf{len(leaves) - 1}'))
        want = SETS[op](regs[i][0], right[0])
        r = boolean(obs, op, regs[i][1], right[1])
        g = read(obs, r)
        d = plane.defects(g)
        if d:
            obs.fail('malformed result ' + skeleton(d), d)
        got = plane.canon(g)
        obs.check(got == boundary(want), f'history of {name} goes wrong at '
                  f'{SYMBOLS[op]}', lambda: f'step {s}: got {len(got[1])} '
                  f'maximal edges, expected {len(boundary(want)[1])}')
        obs.hit(f'step of a history of {name}')
        if any(h for _, h in g.polys):
            obs.hit('holes')
        if len(g.polys) > 1:
            obs.hit('several components')
        regs[k] = (want, r, g)
        if want:
            kept.append(frozenset(want))
    if steps > 20:
        obs.hit('history of more than 20 steps')
    if kept:
        obs.nontrivial(name, trail, kept)


def history_of_both(rng, obs):
    """regions and linear geometries over the faces and edges of one planar
    graph, combined with each other"""
    grid = gen.Grid(rng, rng.randint(1, 4), rng.randint(1, 4), 0, 0, 3,
                    rng.random() < 0.3)
    f = gen.affine(rng)
    faces = [[f(p) for p in r] for r in grid.faces]
    around = {}
    for i, r in enumerate(faces):
        for p, q in plane.ring_edges(r):
            around.setdefault(sorted_seg(p, q), set()).add(i)
        if len(r) == 3:
            # spokes: segments strictly inside of the face
            c = gen.lerp(r[0], plane.mid(r[1], r[2]), Fraction(2, 3))
            for p in r:
                around[sorted_seg(p, c)] = {i}
    es = sorted(around, key=lambda e: (plane.key(e[0]), plane.key(e[1])))

    def region(ids):
        directed = set()
        for i in ids:
            r = faces[i]
            for p, q in plane.ring_edges(r if f.det > 0 else r[::-1]):
                if (q, p) in directed:
                    directed.discard((q, p))
                else:
                    directed.add((p, q))
        lines = {}
        for p, q in directed:
            lo, hi = sorted_seg(p, q)
            lines.setdefault(plane.line_of(p, q), []).append(
                (lo, hi, 1 if lo == p else -1))
        return plane.canon_lines(lines, 2)

    def value(dim, ids):
        if not ids:
            return plane.canon(EMPTY)
        return (region(ids) if dim == 2
                else plane.canon(plane.mseg([es[i] for i in ids])))

    def leaf(dim):
        d = rng.choice([0.1, 0.3, 0.6, 0.9])
        if dim == 2:
            ids = {i for i in range(len(faces)) if rng.random() < d}
            g = (gen.region_of_faces([faces[i] for i in ids]) if f.det > 0
                 else gen.region_of_faces([faces[i][::-1] for i in ids]))
        else:
            ids = {i for i in range(len(es)) if rng.random() < d}
            segs = [es[i] for i in ids]
            g = gen.multiseg(gen.merge_runs(rng, segs,
                                            rng.choice([0, 0, 0.5])))
        g = gen.rewrite(rng, g)
        return dim, ids, build(obs, g, rng), g

    regs = [leaf(1), leaf(2), *(leaf(rng.choice([1, 2])) for _ in range(2))]
    leaves = [r[2] for r in regs]
    trail = []
    obs.given(leaves=lambda: leaves, steps=lambda: trail)
    for s in range(rng.choice([4, 8, 12, 20])):
        i = rng.randrange(len(regs))
        if rng.random() < 0.4:
            right = leaf(rng.choice([1, 2]))
            leaves.append(right[2])
            name = f'leaf{len(leaves) - 1}'
        else:
            j = rng.randrange(len(regs))
            right, name = regs[j], f'r{j}'
        left = regs[i]
        ops = ['and', 'or', 'sub', 'xor', 'or']
        if left[0] != right[0]:
            ops = ['and', 'sub'] if left[0] == 1 else ['and']
        op = rng.choice([o for o in ops if supported(o, left[3], right[3])])
        k = rng.randrange(len(regs))
        trail.append(f'r{k} = r{i} {SYMBOLS[op]} {name}')
        if left[0] == right[0]:
            want = SETS[op](left[1], right[1])
        else:
            lin, reg = ((left, right) if left[0] == 1 else (right, left))
            covered = {e for e in lin[1] if around[es[e]] & reg[1]}
            want = covered if op == 'and' else lin[1] - covered
        dim = min(left[0], right[0])
        r = boolean(obs, op, left[2], right[2])
        g = read(obs, r)
        d = plane.defects(g)
        if d:
            obs.fail('malformed result ' + skeleton(d), d)
        obs.check(plane.canon(g) == value(dim, want),
                  f'history of both goes wrong at {SYMBOLS[op]} of '
                  f'dimensions {left[0]} and {right[0]}', f'step {s}')
        obs.hit('step of a history of both')
        if left[0] != right[0]:
            obs.hit('mixed step of a history')
        regs[k] = (dim, want, r, g)
        if want:
            # long histories of intersections would end with nothing
            continue
        dim = rng.choice([1, 2])
        regs[k] = leaf(dim)
        leaves.append(regs[k][2])
        trail.append(f'r{k} = leaf{len(leaves) - 1}')
    obs.nontrivial('both', trail, [r[1] for r in regs])


def laws(rng, obs):
    linear = rng.random() < 0.4
    big = rng.random() < 0.5
    d = 1 if linear else 2
    a, b = gen.big_pair(rng, d, d) if big else gen.pair(rng, d, d)
    c = (gen.big_pair if big else gen.pair)(rng, d, d)[0]
    if rng.random() < 0.5:
        c = (gen.linear_from(rng, a) if linear else
             gen.derived_shape(rng, rng.choice([a, b])))
    a, b, c = gen.finish(rng, a, b, c)
    x, y, z = (build(obs, g, rng) for g in (a, b, c))
    obs.given(a=lambda: x, b=lambda: y, c=lambda: z)
    n = sum(len(g.edges()) for g in (a, b, c))

    def val(r):
        return plane.canon(read(obs, r))

    def op(o, u, v):
        return boolean(obs, o, u, v)

    def law(name, left, right):
        obs.check(val(left) == val(right), f'law broken: {name}')
        obs.hit('law')
        if n > 80:
            obs.hit('law on more than 80 edges')
    k = rng.randrange(7)
    if k == 0:
        for o in ('and', 'or', 'xor'):
            law('commutativity of ' + o, op(o, x, y), op(o, y, x))
    elif k == 1:
        o = rng.choice(['and', 'or', 'xor'])
        law('associativity of ' + o, op(o, op(o, x, y), z),
            op(o, x, op(o, y, z)))
    elif k == 2:
        law('distributivity', op('and', x, op('or', y, z)),
            op('or', op('and', x, y), op('and', x, z)))
    elif k == 3:
        law('distributivity', op('or', x, op('and', y, z)),
            op('and', op('or', x, y), op('or', x, z)))
    elif k == 4:
        law('subtraction', op('sub', x, op('or', y, z)),
            op('sub', op('sub', x, y), z))
        law('subtraction', op('sub', x, op('and', y, z)),
            op('or', op('sub', x, y), op('sub', x, z)))
    elif k == 5:
        p, q = op('and', x, y), op('sub', x, y)
        law('partition', op('or', p, q), x)
        law('partition', op('xor', x, y),
            op('sub', op('or', x, y), p))
        law('absorption', op('or', x, p), x)
        law('absorption', op('and', x, op('or', x, y)), x)
        obs.check(type(op('and', q, y)).__name__ == 'Empty',
                  'law broken: difference meets the subtrahend')
    else:
        law('double symmetric difference',
            op('xor', op('xor', x, y), y), x)
        if not linear:
            # De Morgan inside a window
            pts = a.points() + b.points()
            xs = [plane.xy(p)[0] for p in pts]
            ys = [plane.xy(p)[1] for p in pts]
            e = rng.choice([0, 1])
            w = build(obs, plane.poly([
                plane.pt(min(xs) - e, min(ys) - e),
                plane.pt(max(xs) + e, min(ys) - e),
                plane.pt(max(xs) + e, max(ys) + e),
                plane.pt(min(xs) - e, max(ys) + e)]))
            law('De Morgan', op('sub', w, op('or', x, y)),
                op('and', op('sub', w, x), op('sub', w, y)))
            law('De Morgan', op('sub', w, op('and', x, y)),
                op('or', op('sub', w, x), op('sub', w, y)))
    if not linear:
        areas = {o: plane.area2(read(obs, op(o, x, y))) for o in OPS}
        s, t = plane.area2(a), plane.area2(b)
        obs.check(areas['and'] + areas['or'] == s + t
                  and areas['sub'] == s - areas['and']
                  and areas['xor'] == areas['or'] - areas['and'],
                  'areas do not add up', lambda: f'{areas}, {s}, {t}')
    obs.nontrivial(a.kind, a.segs, a.polys, b.segs, b.polys, c.segs, c.polys)


def mixed_laws(rng, obs):
    big = rng.random() < 0.5
    a, b = (gen.big_pair if big else gen.pair)(rng, 2, 2)
    l, m = (gen.big_pair if big else gen.pair)(rng, 1, 1)
    if rng.random() < 0.5:
        l = gen.linear_from(rng, rng.choice([a, b]))
    a, b, l, m = gen.finish(rng, a, b, l, m)
    x, y, u, v = (build(obs, g, rng) for g in (a, b, l, m))
    obs.given(a=lambda: x, b=lambda: y, l=lambda: u, m=lambda: v)

    def op(o, s, t):
        if o == 'sub' and type(s).__name__ == 'Segment' and \
                type(t).__name__ in ('Polygon', 'Multipolygon'):
            # outside of the domain of the operator
            p, q = conv.P(s.start), conv.P(s.end)
            c = plane.mid(p, q)
            s = conv.rene(plane.mseg([(p, c), (c, q)]))
        return boolean(obs, o, s, t)

    def law(name, left, right):
        obs.check(plane.canon(read(obs, left)) == plane.canon(
            read(obs, right)), f'law broken: {name}')
        obs.hit('law', 'mixed law')
    k = rng.randrange(4)
    both = op('or', x, y)
    if k == 0:
        law('distributivity over regions', op('and', u, both),
            op('or', op('and', u, x), op('and', y, u)))
        law('subtraction of regions', op('sub', u, both),
            op('sub', op('sub', u, x), y))
    elif k == 1:
        lines = op('or', u, v)
        law('distributivity over lines', op('and', x, lines),
            op('or', op('and', x, u), op('and', v, x)))
        law('subtraction from lines', op('sub', lines, x),
            op('or', op('sub', u, x), op('sub', v, x)))
    elif k == 2:
        p, q = op('and', u, x), op('sub', u, x)
        law('partition of lines', op('or', p, q), u)
        law('partition of lines', op('xor', p, q), u)
        obs.check(type(op('and', q, x)).__name__ == 'Empty',
                  'law broken: difference meets the subtrahend')
        law('partition of lines', op('sub', u, p), q)
    else:
        law('subtraction of lines', op('sub', op('sub', u, v), x),
            op('sub', op('sub', u, x), v))
        law('intersections', op('and', op('and', u, v), x),
            op('and', op('and', u, x), v))
    if big:
        obs.hit('law on more than 80 edges')
    obs.nontrivial(a.polys, b.polys, l.segs, m.segs)


def case(rng, obs):
    k = rng.random()
    if k < 0.3:
        history(rng, obs, False)
    elif k < 0.5:
        history(rng, obs, True)
    elif k < 0.65:
        history_of_both(rng, obs)
    elif k < 0.75:
        mixed_laws(rng, obs)
    else:
        laws(rng, obs)
