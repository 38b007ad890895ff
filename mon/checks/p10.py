"""P10: validity predicates of contours and multisegments."""
from mon import gen, plane
from mon.plane import pt

from .common import build

PROPERTY = 'P10'
QUICK = 70000
THOROUGH = 480
RULE = ('vertex and segment lists, valid or with a defect of each kind: '
        'repeated or collinear vertices, self-touching and crossing rings, '
        'crossing, overlapping and equal segments, many collinear overlaps; '
        'non-trivial when some two non-neighbouring parts have a point in '
        'common or the list is valid')
ASSUMPTIONS = ('segments have distinct endpoints, contours at least three '
               'vertices (constructors demand it)',)
REQUIRE = {'contour valid': 300, 'contour invalid': 300,
           'multisegment valid': 300, 'multisegment invalid': 300,
           'overlap': 200, 'crossing': 200, 'edges meet': 50,
           'collinear vertices': 100, 'self-touching vertex': 30,
           'many collinear overlaps': 200, 'T joints, valid': 50,
           'more than 40 parts': 10}


def points(rng, n):
    mode = rng.randrange(4)
    if mode == 0:
        return lambda: (pt(rng.randint(0, n), 0) if rng.random() < 0.8 else
                        pt(rng.randint(0, n), rng.randint(0, n)))
    if mode == 1:
        u, v = rng.choice([(1, 0), (0, 1), (1, 2), (-3, 1), (1, 1)])

        def p():
            t = rng.randint(-n, n)
            return pt(t * u, t * v)
        return p
    if mode == 2:
        lines = rng.randint(1, 3)

        def p():
            return pt(rng.randint(-n, n), rng.randint(1, lines))
        return p
    return lambda: gen.rnd_pt(rng, n)


def segments(rng):
    k = rng.randrange(8)
    if k < 4:
        n = rng.choice([1, 2, 3, 5, 9])
        p = points(rng, n)
        out = []
        for _ in range(400):
            if len(out) >= rng.choice([2, 3, 5, 9, 16]):
                break
            e = (p(), p())
            if e[0] != e[1]:
                out.append(e)
        if rng.random() < 0.3:
            out = gen.valid_subset(rng, out, 40)
    elif k < 6:
        g = gen.linear(rng, rng.choice([1, 2, 3, 5]))
        if rng.random() < 0.3:
            g = gen.row(rng, 'multisegment', [
                rng.choice([0, 0, 1, -1])
                for _ in range(rng.choice([2, 3, 4, 6, 9]))]) or g
        out = list(g.segs)
    elif k == 6:
        g = gen.shaped(rng, rng.choice([1, 2, 3]))
        out = gen.valid_subset(rng, g.edges(), 60)
    else:
        g = gen.big_linear(rng)
        out = list(g.segs)
    # a single late defect in an otherwise fine list
    if out and rng.random() < 0.35:
        m = rng.randrange(4)
        e = rng.choice(out)
        if m == 0:
            out.append(e if rng.random() < 0.5 else e[::-1])
        elif m == 1:
            out.append(gen.subsegment(rng, e))
        elif m == 2:
            f = rng.choice(out)
            a, b = plane.mid(*e), plane.mid(*f)
            if a != b:
                out.append((a, b))
        else:
            a, b = gen.rnd_pt(rng, 3), rng.choice(e)
            if a != b:
                out.append((a, b))
    while len(out) < 2:
        e = (gen.rnd_pt(rng, 3), gen.rnd_pt(rng, 3))
        if e[0] != e[1]:
            out.append(e)
    return out


def ring(rng):
    k = rng.randrange(7)
    if k == 0:
        p = points(rng, rng.choice([1, 2, 3]))
        return [p() for _ in range(rng.randint(3, 7))]
    if k == 1:
        n = rng.choice([1, 2, 3])
        out = []
        for _ in range(rng.randint(3, 7)):
            for _ in range(20):
                v = gen.rnd_pt(rng, n)
                if v not in out and (len(out) < 2
                                     or plane.orient(*out[-2:], v)):
                    break
            out.append(v)
        return out
    if k == 2:
        out = gen.big_ring(rng, rng.randint(20, 60))
    else:
        out = list(rng.choice(list(gen.shaped(rng, rng.choice([1, 2, 3]))
                                   .rings())))
    m = rng.randrange(8)
    i = rng.randrange(len(out))
    if m == 0:
        # a vertex pulled onto another edge or vertex
        j = rng.randrange(len(out))
        out[i] = rng.choice([out[j], plane.mid(out[j - 1], out[j])])
    elif m == 1:
        out.insert(i, plane.mid(out[i - 1], out[i]))
    elif m == 2:
        out.insert(i, out[i])
    elif m == 3:
        j = rng.randrange(len(out))
        out[i], out[j] = out[j], out[i]
    elif m == 4:
        # spike: leave along the previous edge
        out.insert(i, gen.lerp(out[i - 1], out[i], 2))
    elif m == 5 and len(out) > 3:
        # figure of eight at a vertex
        out.insert(i, rng.choice(out))
    return out


def case(rng, obs):
    if rng.random() < 0.5:
        segs = segments(rng)
        g = gen.map_geo(plane.mseg(segs), gen.affine(rng))
        rng.shuffle(g.segs)
        g = plane.mseg([e if rng.random() < 0.5 else e[::-1] for e in g.segs])
        d = plane.multisegment_defects(g.segs)
        big = len(g.segs) > 40
        if d and d.startswith('overlap') and overlaps(g.segs) > 4:
            obs.hit('many collinear overlaps')
        if not d and t_joint(g.segs):
            obs.hit('T joints, valid')
    else:
        vs = ring(rng)
        g = gen.map_geo(plane.contour(vs), gen.affine(rng))
        vs = g.verts
        i = rng.randrange(len(vs))
        vs = vs[i:] + vs[:i]
        g = plane.contour(vs[::-1] if rng.random() < 0.5 else vs)
        d = plane.contour_defects(g.verts)
        big = len(vs) > 40
    x = build(obs, g, rng)
    obs.given(geometry=lambda: x)
    got = obs.run(x.is_valid, what='is_valid')
    word = '' if d is None else ' '.join(d.split()[:2])
    if got is not (d is None):
        obs.fail(f'{g.kind}.is_valid is {got} with '
                 + (defect_class(d) if d else 'no defect'), d or '')
    obs.hit(f'{g.kind} {"valid" if d is None else "invalid"}')
    for w in ('overlap', 'crossing', 'edges meet', 'collinear vertices',
              'self-touching vertex', 'repeated vertex', 'edges overlap'):
        if word and d.startswith(w):
            obs.hit(w)
    if big:
        obs.hit('more than 40 parts')
    if d is None or not d.startswith('collinear'):
        obs.nontrivial(g.kind, g.segs)


def defect_class(d):
    return ' '.join(w for w in d.split() if w.isalpha())


def overlaps(segs):
    ss = [plane.sorted_seg(*e) for e in segs]
    n = 0
    for i in range(len(ss)):
        for j in range(i):
            r = plane.seg_inter(ss[i], ss[j])
            if r and r[0] == 'overlap':
                n += 1
                if n > 4:
                    return n
    return n


def t_joint(segs):
    pts = {p for e in segs for p in e}
    return any(p not in e and plane.on_segment(*e, p)
               for e in segs for p in pts)
