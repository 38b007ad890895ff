"""P07: relate_to names exactly the relation of the operands."""
from fractions import Fraction

from mon import gen, plane

from .common import build, tiny_kinds, touches_of

PROPERTY = 'P07'
QUICK = 20000
THOROUGH = 480
RULE = ('operand pairs from grid worlds, derived shapes, spread components, '
        'fans of rays, chords and sub-edges, under exact affine maps and '
        're-written representations, related both ways round; non-trivial '
        'when the operands have a point in common')
ASSUMPTIONS = ('operands are valid geometries',)
RELATIONS = ('COMPONENT', 'COMPOSITE', 'COVER', 'CROSS', 'DISJOINT',
             'ENCLOSED', 'ENCLOSES', 'EQUAL', 'OVERLAP', 'TOUCH', 'WITHIN')
REQUIRE = {r: 60 for r in RELATIONS}
COMPLEMENT = {'COMPONENT': 'COMPOSITE', 'COVER': 'WITHIN',
              'ENCLOSED': 'ENCLOSES'}
COMPLEMENT.update({v: k for k, v in COMPLEMENT.items()})


def case(rng, obs):
    k = rng.random()
    if k < 0.2:
        # one operand made to fit inside the other
        s = gen.shaped(rng, rng.choice([1, 2, 3, 4]))
        d = rng.choice([1, 2])
        if d == 2:
            b = gen.derived_shape(rng, s)
            if rng.random() < 0.5:
                c = [plane.xy(rng.choice(b.points())) for _ in range(3)]
                cx, cy = (sum(p[t] for p in c) / 3 for t in (0, 1))
                f = Fraction(1, rng.choice([3, 10, 100]))
                b = gen.map_geo(b, gen.Affine(f, 0, 0, f, cx * (1 - f),
                                              cy * (1 - f)))
        else:
            cs = gen.chords(rng, s, rng.randint(1, 4))
            if rng.random() < 0.5:
                # pieces of them, often clear of the border
                ts = [Fraction(k, 6) for k in (0, 1, 2, 3, 4, 5, 6)]
                cs = [(gen.lerp(*c, t), gen.lerp(*c, u)) for c, (t, u) in (
                    (c, rng.sample(ts, 2)) for c in cs[:rng.randint(1, 3)])]
            b = gen.multiseg(cs) if cs else gen.linear_from(rng, s)
        a, b = (s, b) if rng.random() < 0.5 else (b, s)
        if rng.random() < 0.5:
            a, b = gen.outlying(rng, a, b)
        a, b = gen.finish(rng, a, b)
    elif k < 0.21:
        a, b = gen.any_geo(rng), plane.empty()
        if rng.random() < 0.5:
            a, b = b, a
    elif k < 0.33:
        # the relations of a single segment are computed apart
        a, b = gen.kinded_pair(rng, 'segment', rng.choice(
            ['multisegment'] * 3 + ['contour'] * 2 + list(gen.KINDS[2])),
            rng.choice([1, 2, 3]))
        if rng.random() < 0.5:
            a, b = b, a
        a, b = gen.finish(rng, a, b)
    else:
        a, b = gen.pair(rng)
    judge(a, b, rng, obs)
    if rng.random() < 0.5:
        da, db = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
        for ka, kb in tiny_kinds(rng, da, db):
            judge(*gen.tiny_pair(rng, ka, kb), rng, obs, True)
            obs.hit('pair of tiny operands')


def judge(a, b, rng, obs, tiny=False):
    obs.afresh()
    x, y = build(obs, a, rng), build(obs, b, rng)
    obs.given(a=lambda: x, b=lambda: y)
    arr = plane.Arrangement([a, b])
    want = plane.relation(a, b, arr)
    got = obs.run(x.relate_to, y, what='relate_to')
    name = getattr(got, 'name', repr(got))
    obs.check(name == want,
              f'{a.kind} relates to {b.kind} as {name} for {want}')
    back = obs.run(y.relate_to, x, what='relate_to')
    name = getattr(back, 'name', repr(back))
    want_back = COMPLEMENT.get(want, want)
    obs.check(name == want_back,
              f'{b.kind} relates to {a.kind} as {name} for {want_back}')
    obs.check(obs.run(lambda: got.complement, what='complement') is back,
              'complement is not the relation of swapped operands',
              f'{got!r}.complement')
    obs.hit(want, f'{a.kind} {want} {b.kind}')
    contact = touches_of(arr)
    if want != 'DISJOINT' and not tiny:
        obs.nontrivial(a.kind, a.segs, a.polys, b.kind, b.segs, b.polys)
    obs.hit(*contact)
