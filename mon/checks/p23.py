"""P23: operations hold on to nothing: what calls allocated can be reclaimed
once their operands and results are dropped."""
import gc
import os
import sys
import tracemalloc
from array import array
from fractions import Fraction

from rene import exact as rx

from mon import conv, engine, gen, plane

from .common import OPS, supported
from .p10 import ring, segments

PROPERTY = 'P23'
QUICK = 600
THOROUGH = 300
CHUNK = 10
RULE = ('rounds of the same forty calls on operands that never were before '
        '(moved a little further each time), or on one operand that stays '
        'and others that come and go; everything is dropped after each call, '
        'garbage is collected after each round and the blocks of memory in use '
        'are counted; where they increase with every round, rounds are run '
        'again under tracemalloc and the blocks allocated by calls into rene '
        'that are still alive are added up; non-trivial always')
ASSUMPTIONS = ('caches bounded by fewer than three hundred entries are fine',
               'memory held inside of extension modules (rithm) is not seen')
ROUNDS, LAST = 9, 4
CODE = os.path.join(engine.REPO, 'rene') + os.sep
HERE = os.path.join(engine.ROOT, 'mon') + os.sep


def retained():
    """bytes and blocks allocated under calls into rene that are alive"""
    gc.collect()
    size = count = 0
    for t in tracemalloc.take_snapshot().traces:
        frames = t.traceback
        if frames[-1].filename.startswith(HERE):
            continue
        if any(f.filename.startswith(CODE) for f in frames):
            size += t.size
            count += 1
    return size, count


def probe(rng, g):
    p = rng.choice(g.points()) if rng.random() < 0.5 else gen.rnd_pt(rng, 4, 2)
    return p


def boolean(op):
    def call(x, y, p):
        r = OPS[op](x, y)
        return type(r).__name__
    return call


def relation(x, y, p):
    x.relate_to(y).complement


def location(x, y, p):
    x.locate(p), y.locate(p), p in x, p in y


def validity(x, y, p):
    x.is_valid(), y.is_valid()


def comparison(x, y, p):
    x == y, x != y, hash(x), hash(y), {x: 1}.get(y), p == p, hash(p)


def text(x, y, p):
    repr(x), str(y), repr(p), str(x.bounding_box)


def boxes(x, y, p):
    u, v = x.bounding_box, y.bounding_box
    u.relate_to(v), u.is_valid(), u.overlaps(v), u == v, hash(u)
    u.disjoint_with(v), u.touches(v), u.covers(v), u.within(v)


def views(x, y, p):
    for z in (x, y):
        for n in ('segments', 'vertices', 'polygons', 'holes'):
            v = getattr(z, n, None)
            if v is not None:
                list(v), v[:], v[::-1] == v, hash(v), v.count(p), p in v
                if n == 'vertices':
                    z.orientation
                if len(v):
                    v.index(v[-1]), v[0] in v


def delaunay(x, y, p):
    pts = []
    for z in (x, y):
        if hasattr(z, 'segments'):
            pts += [s.start for s in z.segments]
        elif hasattr(z, 'start'):
            pts += [z.start, z.end]
        else:
            for q in getattr(z, 'polygons', [z]):
                pts += q.border.vertices
    t = rx.DelaunayTriangulation.from_points(pts)
    if t.triangles:
        t.border


def constrained(x, y, p):
    for z in (x, y):
        for q in getattr(z, 'polygons', [z] if hasattr(z, 'border') else []):
            t = rx.ConstrainedDelaunayTriangulation.from_polygon(q)
            t.triangles, t.border


def trapezoidation(x, y, p):
    for z in (x, y):
        if hasattr(z, 'border'):
            t = rx.Trapezoidation.from_polygon(z, seeder=lambda: 5)
        elif type(z) is rx.Multisegment:
            t = rx.Trapezoidation.from_multisegment(z)
        else:
            continue
        t.locate(p), p in t, t.height


def refusal(x, y, p):
    for f in (lambda: x & p, lambda: x.relate_to(5), lambda: rx.Contour([p]),
              lambda: rx.Multisegment([]), lambda: rx.Point(p, p),
              lambda: rx.Box(0, 1, 0, 'x'), lambda: x.locate(None)):
        try:
            f()
        except Exception:
            continue


class Standing:
    """search structures that stay and get asked"""

    def __init__(self, z):
        self.asked = []
        if hasattr(z, 'border'):
            self.t = rx.Trapezoidation.from_polygon(z)
            self.asked.append(
                rx.ConstrainedDelaunayTriangulation.from_polygon(z))
            pts = z.border.vertices
        else:
            self.t = rx.Trapezoidation.from_multisegment(z)
            pts = [s.start for s in z.segments]
        self.asked.append(rx.DelaunayTriangulation.from_points(pts))

    def __call__(self, x, y, p):
        for _ in range(3):
            self.t.locate(p), p in self.t
        self.t.height
        for d in self.asked:
            if d.triangles:
                d.border


CALLS = {'standing structures': None, **{f'operator {op}': boolean(op) for op in OPS},
         'relation': relation, 'location': location, 'validity': validity,
         'comparison': comparison, 'text': text, 'boxes': boxes,
         'views': views, 'delaunay': delaunay, 'constrained': constrained,
         'trapezoidation': trapezoidation, 'refusal': refusal}
DIMS = {'operator or': [(1, 1), (2, 2)], 'operator xor': [(1, 1), (2, 2)],
        'operator sub': [(1, 1), (2, 2), (1, 2)],
        'constrained': [(2, 2)], 'validity': [(1, 1)]}
REQUIRE = {**{n: 5 for n in CALLS}, 'operand that stays': 50,
           'operands that come and go': 100, 'calls': 10000}


def operands(rng, what):
    d = rng.choice(DIMS.get(what, [(1, 1), (1, 2), (2, 1), (2, 2)]))
    while True:
        if what == 'validity':
            a, b = (plane.mseg(segments(rng)) if rng.random() < 0.7
                    else plane.contour(ring(rng)) for _ in range(2))
        elif rng.random() < 0.7:
            a, b = gen.tiny_pair(rng, rng.choice(gen.KINDS[d[0]]),
                                 rng.choice(gen.KINDS[d[1]]))
        else:
            a, b = gen.pair(rng, *d, size=1)
        if what == 'constrained' and not all(
                gen.connected(plane.poly(*p)) for g in (a, b)
                for p in g.polys):
            continue
        if what.startswith('operator') and not supported(
                what.split()[1], a, b):
            continue
        return a, b, probe(rng, a)


def moved(g, d):
    return gen.map_geo(g, gen.Affine(1, 0, 0, 1, d, -d))


def case(rng, obs):
    what = rng.choice(list(CALLS))
    call = CALLS[what]
    n = 40
    stays = rng.random() < 0.35 or call is None
    jobs = [operands(rng, what) for _ in range(n)]
    if call is None:
        while not (jobs[0][0].kind in ('multisegment', 'polygon')
                   and gen.connected(jobs[0][0])):
            jobs[0] = operands(rng, what)
    if stays:
        jobs = [(jobs[0][0], b, p) for _, b, p in jobs
                if not what.startswith('operator')
                or supported(what.split()[1], jobs[0][0], b)]
        obs.hit('operand that stays')
    else:
        obs.hit('operands that come and go')
    # what is there by now needs no looking at
    gc.collect()
    gc.freeze()
    try:
        rounds(rng, obs, what, call, jobs, stays)
    finally:
        gc.unfreeze()


def rounds(rng, obs, what, call, jobs, stays):
    stay = conv.rene(jobs[0][0]) if stays else None
    if call is None:
        call = obs.run(Standing, stay, what='construction')
    obs.given(calls=lambda: what, operands=lambda: [
        (conv.rene(a), conv.rene(b)) for a, b, _ in jobs][:5])
    step = rng.choice([Fraction(1, 3), 1, Fraction(1, 10 ** 9), 1000])
    done = [0]

    def turn():
        for a, b, p in jobs:
            d = step * done[0]
            x = stay if stays else conv.rene(moved(a, d))
            y = conv.rene(moved(b, d))
            q = conv.rpt(plane.pt(*(plane.xy(p)[0] + d,
                                    plane.xy(p)[1] - d)))
            obs.run(call, x, y, q, what=what)
            x = y = q = None
        done[0] += 1
        obs.events['calls'] += len(jobs)

    # blocks of the interpreter first: counting them costs nothing
    seen, sizes = (array('q', [0] * ROUNDS) for _ in range(2))
    for i in range(ROUNDS):
        turn()
        gc.collect()
        seen[i] = sys.getallocatedblocks()
        sizes[i] = sum(map(sys.getsizeof, gc.get_objects()))
    if grows(seen) or grows(sizes, 50):
        obs.hit('closer look')
        tracemalloc.start(4)
        try:
            traced = []
            for _ in range(ROUNDS):
                turn()
                traced.append(retained())
        finally:
            tracemalloc.stop()
        obs.check(not grows([t[0] for t in traced], 50),
                  'memory is retained by ' + what,
                  lambda: f'blocks of the interpreter after each round: '
                  f'{list(seen)}, bytes and blocks allocated in rene: '
                  f'{traced}')
    obs.hit(what)
    obs.nontrivial(what, stays, [(a.segs, a.polys, b.segs, b.polys)
                                 for a, b, _ in jobs])


def grows(series, least=1):
    """the last rounds leave something behind (lists grow by leaps)"""
    tail = series[-LAST - 1:]
    return (tail[-1] - tail[0] >= least * LAST
            and sum(t > s for s, t in zip(tail, tail[1:])) >= LAST // 2
            and min(t - s for s, t in zip(tail, tail[1:])) >= 0)
