"""P17: operations are pure: operands never change, answers depend on the
operands only - not on earlier calls, interruptions or other threads."""
import os
import pickle
import random
import struct
import subprocess
import sys
import threading

from rene import exact as rx

from mon import conv, gen, plane
from mon.engine import Inconclusive
from mon.plane import pt

from .common import OPS, SYMBOLS, boolean, build, supported
from .p06 import queries

PROPERTY = 'P17'
QUICK = 1300
THOROUGH = 480
RULE = ('a handful of shared geometries; a list of calls on them (operators, '
        'relations, locations, validity, hash, text, triangulations, '
        'trapezoidations with fixed seeds) is run in order, again shuffled, '
        'again on rebuilt equal operands, in fresh processes which made no '
        'other call, run without assertions and hash strings differently '
        '(operands come with look-alikes: the same vertices walked '
        'backwards, the same hash, first vertex, size or box; some operands '
        'live for one call), '
        'after calls cut off by an exception '
        'raised at a random point inside the library, and from several '
        'threads at once with thread switches forced every microsecond; '
        'trapezoidations and triangulations are asked again and again in any '
        'order while the lists they return are torn up; every '
        'outcome (value or exception, as text) must be the first one, every '
        'operand must read as before; non-trivial always')
ASSUMPTIONS = ('operands are valid geometries',)
REQUIRE = {'repeated call': 7000, 'call on rebuilt operands': 5000,
           'interrupted call': 1000, 'call in a fresh process': 2000,
           'look-alike operand': 500, 'concurrent call': 3000,
           'structure asked again': 3000,
           'overlapping calls': 1000, 'input list changed later': 1000}


class Cut(BaseException):
    pass


# ------------------------------------------------------ calls without a past

class Fresh:
    """another interpreter (without assertions, other hashing of strings)
    which forks a child for every call asked of it, so that the child has no
    history"""

    def __init__(self):
        self.pid = os.getpid()
        self.server = subprocess.Popen(
            [sys.executable, '-O', '-c',
             'import sys; from mon.checks import p17; '
             'sys.setrecursionlimit(int(sys.argv[1])); p17.serve(0, 1)',
             str(sys.getrecursionlimit())],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            env=dict(os.environ, PYTHONHASHSEED='20231',
                     PYTHONPATH=os.pathsep.join(p for p in sys.path if p)))

    def ask(self, request):
        send(self.server.stdin.fileno(), request)
        return receive(self.server.stdout.fileno())


def send(fd, value):
    data = pickle.dumps(value)
    data = struct.pack('<Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def receive(fd):
    def take(n):
        out = b''
        while len(out) < n:
            part = os.read(fd, min(n - len(out), 1 << 20))
            if not part:
                raise EOFError
            out += part
        return out
    return pickle.loads(take(struct.unpack('<Q', take(8))[0]))


def serve(a, b):
    while True:
        try:
            geos, state, indices = receive(a)
        except EOFError:
            return
        answers = []
        for i in indices:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    rng = random.Random()
                    rng.setstate(state)
                    job = jobs_of(rng, geos)[i]
                    xs = [conv.rene(g) for g in geos]
                    answer = job[0], outcome(lambda: job[1](xs))
                except BaseException as e:
                    answer = None, f'{type(e).__name__}: {e}'
                send(w, answer)
                os._exit(0)
            os.close(w)
            try:
                answers.append(receive(r))
            except EOFError:
                answers.append((None, 'the process died'))
            os.close(r)
            os.waitpid(pid, 0)
        send(b, answers)


FRESH = None


def fresh(geos, state, indices):
    global FRESH
    if FRESH is None or FRESH.pid != os.getpid():
        FRESH = Fresh()
    if indices is None:
        return None
    return FRESH.ask((geos, state, indices))


def lookalike(rng, g):
    """another valid geometry with much in common with g, or None"""
    k = rng.randrange(7)
    if k == 0:
        # hash(-1) == hash(-2)
        def f(p):
            return pt(*(-2 if c == -1 else -1 if c == -2 else c
                        for c in plane.xy(p)))
    elif k == 1:
        # one vertex moved a little
        v = rng.choice(g.points())
        d = pt(*(c + rng.randint(-1, 1) for c in plane.xy(v)))

        def f(p):
            return d if p == v else p
    elif k == 2:
        x0, y0, x1, y1 = gen.box_of(g)
        f = gen.Affine(*rng.choice([(-1, 0, 0, 1, x0 + x1, 0),
                                    (1, 0, 0, -1, 0, y0 + y1),
                                    (0, 1, 1, 0, 0, 0),
                                    (-1, 0, 0, -1, 0, 0)]))
    elif k == 3:
        # the first vertex stays
        x, y = plane.xy(g.points()[0])
        f = gen.Affine(-1, 0, 0, -1, 2 * x, 2 * y)
    else:
        def f(p):
            return p

    def turn(r):
        r = [f(p) for p in r]
        return r[:1] + r[:0:-1] if k > 3 else r
    if g.kind in ('segment', 'multisegment'):
        segs = [(f(p), f(q)) for p, q in g.segs]
        if k > 3:
            segs = [(q, p) for p, q in segs]
        h = plane.seg(*segs[0]) if g.kind == 'segment' else plane.mseg(segs)
    elif g.kind == 'contour':
        h = plane.contour(turn(g.verts))
    else:
        polys = [(turn(b), [turn(r) for r in hs]) for b, hs in g.polys]
        if k == 6:
            polys = [(b, hs[:-1]) for b, hs in polys]
        h = (plane.poly(*polys[0]) if g.kind == 'polygon'
             else plane.mpoly(polys))
    try:
        return h if plane.defects(h) is None else None
    except ValueError:
        return None


def outcome(f):
    try:
        return repr(f())
    except Exception as e:
        return f'{type(e).__name__}: {e}'


def loose(rng):
    """a multisegment or contour, valid or not"""
    ps = [pt(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(8)]
    if rng.random() < 0.5:
        segs = [(ps[2 * i], ps[2 * i + 1])
                for i in range(rng.randint(2, 4))
                if ps[2 * i] != ps[2 * i + 1]]
        if len(segs) > 1:
            return plane.mseg(segs)
    ps = list(dict.fromkeys(ps))[:rng.randint(3, 5)]
    return plane.contour(ps if len(ps) > 2 else [pt(0, 0), pt(1, 0),
                                                 pt(0, 1)])


def short_lived(rng, geos):
    """a job on operands of its own, gone when it ends"""
    k = rng.randrange(3)
    g, h = rng.choice(geos), rng.choice(geos)
    if k == 0:
        g = loose(rng)

        def f(_):
            x = conv.rene(g)
            return x.is_valid(), x.bounding_box
        name = f'validity of {g.kind} {g.verts or g.segs}'
    elif k == 1:
        p = conv.rpt(rng.choice(g.points())) if g.points() else rx.Point(0, 0)

        def f(_):
            x = conv.rene(g)
            return (x.locate(p), x.bounding_box, str(x),
                    getattr(x, 'orientation', None))
        name = f'attributes of a short-lived {g.kind}'
    else:
        def f(_):
            return conv.rene(g).relate_to(conv.rene(h))
        name = f'relation of short-lived {g.kind} and {h.kind}'
    return name, f


def jobs_of(rng, geos):
    """-> list of (label, function of the list of rene objects)"""
    out = [short_lived(rng, geos) for _ in range(rng.randint(0, 4))]
    n = len(geos)
    for _ in range(rng.randint(5, 10)):
        i, j = rng.randrange(n), rng.randrange(n)
        k = rng.randrange(9)
        g, h = geos[i], geos[j]
        if k < 4:
            ops = [o for o in OPS if supported(o, g, h)]
            if not ops:
                continue
            op = rng.choice(ops)
            out.append((f'#{i} {SYMBOLS[op]} #{j}',
                        lambda xs, i=i, j=j, op=op: OPS[op](xs[i], xs[j])))
        elif k < 6:
            out.append((f'#{i}.relate_to(#{j})',
                        lambda xs, i=i, j=j: xs[i].relate_to(xs[j])))
        elif k == 6:
            ps = [conv.rpt(q) for q in queries(rng, g, 5)]
            out.append((f'#{i}.locate', lambda xs, i=i, ps=ps:
                        [xs[i].locate(p) for p in ps]))
        elif k == 7:
            out.append((f'#{i} attributes', lambda xs, i=i, j=j:
                        (xs[i].bounding_box, str(xs[i]),
                         xs[i] == xs[i], xs[i] == xs[j],
                         getattr(xs[i], 'orientation', None),
                         [list(getattr(xs[i], a)) for a in
                          ('segments', 'vertices', 'polygons', 'holes')
                          if hasattr(xs[i], a)],
                         xs[i].is_valid() if hasattr(xs[i], 'is_valid')
                         else None)))
        elif g.kind == 'polygon':
            s = rng.randrange(1000)
            ps = [conv.rpt(q) for q in queries(rng, g, 5)]

            def f(xs, i=i, s=s, ps=ps):
                t = rx.Trapezoidation.from_polygon(xs[i], seeder=lambda: s)
                return t.height, [t.locate(p) for p in ps]
            out.append((f'trapezoidation of #{i} seed {s}', f))
            out.append((f'triangulation of #{i}', lambda xs, i=i: (
                lambda t: (t.border, list(t.triangles)))(
                rx.ConstrainedDelaunayTriangulation.from_polygon(xs[i]))))
        elif g.kind in ('contour', 'multipolygon'):
            out.append((f'Delaunay of #{i}', lambda xs, i=i, g=g: (
                lambda t: list(t.triangles))(
                rx.DelaunayTriangulation.from_points(
                    list({conv.rpt(p): 0 for p in g.points()})))))
        elif g.kind == 'multisegment':
            s = rng.randrange(1000)
            ps = [conv.rpt(q) for q in queries(rng, g, 5)]

            def f(xs, i=i, s=s, ps=ps):
                t = rx.Trapezoidation.from_multisegment(xs[i],
                                                        seeder=lambda: s)
                return t.height, [t.locate(p) for p in ps]
            out.append((f'trapezoidation of #{i} seed {s}', f))
    return out


def interrupted(f, at):
    """runs f, raising inside the library at its at-th function call;
    -> whether it was cut"""
    left = [at]

    def trace(frame, event, arg):
        if event == 'call' and '/rene/' in frame.f_code.co_filename:
            left[0] -= 1
            if left[0] <= 0:
                sys.settrace(None)
                raise Cut
        return None
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        f()
    except Cut:
        return True
    except Exception:
        return False
    finally:
        sys.settrace(old)
    return False


def case(rng, obs):
    geos = []
    for _ in range(rng.randint(1, 2)):
        geos += gen.pair(rng, size=rng.choice([1, 2, 3]))
    if sum(len(g.edges()) for g in geos) > 150:
        geos = geos[:2]
    fresh(None, None, None)
    for g in list(geos):
        if rng.random() < 0.5 and g.kind != 'empty':
            h = lookalike(rng, g)
            if h is not None:
                geos.append(h)
                obs.hit('look-alike operand')
    xs = [build(obs, g) for g in geos]
    obs.given(operands=lambda: xs)
    state = rng.getstate()
    jobs = jobs_of(rng, geos)
    if not jobs:
        return
    obs.given(calls=lambda: [n for n, _ in jobs])
    before = [(repr(x), hash(x)) for x in xs]
    obs.in_code += 1
    first = [outcome(lambda: f(xs)) for _, f in jobs]
    unchanged(obs, xs, before, 'calls')
    order = list(range(len(jobs)))
    rng.shuffle(order)
    for i in order:
        same(obs, jobs[i], outcome(lambda: jobs[i][1](xs)), first[i],
             'a repeated call')
        obs.hit('repeated call')
    ys = [conv.rene(g) for g in geos]
    for i in order[::-1]:
        same(obs, jobs[i], outcome(lambda: jobs[i][1](ys)), first[i],
             'a call on rebuilt operands')
        obs.hit('call on rebuilt operands')
    some = order[:4]
    for i, (name, got) in zip(some, fresh(geos, state, some)):
        if name != jobs[i][0]:
            raise Inconclusive(f'no answer of a fresh process: {got}')
        same(obs, jobs[i], first[i], got, 'a call with others before it')
        obs.hit('call in a fresh process')
    for _ in range(2):
        i = rng.randrange(len(jobs))
        if interrupted(lambda: jobs[i][1](xs),
                       int(1.5 ** rng.uniform(0, 18))):
            obs.hit('interrupted call')
        for j in {i, rng.randrange(len(jobs))}:
            same(obs, jobs[j], outcome(lambda: jobs[j][1](xs)), first[j],
                 'a call after an interrupted one')
    unchanged(obs, xs, before, 'interrupted calls')
    if rng.random() < 0.35:
        threads(rng, obs, xs, jobs, first)
        unchanged(obs, xs, before, 'concurrent calls')
    structures(rng, obs, geos, xs)
    obs.in_code -= 1
    lists(rng, obs, geos)
    obs.nontrivial(*[(g.segs, g.polys, g.verts) for g in geos],
                   [n for n, _ in jobs])


def structures(rng, obs, geos, xs):
    """search structures and triangulations answer alike however often and in
    whatever order they are asked, whatever becomes of their answers"""
    asks = []
    for g, x in rng.sample(list(zip(geos, xs)), 1):
        seed = rng.randrange(1000)
        if g.kind == 'polygon':
            t = rx.Trapezoidation.from_polygon(x, seeder=lambda: seed)
            if gen.connected(g):
                c = rx.ConstrainedDelaunayTriangulation.from_polygon(x)
                asks += [('triangles of a polygon', lambda: c.triangles),
                         ('border of a polygon', lambda: c.border)]
        elif g.kind == 'multisegment':
            t = rx.Trapezoidation.from_multisegment(x, seeder=lambda: seed)
        else:
            t = None
        if t is not None:
            for p in [conv.rpt(q) for q in queries(rng, g, 6)]:
                asks.append((f'location of {p!r}', lambda p=p: t.locate(p)))
                asks.append((f'{p!r} in it', lambda p=p: p in t))
            asks.append(('height', lambda: t.height))
        if g.points():
            d = rx.DelaunayTriangulation.from_points(
                [conv.rpt(p) for p in g.points()])
            asks += [('triangles of points', lambda: d.triangles),
                     ('border of points', lambda: d.border),
                     ('truth', lambda: bool(d))]
    first = {}
    for turn in range(3):
        rng.shuffle(asks)
        for name, f in asks:
            kept = []
            got = outcome(lambda: kept.append(f()) or kept[0])
            obs.check(first.setdefault(name, got) == got,
                      'a structure asked again answers differently',
                      lambda: f'{name}: {got[:300]}, first '
                      f'{first[name][:300]}')
            if kept and isinstance(kept[0], list) and rng.random() < 0.5:
                kept[0].reverse()
                kept[0][:len(kept[0]) // 2] = []
            obs.hit('structure asked again')
        if asks:
            interrupted(rng.choice(asks)[1], int(1.5 ** rng.uniform(0, 8)))


def same(obs, job, got, want, when):
    obs.check(got == want, f'{when} answers differently',
              lambda: f'{job[0]}: {got[:300]}, first {want[:300]}')


def unchanged(obs, xs, before, what):
    obs.check([(repr(x), hash(x)) for x in xs] == before,
              f'operand changed by {what}',
              lambda: '; '.join(str(b) for x, b in zip(xs, before)
                                if (repr(x), hash(x)) != b)[:500])


def threads(rng, obs, xs, jobs, first):
    n = 4
    orders = []
    for _ in range(n):
        o = list(range(len(jobs)))
        rng.shuffle(o)
        orders.append(o[:6])
    wrong, active, overlaps = [], [0], [0]
    start = threading.Barrier(n)

    def work(order):
        start.wait()
        for i in order:
            active[0] += 1
            if active[0] > 1:
                overlaps[0] += 1
            got = outcome(lambda: jobs[i][1](xs))
            active[0] -= 1
            if got != first[i]:
                wrong.append((i, got))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(o,), daemon=True)
              for o in orders]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    obs.events['concurrent call'] += sum(map(len, orders))
    obs.events['overlapping calls'] += overlaps[0]
    for i, got in wrong:
        same(obs, jobs[i], got, first[i], 'a concurrent call')


def lists(rng, obs, geos):
    """constructors keep what they were given, not the list"""
    for g in geos:
        if g.kind == 'contour':
            parts, cls = [conv.rpt(v) for v in g.verts], rx.Contour
        elif g.kind == 'multisegment':
            parts, cls = [conv.rsegment(s) for s in g.segs], rx.Multisegment
        elif g.kind == 'multipolygon':
            parts = [conv.rpoly(*p) for p in g.polys]
            cls = rx.Multipolygon
        elif g.kind == 'polygon':
            b = conv.rcontour(g.polys[0][0])
            parts = [conv.rcontour(h) for h in g.polys[0][1]]

            def cls(hs, b=b):
                return rx.Polygon(b, hs)
        else:
            continue
        copy = list(parts)
        x = obs.run(cls, parts, what='constructor')
        obs.check(parts == copy, 'constructor changes its argument')
        before = repr(x), hash(x)
        if rng.random() < 0.5:
            parts.clear()
        else:
            parts.reverse()
            parts.append(parts[0] if parts else None)
        obs.check((repr(x), hash(x)) == before
                  and conv.plain(x).edges() == g.edges(),
                  f'{g.kind} follows later changes of its argument')
        obs.hit('input list changed later')
    pts = [conv.rpt(p) for p in {p for g in geos for p in g.points()}]
    copy = list(pts)
    t = obs.run(rx.DelaunayTriangulation.from_points, pts,
                what='from_points')
    obs.check(pts == copy, 'from_points changes its argument')
    before = repr(list(t.triangles))
    pts.clear()
    obs.check(repr(list(t.triangles)) == before,
              'triangulation follows later changes of its argument')
