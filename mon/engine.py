"""Workload runner shared by every monitor.

A check module (mon/checks/pNN.py) provides

    PROPERTY, RULE, ASSUMPTIONS
    QUICK, THOROUGH      number of cases / seconds of exploration
    REQUIRE              {event name: least number of observations}
    case(rng, obs)       one workload; reports through obs

Verdicts are three-valued: exit 0 (held on everything observed), exit 1 (a
VIOLATION line with a replay file), exit 2 (inconclusive: monitor not reached,
harness error, oracle ran out of its own time).
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import threading
import time
import traceback
from collections import Counter
from multiprocessing import get_context

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

CASE_CPU = 40.0  # CPU seconds one case may spend before it counts as a hang
MEMORY = 3 << 30
PROCS = int(os.environ.get('VERIF_PROCS', '8'))


class Violated(Exception):
    def __init__(self, key, detail):
        super().__init__(f'{key}: {detail}')
        self.key, self.detail = key, detail


class OutOfTime(BaseException):
    pass


class Inconclusive(Exception):
    pass


class Obs:
    """What one case observed."""

    def __init__(self):
        self.events = Counter()
        self.sigs = []
        self.inputs = []
        self.in_code = 0

    def hit(self, *names):
        for n in names:
            self.events[n] += 1

    def nontrivial(self, *parts):
        """marks the case as non-trivial; parts identify it"""
        self.sigs.append(hashlib.blake2b(repr(parts).encode(),
                                         digest_size=8).digest())

    def given(self, **values):
        """human readable inputs for the replay file"""
        for k, v in values.items():
            self.inputs.append((k, v))

    def afresh(self):
        """the inputs so far are not those of what follows"""
        self.inputs.clear()

    def run(self, f, *args, **kw):
        """calls the code under test: whatever it raises refutes the property
        unless listed in `allow`"""
        allow = kw.pop('allow', ())
        what = kw.pop('what', None)
        self.in_code += 1
        try:
            return f(*args, **kw)
        except allow:
            raise
        except Violated:
            raise
        except Exception as e:
            raise Violated(
                f'raised {type(e).__name__}',
                f'{what or getattr(f, "__name__", f)} raised '
                f'{type(e).__name__}: {str(e)[:300]} at {where(e)}') from e
        finally:
            # OutOfTime leaves the counter raised on purpose: the handler
            # looks at it
            if not isinstance(sys.exc_info()[1], OutOfTime):
                self.in_code -= 1

    def fail(self, key, detail=''):
        raise Violated(str(key), show(detail))

    def check(self, ok, key, detail=''):
        if not ok:
            self.fail(key, detail)


def where(e):
    out = []
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(REPO):
            out.append(f'{os.path.relpath(f.filename, REPO)}:{f.name}')
    return ' < '.join(reversed(out[-3:])) or 'harness'


def _alarm(signum, frame):
    raise OutOfTime


def init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    sys.setrecursionlimit(20000)
    threading.stack_size(64 << 20)


_LINES = {}


def cover_start():
    """records which lines of rene ran (each line event fires once)"""
    mon = getattr(sys, 'monitoring', None)
    if mon is None or _LINES.get('on'):
        return
    prefix = os.path.join(REPO, 'rene') + os.sep

    def line(code, no):
        fn = code.co_filename
        if fn.startswith(prefix):
            _LINES.setdefault('hits', set()).add((fn, no))
        return mon.DISABLE
    try:
        mon.use_tool_id(mon.COVERAGE_ID, 'verif')
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        _LINES['on'] = True
    except ValueError:
        pass


def cover_take():
    return _LINES.pop('hits', set())


def run_case(module, seed, tier, index):
    """-> (events, sigs, inputs, verdict) with verdict None | ('V', key, detail)
    | ('I', detail)"""
    rng = random.Random(f'{seed}:{module.PROPERTY}:{tier}:{index}')
    obs = Obs()
    limit = getattr(module, 'CASE_CPU', CASE_CPU)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            module.case(rng, obs)
            verdict = None
        except Violated as v:
            verdict = ('V', v.key, v.detail)
        except OutOfTime:
            verdict = (('V', 'does not terminate',
                        f'call still running after {limit} s of CPU')
                       if obs.in_code else
                       ('I', f'oracle ran out of time on case {index}'))
        except MemoryError:
            verdict = (('V', 'runs out of memory', '') if obs.in_code else
                       ('I', f'oracle ran out of memory on case {index}'))
        except Inconclusive as e:
            verdict = ('I', str(e))
        except Exception as e:
            place = where(e)
            verdict = (
                ('I', f'harness error on case {index}: '
                 + ''.join(traceback.format_exception(e))[-1500:])
                if place == 'harness' else
                # the library raised in a call made outside of `run`
                ('V', f'raised {type(e).__name__}',
                 f'{type(e).__name__}: {str(e)[:300]} at {place}'))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except OutOfTime:  # the alarm raced with the end of the case
        verdict = None
    return obs.events, obs.sigs, obs.inputs, verdict


def load(prop):
    return importlib.import_module('mon.checks.' + prop.lower())


def show(value):
    try:
        v = value() if callable(value) else value
        s = v if isinstance(v, str) else repr(v)
    except Exception as e:  # a broken repr must not hide the violation
        s = f'<unprintable: {e!r}>'
    return s


def run_chunk(args):
    prop, seed, tier, start, stop, deadline, want_sample = args
    module = load(prop)
    events, sigs, bad, incon, samples = Counter(), set(), [], [], []
    done = 0
    for i in range(start, stop):
        if time.time() > deadline:
            break
        ev, sg, inputs, verdict = run_case(module, seed, tier, i)
        done += 1
        events.update(ev)
        sigs.update(sg)
        if verdict is not None:
            rec = {'index': i, 'verdict': verdict[1:],
                   'inputs': [(k, show(v)[:4000]) for k, v in inputs]}
            (bad if verdict[0] == 'V' else incon).append(rec)
        elif want_sample and sg and len(samples) < 1:
            samples.append({'index': i, 'observed': sorted(ev),
                            'inputs': [(k, show(v)[:400]) for k, v in inputs]})
    return done, events, sigs, bad, incon, samples, cover_take()


def chunk_entry(args):
    cover_start()
    return run_chunk(args)


# --------------------------------------------------------- known findings

def known_findings(prop):
    """lines `known: property=<id> key=<mechanism> :: <what fails>`"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known:') and f'property={prop} ' in line:
                    key = line.split('key=', 1)[1].split('::')[0].strip()
                    out.append((key, line.split('::', 1)[1].strip()))
    return out


# ------------------------------------------------------------------- main

def coverage_summary(hits):
    import ast
    per = {}
    for fn, no in hits:
        per.setdefault(fn, set()).add(no)
    out = {}
    for fn, nos in sorted(per.items()):
        try:
            with open(fn) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        inside = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                body = node.body if isinstance(node.body, list) else [node.body]
                for b in body:
                    for n in ast.walk(b):
                        if isinstance(n, (ast.stmt, ast.expr)):
                            inside.add(n.lineno)
        if inside:
            out[os.path.relpath(fn, REPO)] = (
                f'{len(nos & inside)}/{len(inside)}')
    return out


def main(prop, tier):
    sys.path.insert(0, ROOT)
    started = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    import rene
    if not os.path.abspath(rene.__file__).startswith(REPO + os.sep):
        print(f'rene imported from {rene.__file__}, not {REPO}')
        return 2
    module = load(prop)
    known = known_findings(prop)
    quick = tier == 'quick'
    cases = module.QUICK if quick else None
    budget = (float(os.environ.get('VERIF_QUICK_CAP', '240')) if quick else
              float(os.environ.get('VERIF_THOROUGH_S',
                                   getattr(module, 'THOROUGH', 480))))
    deadline = started + budget
    chunk = getattr(module, 'CHUNK', 25)
    ctx = get_context('fork')
    events, sigs, bad, incon, samples, hits = (Counter(), set(), [], [], [],
                                               set())
    done = 0

    def jobs():
        start = 0
        while (cases is None or start < cases) and time.time() < deadline:
            stop = start + chunk if cases is None else min(start + chunk,
                                                           cases)
            yield (prop, seed, tier, start, stop, deadline,
                   start // chunk % 7 == 0)
            start = stop
    stop_at = None
    timed_out = False
    pool = ctx.Pool(PROCS, init_worker)
    try:
        it = bounded(pool, jobs(), PROCS * 3)
        while True:
            try:
                r = it.next(max(5.0, deadline + 2 * CASE_CPU + 60
                                - time.time()))
            except StopIteration:
                break
            except TimeoutError:
                timed_out = True
                break
            d, ev, sg, b, inc, sm, hl = r
            done += d
            events.update(ev)
            sigs |= sg
            bad += b
            incon += inc
            if len(samples) < 8:
                samples += sm
            hits |= hl
            if stop_at is None and any(match(known, v['verdict']) is None
                                       for v in bad):
                stop_at = time.time() + 1
            if stop_at is not None and time.time() > stop_at:
                break
            if len(incon) > 5:
                break
    finally:
        pool.terminate()
        pool.join()
    extra = {}
    if hasattr(module, 'finish'):
        extra = module.finish(events)
    fresh = [v for v in bad if match(known, v['verdict']) is None]
    listed = [v for v in bad if match(known, v['verdict']) is not None]
    os.makedirs(REPLAYS, exist_ok=True)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done, 'distinct_nontrivial': len(sigs),
            'rule': module.RULE, 'samples': samples[:8] or ['none'],
            'observed_events': dict(sorted(events.items())),
            'lines_of_rene_executed': coverage_summary(hits), **extra},
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - started, 2),
        'violations': len(fresh)}
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    for key, text in known:
        n = sum(match([(key, text)], v['verdict']) is not None for v in listed)
        print(f'KNOWN-FINDING: property={prop} {text} (seen {n} times)')
    print(f'{prop} {tier} seed={seed}: {done} cases, {len(sigs)} distinct '
          f'non-trivial, {sum(events.values())} events, '
          f'{time.time() - started:.1f} s')
    if fresh:
        by_key = {}
        for v in fresh:
            k = v['verdict'][0]
            size = sum(len(s) for _, s in v['inputs'])
            if k not in by_key or size < by_key[k][0]:
                by_key[k] = (size, v)
        for n, (k, (_, v)) in enumerate(sorted(by_key.items())):
            path = os.path.join(REPLAYS, f'{prop}-{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'tier': tier,
                           'index': v['index'], 'mechanism': k,
                           'detail': v['verdict'][1],
                           'inputs': v['inputs']}, f, indent=1)
            print(f'  {k}: {v["verdict"][1][:600]}')
            for name, s in v['inputs']:
                print(f'    {name} = {s[:600]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if incon:
        for v in incon[:3]:
            print('INCONCLUSIVE:', v['verdict'][0])
        return 2
    if timed_out:
        print('INCONCLUSIVE: the workload did not finish in time')
        return 2
    if quick or done >= module.QUICK:
        missing = {k: (events[k], n) for k, n in module.REQUIRE.items()
                   if events[k] < n}
        if missing and done < (cases or 0):
            print(f'note: only {done} of {cases} cases fitted in the time; '
                  f'thin: {missing}')
            missing = {k: v for k, v in missing.items() if not v[0]}
        if missing:
            print(f'INCONCLUSIVE: monitor not reached often enough: {missing}')
            return 2
    elif not sigs:
        print('INCONCLUSIVE: nothing non-trivial observed')
        return 2
    return 0


def setup():
    """nothing to build: shows that everything a check needs is there"""
    import rene
    import rithm
    assert os.path.abspath(rene.__file__).startswith(REPO + os.sep)
    os.makedirs(REPLAYS, exist_ok=True)
    n = 0
    with open(os.path.join(ROOT, 'MANIFEST.json')) as f:
        for c in json.load(f)['checks']:
            m = load(c['property'])
            assert m.PROPERTY == c['property'] and callable(m.case)
            n += 1
    print(f'{n} monitors ready, python {sys.version.split()[0]}, '
          f'rithm {rithm.__version__}')
    return 0


def match(known, verdict):
    key, detail = verdict
    for k, text in known:
        if key == k:
            return text
    return None


class bounded:
    """imap_unordered with a bounded number of jobs under way"""

    def __init__(self, pool, jobs, limit):
        import queue
        self.pool, self.jobs = pool, jobs
        self.q = queue.Queue()
        self.pending = 0
        self.more = True
        for _ in range(limit):
            self._submit()

    def _submit(self):
        if not self.more:
            return
        try:
            j = next(self.jobs)
        except StopIteration:
            self.more = False
            return
        self.pending += 1
        self.pool.apply_async(chunk_entry, (j,), callback=self._ok,
                              error_callback=self._err)

    def _ok(self, r):
        self.q.put(r)

    def _err(self, e):
        self.q.put((0, Counter(), set(), [],
                    [{'index': -1, 'inputs': [],
                      'verdict': (f'worker failed: {e!r}',)}], [], set()))

    def next(self, timeout):
        import queue
        if not self.pending:
            raise StopIteration
        try:
            r = self.q.get(timeout=timeout)
        except queue.Empty:
            raise TimeoutError from None
        self.pending -= 1
        self._submit()
        return r


def replay(path):
    sys.path.insert(0, ROOT)
    with open(path) as f:
        rec = json.load(f)
    module = load(rec['property'])
    init_worker()
    _, _, inputs, verdict = run_case(module, rec['seed'], rec['tier'],
                                     rec['index'])
    for k, v in inputs:
        print(f'{k} = {show(v)}')
    if verdict is None:
        print('property held on this case')
        return 0
    print(*verdict)
    if verdict[0] == 'V':
        print(f'VIOLATION property={rec["property"]} replay={path}')
        return 1
    return 2
