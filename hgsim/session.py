"""Whole Hypothesis test sessions over a simulated example database.

The real engine (generation, reuse, shrinking, final replay) runs against a
strategy; randomness, clock, database and restarts belong to the simulator.
"""
import hashlib
import json
import math
import os
import random
import sys
import traceback
from fractions import Fraction

from . import canon as cn
from . import services as sv
from .kernel import PACKAGE, TOOL, Ambient, FileSet


class Boom(AssertionError):
    pass


class SimDatabase:
    """Example database with scheduled storage faults; survives restarts."""

    def __init__(self):
        self.disk, self.truth = {}, {}
        self.saves = 0
        self.plan = {}
        self.fired = []

    def make(self):
        from hypothesis.database import ExampleDatabase
        outer = self

        class DB(ExampleDatabase):
            def save(self, key, value):
                outer.save(key, value)

            def fetch(self, key):
                yield from list(outer.disk.get(key, ()))

            def delete(self, key, value):
                outer.truth.get(key, set()).discard(value)
                entries = outer.disk.get(key, [])
                if value in entries:
                    entries.remove(value)

        return DB()

    def put(self, key, value):
        entries = self.disk.setdefault(key, [])
        if value not in entries:
            entries.append(value)

    def save(self, key, value):
        self.saves += 1
        self.truth.setdefault(key, set()).add(value)
        f = self.plan.get(self.saves)
        if f is None:
            self.put(key, value)
            return
        self.fired.append(f['kind'])
        if f['kind'] == 'lost':
            return
        self.put(key, damage(value, f))
        if f['kind'] == 'duplicated':
            self.put(key, value)

    def restart(self, faults):
        keys = sorted(self.disk)
        for f in faults:
            k = keys[f['key'] % len(keys)] if keys else None
            entries = self.disk.get(k)
            if not entries:
                continue
            self.fired.append('restart-' + f['kind'])
            i = f['entry'] % len(entries)
            if f['kind'] == 'lost':
                del entries[i]
            elif f['kind'] == 'reordered':
                entries.reverse()
            elif f['kind'] == 'duplicated':
                entries.append(damage(entries[i], f))
            else:
                entries[i] = damage(entries[i], f)

    def intact(self, suffix=b''):
        """Every primary entry that should be stored is stored."""
        keys = [k for k in self.truth if b'.' not in k and self.truth[k]]
        return bool(keys) and all(
            self.truth[k] <= set(self.disk.get(k, ())) for k in keys)


def damage(value, f):
    b = bytearray(value)
    if not b:
        return bytes(b)
    i = int(f['at'] * len(b)) % len(b)
    if f['kind'] in ('torn', 'duplicated'):
        return bytes(b[:i])
    if f['kind'] == 'flipped':
        b[i] ^= 1 << f.get('bit', 0)
    elif f['kind'] == 'zeroed':
        for j in range(i, min(len(b), i + 4)):
            b[j] = 0
    return bytes(b)


def holds(pred, node):
    """Does the failing condition hold for a delivered geometry?"""
    p = pred['p']
    if p == 'always':
        return True
    if p == 'never':
        return False
    pts = list(cn.points_of(node))
    if p == 'count':
        return len(pts) >= pred['n']
    if p == 'distinct':
        return len({x for x, _ in pts}) >= pred['n']
    if p == 'beyond':
        return any(cn.parse(q[pred['axis']]) > pred['v'] for q in pts)
    if p == 'hash':
        h = hashlib.sha256(json.dumps(node).encode()).digest()
        return h[0] % pred['mod'] == 0
    if p == 'holes':
        return 'polygon' in json.dumps(node) and _holes(node) >= pred['n']
    raise ValueError(p)


def _holes(node):
    if isinstance(node, list):
        if node and node[0] == 'polygon':
            return len(node[2])
        return sum(_holes(x) for x in node)
    return 0


def install_label_seam():
    """Hypothesis labels spans by hashes of functions, that is by addresses.

    The labels only group similar spans for mutation and shrinking; naming
    them takes the address space layout and the history of the process out of
    the run.
    """
    import functools
    from hypothesis.internal.conjecture import utils
    from hypothesis.strategies._internal import strategies

    def name(obj):
        if isinstance(obj, functools.partial):
            return f'partial {name(obj.func)}'
        if hasattr(obj, '__qualname__'):
            return f'{getattr(obj, "__module__", "")}.{obj.__qualname__}'
        return f'a {name(type(obj))}'

    def label(obj):
        hash(obj)
        return utils.calc_label_from_name(name(obj))

    utils.calc_label_from_hash = label
    strategies.calc_label_from_hash = label


def install_call_budget(budget):
    """Bounds the engine's shrinking by calls instead of by minutes."""
    from hypothesis.internal.conjecture import engine
    original = engine.ConjectureRunner.test_function

    def test_function(self, data):
        original(self, data)
        n = self.__dict__.get('sim_calls', 0) + 1
        self.__dict__['sim_calls'] = n
        if n >= budget and self.interesting_test_cases:
            self.exit_with(engine.ExitReason.max_shrinks)

    engine.ConjectureRunner.test_function = test_function


class Crash:
    """Kills the session at a chosen executed line of the library."""

    def __init__(self):
        import hypothesis_geometry
        self.files = FileSet(os.path.dirname(
            os.path.abspath(hypothesis_geometry.__file__)))
        self.left, self.fired = None, 0
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'hgsim')
        mon.register_callback(TOOL, mon.events.LINE, self.on_line)

    def arm(self, lines):
        self.left = lines
        sys.monitoring.set_events(
            TOOL, sys.monitoring.events.LINE if lines else 0)

    def on_line(self, code, line):
        if code.co_filename not in self.files:
            return sys.monitoring.DISABLE
        if self.left:
            self.left -= 1
            if not self.left:
                self.fired += 1
                raise KeyboardInterrupt('simulated')
        return None


def execute(spec):
    import hypothesis
    import unittest
    install_label_seam()
    install_call_budget(spec.get('calls', 160))
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    from hypothesis.errors import Flaky, Unsatisfiable
    from ground.context import Context
    import warnings
    warnings.simplefilter('ignore')
    ambient = Ambient(spec.get('ambient', {}))
    ambient.install()
    ctx = Context(coordinate_factory=Fraction, sqrt=math.sqrt)
    svc = spec['service']
    db = SimDatabase()
    db.plan = {f['save']: f for f in spec.get('save_faults', ())}
    rounds = []
    crash = Crash()
    shared = sv.build(svc, ctx, None, [])
    phases = {'reuse': Phase.reuse, 'generate': Phase.generate,
              'shrink': Phase.shrink, 'target': Phase.target}
    main, starts = db, []
    for rnd in spec['rounds']:
        again = rnd.get('repeat')
        if again is not None:
            # the same session over the same stored examples, in a process
            # with another history
            if again >= len(rounds):
                continue
            prior = rounds[again]
            if prior['out'] == 'killed' or prior['faulty']:
                continue
            db = SimDatabase()
            db.disk = {k: list(v) for k, v in starts[again].items()}
            rnd = dict(spec['rounds'][again], restart_faults=(), crash=None,
                       shared=rnd['shared'], age=rnd.get('age'))
        else:
            db = main
        db.restart(rnd.get('restart_faults', ()))
        starts.append({k: list(v) for k, v in db.disk.items()})
        fired_before = len(db.fired)
        must_fail = (again is None and bool(rounds)
                     and rounds[-1]['out'] in ('boom', 'killed')
                     and db.intact())
        strategy = shared if rnd.get('shared', True) else sv.build(svc, ctx, None, [])
        if rnd.get('age'):
            wear(strategy, rnd['seed'], rnd['age'])
        seen = hashlib.sha256()
        calls = [0]
        last = [None]
        mutate = random.Random(rnd['seed']) if rnd.get('mutate') else None

        def test(g):
            node = cn.canon(g, ctx)
            seen.update(json.dumps(node).encode())
            calls[0] += 1
            bad = holds(spec['predicate'], node)
            if bad:
                last[0] = node
            if mutate is not None:
                for part in cn.mutable_parts(g, ctx):
                    part.clear()
            if bad:
                raise Boom('simulated test failure')

        run = given(strategy)(test)
        run = hypothesis.seed(rnd['seed'])(run)
        run = settings(
            database=db.make(), max_examples=rnd['max_examples'],
            deadline=None, phases=[phases[p] for p in rnd['phases']],
            suppress_health_check=list(HealthCheck),
            verbosity=Verbosity.quiet, report_multiple_bugs=False,
            print_blob=False)(run)
        res = {'out': 'pass', 'must_fail': must_fail}
        crash.fired = 0
        crash.arm(rnd.get('crash'))
        try:
            run()
        except KeyboardInterrupt as e:
            if not crash.fired or e.args != ('simulated',):
                raise
        except unittest.SkipTest:
            res['out'] = 'skip'
        except Boom:
            res['out'], res['minimal'] = 'boom', last[0]
        except Unsatisfiable:
            res['out'] = 'unsatisfiable'
        except Flaky as e:
            res.update(out='flaky', message=str(e)[:300])
        except BaseException as e:
            res.update(out='exc', type=type(e).__name__, message=str(e)[:300],
                       where=[f'{os.path.basename(f.filename)}:{f.name}'
                              for f in traceback.extract_tb(e.__traceback__)
                              if f'/{PACKAGE}/' in f.filename][-4:])
        finally:
            crash.arm(None)
        if crash.fired:
            # the engine may dress an interrupted final replay as flakiness
            res = {'out': 'killed', 'must_fail': must_fail}
            db.fired.append('crash')
        res['calls'] = calls[0]
        res['faulty'] = len(db.fired) > fired_before
        if again is not None:
            res['repeat'] = again
        res['seen'] = seen.hexdigest()
        rounds.append(res)
    stored = hashlib.sha256()
    db = main
    for k in sorted(db.disk):
        for v in sorted(db.disk[k]):
            stored.update(v)
    return {'rounds': rounds, 'fired': db.fired, 'saves': db.saves,
            'stored': stored.hexdigest()}


def wear(strategy, seed, draws, choices=12000):
    """A long history of draws that nobody looks at."""
    from hypothesis.control import BuildContext
    from hypothesis.errors import StopTest, UnsatisfiedAssumption
    from hypothesis.internal.conjecture.data import ConjectureData
    for k in range(draws):
        data = ConjectureData(random=random.Random(seed + k))
        try:
            with BuildContext(data, wrapped_test=wear):
                data.draw(strategy)
        except (StopTest, UnsatisfiedAssumption):
            pass
        except Exception:
            # whether draws may raise is for other checks to say
            pass
        choices -= len(data.choices)
        if choices < 0:
            break


# --- generation and judging -------------------------------------------------

def generate(seed, index):
    r = random.Random(f'C16:{seed}:{index}')
    from .worlds import ambient
    kind = r.choice(sv.KINDS + ['contours', 'multicontours', 'multisegments'])
    heavy = kind in ('polygons', 'multipolygons', 'mixes')
    svc = sv.service(r, kind, .2 if heavy else r.choice((.3, .5, .7)))
    t = r.random()
    pred = ({'p': 'always'} if t < .1 else {'p': 'never'} if t < .15
            else {'p': 'count', 'n': r.choice((2, 4, 5, 6, 8))} if t < .5
            else {'p': 'beyond', 'axis': r.choice((0, 1)),
                  'v': r.choice((-5, 0, 1, 3))} if t < .65
            else {'p': 'distinct', 'n': r.choice((2, 4, 6))} if t < .75
            else {'p': 'hash', 'mod': r.choice((2, 3, 5))} if t < .9
            else {'p': 'holes', 'n': 1})
    rounds = []
    n = r.choice((1, 2, 2, 3))
    for i in range(n):
        reuse_only = i > 0 and r.random() < .5
        rnd = {'seed': r.getrandbits(32),
               'max_examples': r.choice((3, 5, 10) if heavy else (5, 10, 20)),
               'phases': ['reuse'] if reuse_only else
               ['reuse', 'generate'] + (['shrink'] if r.random() < .7 else []),
               'shared': r.random() < .75, 'mutate': r.random() < .3}
        if i and r.random() < .6:
            rnd['restart_faults'] = [
                {'kind': r.choice(('lost', 'torn', 'flipped', 'zeroed',
                                   'duplicated', 'reordered')),
                 'key': r.randrange(3), 'entry': r.randrange(4),
                 'at': round(r.random(), 4), 'bit': r.randrange(8)}
                for _ in range(r.choice((1, 2, 4)))]
        if i + 1 < n and r.random() < .3:
            rnd['crash'] = int(10 ** r.uniform(1, 5.5))
        rounds.append(rnd)
    if n == 1 or r.random() < .75:
        rounds.append({'repeat': r.choice((0, 0, 0, r.randrange(n))),
                       'shared': r.random() < .8,
                       'age': r.choice((0, 0, 0, 400, 1000))})
    save_faults = []
    if r.random() < .4:
        save_faults = [{'save': r.choice((1, 1, 2, 3, 5, 8)),
                        'kind': r.choice(('lost', 'torn', 'flipped', 'zeroed',
                                          'duplicated')),
                        'at': round(r.random(), 4), 'bit': r.randrange(8)}
                       for _ in range(r.choice((1, 2)))]
    return {'id': f'C16:{seed}:{index}', 'service': svc, 'predicate': pred,
            'rounds': rounds, 'save_faults': save_faults,
            'calls': r.choice((40, 80, 160)),
            'ambient': ambient(r),
            'twin': ambient(r) if r.random() < .5 or 'repeat' not in rounds[-1]
            else None}


def judge(spec, result, twin):
    from . import oracles
    svc = spec['service']

    def v(category, detail, **kw):
        return dict(property='C16', category=category, detail=detail,
                    kind=svc['kind'], kw=svc['kw'], **kw)

    for i, r in enumerate(result['rounds']):
        if r['out'] in ('flaky', 'exc'):
            yield v(f"session-{r.get('type', 'flaky')}",
                    f"round {i}: {r.get('type', 'flaky')} {r['message']} "
                    f"{r.get('where', '')}")
            return
        if r['must_fail'] and r['out'] not in ('boom', 'killed'):
            yield v('saved-failure-not-reproduced',
                    f"round {i} ended {r['out']} although the failing example "
                    'was stored')
        if r['out'] == 'boom':
            for prop in oracles.DIGESTS:
                f = oracles.verdict(prop, svc['kind'], svc['kw'], r['minimal'])
                if f:
                    yield v('invalid-minimal-example', f'round {i}: {f}',
                            value=r['minimal'])
        if 'repeat' in r:
            a, b = result['rounds'][r['repeat']], r
            d = [k for k in ('out', 'seen', 'calls', 'minimal')
                 if a.get(k) != b.get(k)]
            if d:
                yield v('session-depends-on-history',
                        f"the session of round {r['repeat']}, repeated, "
                        f'differs in {d}')
    if twin is not None and twin != result:
        for i, (a, b) in enumerate(zip(result['rounds'], twin['rounds'])):
            if a != b:
                d = [k for k in a if a.get(k) != b.get(k)]
                yield v('session-not-reproducible',
                        f'round {i} differs in {d} between two executions')
                return
        yield v('session-not-reproducible', 'stored examples differ')
