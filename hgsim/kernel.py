"""The simulator: executes one world described by plain data.

A world holds services (shared strategies), clients (caller threads with a
list of operations) and an ambient environment.  Exactly one client runs at a
time; who runs next is decided here, at every choice drawn and at every source
line of the library executed, from the world's seed or from its recorded list
of context switches.  Runs inside a process forked for this world only.
"""
import gc
import itertools
import math
import os
import random
import sys
import threading
import time
import traceback
import zlib
from fractions import Fraction
from types import FunctionType

from . import canon as cn
from . import conflict as cf
from . import services as sv

PACKAGE = 'hypothesis_geometry'
TOOL = 4
STEP_BUDGET = 3_000_000
SITE_CAP = 40
CLASSES = ('box_cls', 'contour_cls', 'empty_cls', 'mix_cls', 'multipoint_cls',
           'multipolygon_cls', 'multisegment_cls', 'point_cls', 'polygon_cls',
           'segment_cls')


class SimInterrupt(BaseException):
    """Asynchronous interruption delivered by the simulator."""


class SimFailure(Exception):
    """Failure raised by the simulated coordinate source."""


class StepBudgetExceeded(BaseException):
    """The draw executed more library lines than any draw legitimately needs."""


EXCEPTIONS = {
    'SimFailure': SimFailure, 'SimInterrupt': SimInterrupt,
    'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
    'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError,
    'IndexError': IndexError, 'AttributeError': AttributeError,
    'AssertionError': AssertionError, 'ArithmeticError': ArithmeticError,
    'ZeroDivisionError': ZeroDivisionError, 'OverflowError': OverflowError,
    'OSError': OSError, 'TimeoutError': TimeoutError,
    'RuntimeError': RuntimeError, 'NotImplementedError': NotImplementedError,
    'RecursionError': RecursionError, 'LookupError': LookupError,
    'SystemExit': SystemExit, 'StopIteration': StopIteration,
    'BufferError': BufferError, 'EOFError': EOFError,
}


# --- ambient environment --------------------------------------------------

class Ambient:
    """Everything a draw must not depend on, put under the seed."""

    def __init__(self, spec):
        self.spec = spec
        self.keep = []

    def install(self):
        s = self.spec
        random.seed(s.get('global_random', 0))
        entropy = random.Random(f"entropy:{s.get('entropy', 0)}")
        urandom = entropy.randbytes
        os.urandom = urandom
        random._urandom = urandom
        clock = itertools.count()
        base, tick = s.get('clock', 1e9), s.get('tick', 1e-6)
        jumps = s.get('clock_jump', 0)

        def now():
            n = next(clock)
            return base + n * tick + (jumps if jumps and n % 97 > 48 else 0)

        def mono():
            return base / 2 + next(clock) * tick

        time.time = now
        time.time_ns = lambda: int(now() * 1e9)
        time.monotonic = mono
        time.monotonic_ns = lambda: int(mono() * 1e9)
        # perf_counter feeds only Hypothesis' own deadlines and statistics
        time.perf_counter = mono
        time.perf_counter_ns = lambda: int(mono() * 1e9)
        time.process_time = mono
        pid = s.get('pid', 4242)
        os.getpid = lambda: pid
        mode = s.get('gc', 'default')
        if mode == 'off':
            gc.disable()
        elif mode == 'eager':
            gc.set_threshold(50, 2, 2)
        rng = random.Random(f"heap:{s.get('heap', 0)}")
        for _ in range(rng.randrange(0, 400) if s.get('heap') else 0):
            self.keep.append(bytearray(rng.choice((24, 40, 56, 72, 120, 300))))
        for _ in range(len(self.keep) // 2):
            self.keep.pop(rng.randrange(len(self.keep)))
        if s.get('hash_salt'):
            self.salt_hashes(s['hash_salt'])

    def salt_hashes(self, salt):
        """Replace address based hashes of library classes by seeded ones.

        A legal re-addressing of the heap: equal objects keep equal hashes.
        """
        serial = {}
        keep = self.keep
        counter = itertools.count(1)

        def salted(self_):
            key = id(self_)
            n = serial.get(key)
            if n is None:
                n = serial[key] = next(counter)
                keep.append(self_)     # keeps the address from being reused
            return hash((salt, n * 2654435761 % 1000003))

        for name, module in list(sys.modules.items()):
            if name != PACKAGE and not name.startswith(PACKAGE + '.'):
                continue
            for cls in list(vars(module).values()):
                if (isinstance(cls, type) and cls.__module__ == name
                        and cls.__hash__ is object.__hash__
                        and cls.__eq__ is object.__eq__
                        and not issubclass(cls, BaseException)):
                    try:
                        cls.__hash__ = salted
                    except (TypeError, AttributeError):
                        pass


# --- locks the library might use ------------------------------------------

class SimLock:
    """A lock whose waiters park in the simulator instead of in the kernel."""

    def __init__(self, kernel, reentrant):
        self.kernel, self.reentrant = kernel, reentrant
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        k = self.kernel[0]
        me = k.cur if k is not None else 0
        while self.depth and not (self.reentrant and self.owner == me):
            if not blocking or k is None:
                return False
            if not k.block(self):
                raise RuntimeError('simulated deadlock')
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.depth > 0

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()


KERNEL = [None]


def install_lock_seam():
    """Locks created by library code become simulated locks."""
    def factory(real, reentrant):
        def make(*args, **kwargs):
            frame = sys._getframe(1)
            if f'/{PACKAGE}/' in frame.f_code.co_filename:
                return SimLock(KERNEL, reentrant)
            return real(*args, **kwargs)
        return make

    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)


# --- operations -----------------------------------------------------------

class Run:
    """One draw in progress."""

    __slots__ = ('op', 'data', 'steps', 'coords', 'choices', 'xs', 'ys',
                 'injected', 'fired', 'trip', 'trip_kind', 'start_seq',
                 'choice_trip', 'coord_trip', 'placed', 'sites', 'hits',
                 'calls', 'call_trip', 'call_sites')

    def __init__(self, op, budget, events, sites):
        self.op = op
        self.data = None
        self.steps = self.coords = self.choices = 0
        self.xs, self.ys = [], []
        self.injected = None
        self.fired = []
        self.hits = 0                    # faults so far
        self.trip, self.trip_kind = budget, None
        self.choice_trip, self.coord_trip = {}, {}
        self.calls, self.call_trip = 0, {}
        self.placed = []
        self.sites = self.call_sites = None
        for f in op.get('faults', ()):
            k = f['kind']
            at = f.get('at')
            if at is None:
                prior = events.get(tuple(f['of']), {})
                total = prior.get('steps' if k == 'interrupt' else 'n_choices'
                                  if k in ('exhaust', 'invalid_choice')
                                  else 'n_calls' if k == 'context'
                                  else 'n_coords', 0)
                at = 1 + int(f['frac'] * max(0, total - 1))
                if 'site' in f:
                    at = at_site(sites.get((*f['of'], 'calls') if k == 'context'
                                           else tuple(f['of'])), f) or at
            self.placed.append((k, at))
            if k == 'interrupt':
                self.trip, self.trip_kind = at, f['exc']
            elif k == 'context':
                self.call_trip[at] = f['exc']
            elif k in ('exhaust', 'invalid_choice'):
                self.choice_trip[at] = k
            elif k in ('raise', 'reject', 'reject_from', 'invalid'):
                self.coord_trip[at] = f
            else:
                raise ValueError(k)


def at_site(sites, f):
    """The step of an occurrence of a uniformly chosen executed line."""
    if not sites:
        return None
    keys = sorted(sites)
    if f.get('meet'):
        keys = [k for k in keys if k[-1]] or keys
    at = sites[keys[min(len(keys) - 1, int(f['site'] * len(keys)))]]
    return at[min(len(at) - 1, int(f['frac'] * len(at)))]


class Kernel:
    def __init__(self, world):
        self.world = world
        self.cur = 0
        self.seq = 0                     # global event number
        self.lines = 0
        self.runs = []
        self.switches = []
        self.sched = world.get('sched', {'policy': 'serial'})
        self.n_yield = 0
        self.line_yields = False
        self.waiting = {}
        self.trace = 0                   # rolling hash of the interleaving
        self.running = False

    # -- scheduling --------------------------------------------------------
    def setup_sched(self):
        s = self.sched
        self.live = [True] * len(self.world['clients'])
        self.sems = [threading.Semaphore(0) for _ in self.live]
        self.done = threading.Event()
        self.policy = s['policy']
        self.line_yields = bool(s.get('lines')) and len(self.live) > 1
        self.site_memo = {}
        if self.policy == 'replay':
            self.plan = {n: c for n, c in s['switches']}
        else:
            self.rng = random.Random(f"sched:{s.get('seed', 0)}")
            self.p = s.get('p', 0)
            self.next_switch = self._gap()

    def _gap(self):
        if self.sched.get('heavy'):
            # bursts of switches and long undisturbed stretches
            return self.n_yield + 1 + int(math.exp(
                self.rng.random() * math.log(self.sched['heavy'])))
        if self.p <= 0:
            return math.inf
        u = self.rng.random()
        return self.n_yield + 1 + int(math.log(1 - u) / math.log(1 - self.p)) \
            if self.p < 1 else self.n_yield + 1

    def shared(self, code, line):
        key = (code, line)
        v = self.shared_memo.get(key)
        if v is None:
            v = self.shared_memo[key] = cf.touches_shared(code, line)
        return v

    def chosen_site(self, code, line):
        key = (code, line)
        v = self.site_memo.get(key)
        if v is None:
            name = os.path.basename(code.co_filename)
            h = zlib.crc32(f"{name}:{line}:{self.sched['seed']}".encode())
            v = h % self.sched['sites'] == 0
            if not v and self.sched.get('shared'):
                v = self.shared(code, line)
            self.site_memo[key] = v
        return v

    def yield_point(self, code=None, line=0):
        self.n_yield += 1
        n = self.n_yield
        if self.policy == 'replay':
            to = self.plan.get(n)
            if to is None or to == self.cur or to >= len(self.live) \
                    or not self.live[to]:
                return
        else:
            if self.policy == 'sites' and code is not None \
                    and self.chosen_site(code, line):
                if self.rng.random() >= self.sched.get('q', .5):
                    return
            elif n < self.next_switch:
                return
            else:
                self.next_switch = self._gap()
            others = [i for i, a in enumerate(self.live)
                      if a and i != self.cur]
            if not others:
                return
            to = self.rng.choice(others)
        self.switch(n, to)

    def switch(self, n, to):
        me = self.cur
        self.switches.append((n, to))
        run = self.runs[me]
        self.trace = hash((self.trace, me, to, run.steps if run else 0,
                           run.choices if run else 0)) & 0xffffffffffff
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()

    def block(self, lock):
        """Current client waits for a lock: run someone else."""
        others = [i for i, a in enumerate(self.live) if a and i != self.cur]
        if not others:
            return False
        self.n_block = getattr(self, 'n_block', 0) + 1
        if self.n_block > 100_000:
            return False
        to = others[self.n_block % len(others)]
        me = self.cur
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()
        return True

    def finish(self, me):
        self.live[me] = False
        for i in range(1, len(self.live) + 1):
            j = (me + i) % len(self.live)
            if self.live[j]:
                self.cur = j
                self.sems[j].release()
                return
        self.done.set()

    # -- seams -------------------------------------------------------------
    def on_line(self, code, line):
        if code.co_filename not in self.files:
            return sys.monitoring.DISABLE
        if threading.get_ident() != self.idents[self.cur]:
            return None
        run = self.runs[self.cur]
        if run is None:
            return None
        run.steps += 1
        if run.sites is not None:
            at = run.sites.setdefault((code.co_filename, code.co_firstlineno,
                                       line, self.shared(code, line)), [])
            if len(at) < SITE_CAP:
                at.append(run.steps)
        if run.steps >= run.trip:
            run.trip = run.steps + STEP_BUDGET
            run.hits += 1
            if run.trip_kind is None:
                run.fired.append('budget')
                raise StepBudgetExceeded
            run.fired.append('interrupt')
            run.injected = EXCEPTIONS[run.trip_kind]('simulated')
            run.trip_kind = None
            raise run.injected
        if self.line_yields:
            self.yield_point(code, line)
        return None

    def on_choice(self, data):
        run = self.runs[self.cur]
        run.choices += 1
        if run.choice_trip:
            k = run.choice_trip.pop(run.choices, None)
            if k is not None:
                run.hits += 1
                run.fired.append(k)
                if k == 'exhaust':
                    data.mark_overrun()
                else:
                    data.mark_invalid('simulated')
        if len(self.live) > 1:
            self.yield_point()

    def on_coordinate(self, axis, value):
        run = self.runs[self.cur]
        if run is None:
            return value
        run.coords += 1
        if run.coord_trip:
            f = run.coord_trip.get(run.coords)
            if f is None:
                for at, g in run.coord_trip.items():
                    if g['kind'] == 'reject_from' and run.coords >= at:
                        f = g
            if f is not None:
                self.coordinate_fault(run, f)
        (run.xs if axis == 'x' else run.ys).append(value)
        return value

    def coordinate_fault(self, run, f):
        from hypothesis.errors import UnsatisfiedAssumption
        k = f['kind']
        run.hits += 1
        if k not in run.fired:
            run.fired.append(k)
        if k == 'raise':
            if run.injected is None:
                run.injected = EXCEPTIONS[f['exc']]('simulated')
            raise run.injected
        if k == 'invalid':
            run.data.mark_invalid('simulated')
        raise UnsatisfiedAssumption('simulated')

    def on_context(self, name):
        """A function of the context is called in the course of a draw."""
        run = self.runs[self.cur] if self.running else None
        if run is None or threading.get_ident() != self.idents[self.cur]:
            return
        run.calls += 1
        if run.call_sites is not None:
            at = run.call_sites.setdefault((name, *self.caller()), [])
            if len(at) < SITE_CAP:
                at.append(run.calls)
        exc = run.call_trip.get(run.calls) if run.call_trip else None
        if exc is None:
            return
        if exc == 'ValueError' and not self.caller()[1]:
            # bentley_ottmann takes it for an end of its sweep line
            exc = 'SimFailure'
        run.hits += 1
        run.fired.append('context')
        run.injected = EXCEPTIONS[exc]('simulated')
        raise run.injected

    def caller(self):
        """The line of the library that calls a function of the context."""
        frame = sys._getframe(3)
        name = frame.f_code.co_filename
        return (name, frame.f_lineno) if name in self.files else ('', 0)

    # -- operations --------------------------------------------------------
    def start(self, ci, oi, op):
        """The run and the choice source of one operation."""
        from .provider import SimProvider
        run = Run(op, self.world.get('budget', STEP_BUDGET), self.events,
                  self.sites)
        if (ci, oi) in self.want_sites:
            run.sites = self.sites[(ci, oi)] = {}
            run.call_sites = self.sites[(ci, oi, 'calls')] = {}
        src = op['src']
        if 'choices' in src:
            choices = src['choices']
        elif 'of' in src:
            base = self.events.get(tuple(src['of']))
            choices = base.get('choices', []) if base else []
            choices = corrupt(choices, src.get('corrupt', ()))
            choices = list(choices) * src.get('times', 1)
        else:
            choices = None
        if choices is not None:
            choices = tuple(choices)
            data = SIM_DATA[0].for_choices(choices)
        elif src.get('native'):
            data = SIM_DATA[0](random=random.Random(src['seed']))
        else:
            data = SIM_DATA[0](random=None, provider=SimProvider,
                               provider_kw={'seed': src['seed'],
                                            'mode': src.get('mode', 'typical')})
        data.sim_kernel = self
        run.data = data
        return run, data, choices

    def attempt(self, ci, run, data, ev, act):
        """Performs a draw as client ``ci``; records how it ended."""
        from hypothesis.errors import StopTest, UnsatisfiedAssumption
        value = None
        ok = False
        self.runs[ci] = run
        try:
            value = act()
            ok = True
        except StopTest as e:
            ev['out'] = 'stop'
            ev['status'] = data.status.name
            if e.testcounter != data.testcounter:
                ev['out'] = 'exc'
                ev.update(type='StopTest', message='foreign test counter')
        except UnsatisfiedAssumption:
            ev['out'] = 'unsat'
        except BaseException as e:
            ev['out'] = 'exc'
            ev['type'] = type(e).__name__
            ev['message'] = str(e)[:300]
            ev['same'] = e is run.injected
            ev['budget'] = isinstance(e, StepBudgetExceeded)
            ev['where'] = [f'{os.path.basename(f.filename)}:{f.name}'
                           for f in traceback.extract_tb(e.__traceback__)
                           if f'/{PACKAGE}/' in f.filename][-4:]
        finally:
            self.runs[ci] = None
        return ok, value

    def strategy(self, op, i):
        if op.get('fresh'):
            return self.build_service(i)
        if self.strategies[i] is None:
            # several clients may get here: the last one wins, as it would
            # with a plain lazily initialised module attribute
            strategy = self.build_service(i)
            self.strategies[i] = strategy
        return self.strategies[i]

    def series(self, op, run, data, subs):
        """Several geometries out of one choice source, in one test case."""
        from hypothesis import strategies as st
        spec = op['series']
        begun = []

        def begin(_):
            begun.append((len(data.choices), run.hits))

        def ended(i):
            def end(g):
                a, hits = begun.pop()
                sub = {'svc': i, 'a': a, 'b': len(data.choices),
                       'faults': run.hits - hits,
                       'geometry': g, 'mutated': False}
                subs.append(sub)
                begun.clear()
                try:
                    sub['value'] = cn.canon(g, self.ctxs[i])
                except Exception as e:
                    sub['value'] = ['broken', type(e).__name__, str(e)[:200]]
                if spec.get('mutate'):
                    sub['mutated'] = True
                    for part in cn.mutable_parts(g, self.ctxs[i]):
                        part.clear()
                return g
            return end

        def marked(i):
            inner = self.strategy(op, i)
            return st.none().map(begin).flatmap(lambda _: inner).map(ended(i))

        parts, shape = spec['svcs'], spec['shape']
        if shape == 'interactive':
            for i in parts:
                begin(None)
                ended(i)(data.draw(self.strategy(op, i)))
        elif shape == 'tuple':
            data.draw(st.tuples(*map(marked, parts)))
        elif shape == 'list':
            data.draw(st.lists(st.one_of([marked(i) for i in parts]),
                               min_size=2, max_size=4))
        elif shape == 'nested':
            data.draw(marked(parts[0]).flatmap(
                lambda g: st.tuples(st.just(g), *map(marked, parts[1:]))))
        elif shape == 'builds':
            data.draw(st.builds(dict, **{f'g{k}': marked(i)
                                         for k, i in enumerate(parts)}))
        else:
            raise ValueError(shape)
        return [sub['geometry'] for sub in subs]

    def draw(self, ci, oi, op):
        from hypothesis.control import BuildContext
        svc = self.world['services'][op['svc']]
        run, data, fed = self.start(ci, oi, op)
        ev = {'client': ci, 'index': oi, 'svc': op['svc'], 'op': 'draw',
              'begin': self.tick()}

        subs = []

        def act():
            with BuildContext(data, wrapped_test=_wrapped):
                if op.get('series'):
                    return self.series(op, run, data, subs)
                return data.draw(self.strategy(op, op['svc']))

        ok, value = self.attempt(ci, run, data, ev, act)
        if op.get('series'):
            for k, sub in enumerate(subs):
                self.delivered[(ci, oi, k)] = [sub['svc'], sub.pop('geometry'),
                                               sub['value'], sub.pop('mutated')]
            ev['subs'] = subs
            if ok:
                ev['out'] = 'value'
                ev['value'] = ['series', [sub['value'] for sub in subs]]
        elif ok:
            ev['out'] = 'value'
            try:
                ev['value'] = cn.canon(value, self.ctxs[op['svc']])
            except Exception as e:
                ev['value'] = ['broken', type(e).__name__, str(e)[:200]]
            if not self.world.get('slim'):
                self.delivered[(ci, oi)] = [op['svc'], value, ev['value'],
                                            False]
        ev['choices'] = list(data.choices)
        ev['misaligned'] = data.misaligned_at is not None
        ev['n_choices'], ev['n_coords'] = run.choices, run.coords
        ev['n_calls'] = run.calls
        ev['steps'] = run.steps
        ev['fired'] = run.fired
        ev['placed'] = run.placed
        if self.world.get('slim') and not op.get('faults'):
            del ev['choices']
            if ok:
                from .availability import labels
                ev['labels'] = sorted(labels(svc['kind'], svc['kw'],
                                             ev.pop('value')))
        if 'of' in op['src']:
            ev['fed'] = list(fed)
        if ok and 'ctx' in svc and not op.get('series'):
            ev['aliens'] = self.aliens(value, op['svc'])
        if self.world.get('record_coords'):
            ev['xs'] = sorted({cn.coord(v) for v in run.xs})
            ev['ys'] = (sorted({cn.coord(v) for v in run.ys})
                        if svc.get('y') is not None else ev['xs'])
        ev['end'] = self.tick()
        self.events[(ci, oi)] = ev
        return ev

    def mutate(self, ci, oi, op):
        ev = {'client': ci, 'index': oi, 'op': 'mutate', 'begin': self.tick()}
        target = self.delivered.get(tuple(op['of']))
        ev['done'] = 0
        if target is not None and not target[3]:
            target[3] = True
            parts = cn.mutable_parts(target[1], self.ctxs[target[0]])
            r = random.Random(f"mutate:{op.get('seed', 0)}")
            for part in parts:
                how = op.get('how') or r.choice(
                    ('clear', 'reverse', 'pop', 'double', 'rotate', 'none'))
                ev['done'] += how != 'none'
                if how == 'clear':
                    part.clear()
                elif how == 'reverse':
                    part.reverse()
                elif how == 'pop' and part:
                    part.pop()
                elif how == 'double':
                    part.extend(list(part))
                elif how == 'rotate' and part:
                    part.append(part.pop(0))
        ev['end'] = self.tick()
        self.events[(ci, oi)] = ev
        return ev

    def nop(self, ci, oi, op):
        ev = {'client': ci, 'index': oi, 'op': 'nop', 'begin': self.tick(),
              'end': self.tick()}
        self.events[(ci, oi)] = ev
        return ev

    def age(self, ci, oi, op):
        """A long history of draws that nobody looks at."""
        ev = {'client': ci, 'index': oi, 'op': 'age', 'draws': 0,
              'begin': self.tick()}
        from hypothesis.control import BuildContext
        left = op['choices']
        for k in range(op['n']):
            run, data, _ = self.start(ci, oi, {
                'op': 'draw', 'svc': op['svc'],
                'src': {'seed': op['seed'] + k, 'native': True}})

            def act():
                with BuildContext(data, wrapped_test=_wrapped):
                    data.draw(self.strategy(op, op['svc']))

            how = {}
            self.attempt(ci, run, data, how, act)
            ev['draws'] += 1
            left -= len(data.choices)
            if left < 0 or how.get('out') == 'exc':
                break
        ev['end'] = self.tick()
        self.events[(ci, oi)] = ev
        return ev

    def disturb(self, ci, oi, op):
        ev = {'client': ci, 'index': oi, 'op': 'disturb', 'what': op['what'],
              'begin': self.tick()}
        w = op['what']
        if w == 'gc':
            gc.collect()
        elif w == 'random':
            random.seed(op.get('seed', 1))
        elif w == 'heap':
            r = random.Random(op.get('seed', 1))
            self.ambient.keep.append([object() for _ in range(r.randrange(300))])
        ev['end'] = self.tick()
        self.events[(ci, oi)] = ev
        return ev

    def tick(self):
        self.seq += 1
        return self.seq

    def tenant(self, i, kind):
        """A context of its own: own functions and, maybe, own classes."""
        from ground.context import Context
        noticed = self.noticed
        plain = Context(coordinate_factory=Fraction, sqrt=math.sqrt)
        if kind == 'namesake':
            # told apart from its namesakes by nothing but its classes
            return plain.replace(**{
                name: type(f'Own{name}', (getattr(plain, name),),
                           {'__slots__': ()})
                for name in CLASSES})

        class Tenant(Context):
            __slots__ = ()

            def __getattribute__(self, name):
                noticed(i, name)
                return super().__getattribute__(name)

        own = {} if kind == 'plain' else {
            name: type(f'Own{i}{name}', (getattr(plain, name),),
                       {'__slots__': ()})
            for name in CLASSES}
        return Tenant(coordinate_factory=lambda v: Fraction(v),
                      sqrt=lambda v: math.sqrt(v), **own)

    def failing(self, plain):
        """A context whose functions may be made to fail."""
        on_context = self.on_context

        def watched(name, function):
            def method(*args, **kwargs):
                on_context(name)
                return function(*args, **kwargs)
            return method

        cls = type(plain)
        return type(cls.__name__, (cls,), {
            '__slots__': (),
            **{name: watched(name, f) for name, f in vars(cls).items()
               if not name.startswith('_') and isinstance(f, FunctionType)
               and name != 'replace'}})(
            coordinate_factory=plain.coordinate_factory, sqrt=plain.sqrt)

    def noticed(self, i, what):
        """Context ``i`` is being used: by whom?"""
        run = self.runs[self.cur] if self.running else None
        if run is None:
            return
        used = {run.op['svc']} | set(run.op.get('series', {}).get('svcs', ()))
        own = {self.world['services'][j].get('ctx') for j in used}
        if i not in own and len(self.leaks) < 5:
            self.leaks.append([self.cur, run.op['svc'], i, what])

    def aliens(self, value, i):
        """Classes in a geometry that its context does not know."""
        ctx = self.ctxs[i]
        known = {getattr(ctx, name) for name in CLASSES}
        return sorted({cls.__name__ for cls in cn.classes(value)
                       if cls not in known})

    def build_service(self, i):
        return sv.build(self.world['services'][i], self.ctxs[i],
                        self.on_coordinate, self.lists, self.pool)

    # -- execution ---------------------------------------------------------
    def client(self, ci):
        self.idents[ci] = threading.get_ident()
        self.ready[ci].set()
        self.sems[ci].acquire()
        try:
            for oi, op in enumerate(self.world['clients'][ci]):
                getattr(self, op['op'])(ci, oi, op)
                if len(self.live) > 1:
                    self.yield_point()
        except BaseException as e:
            self.crash = ''.join(traceback.format_exception(e))
        finally:
            self.finish(ci)

    def execute(self):
        import hypothesis_geometry
        from ground.context import Context
        w = self.world
        KERNEL[0] = self
        self.events, self.delivered, self.lists = {}, {}, []
        self.pool = {} if w.get('pool') else None
        self.crash = None
        ambient = dict(w.get('ambient', {}))
        if len(w['clients']) > 1 and self.sched.get('lines'):
            # the order of sets of edges, and with it the schedule, may not
            # follow addresses
            ambient['hash_salt'] = ambient.get('hash_salt') or 1
        self.ambient = Ambient(ambient)
        self.ambient.install()
        shared = Context(coordinate_factory=Fraction, sqrt=math.sqrt)
        floating = Context(coordinate_factory=float, sqrt=math.sqrt)
        integral = Context(coordinate_factory=int, sqrt=math.sqrt)
        self.leaks = []
        if w.get('contexts'):
            tenants = [self.tenant(i, kind)
                       for i, kind in enumerate(w['contexts'])]
        self.ctxs = [tenants[s['ctx']] if 'ctx' in s
                     else floating if s['x']['t'] == 'float'
                     else integral if s['x']['t'] == 'int'
                     else shared if s.get('shared_ctx', True)
                     else Context(coordinate_factory=Fraction, sqrt=math.sqrt)
                     for s in w['services']]
        if w.get('failing'):
            wrapped = {}
            self.ctxs = [wrapped.setdefault(id(c), self.failing(c))
                         for c in self.ctxs]
        import warnings
        warnings.simplefilter('ignore')
        # cold worlds build a service on its first use, inside the draw, where
        # faults and switches can strike
        self.strategies = [None if w.get('cold') else self.build_service(i)
                           for i in range(len(w['services']))]
        self.sites, self.shared_memo = {}, {}
        self.want_sites = {tuple(f['of']) for c in w['clients'] for o in c
                           for f in o.get('faults', ()) if 'site' in f}
        self.setup_sched()
        n = len(self.live)
        self.runs = [None] * n
        self.idents = [None] * n
        self.ready = [threading.Event() for _ in range(n)]
        root = os.path.dirname(os.path.abspath(hypothesis_geometry.__file__))
        self.files = FileSet(root)
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'hgsim')
        mon.register_callback(TOOL, mon.events.LINE, self.on_line)
        threads = [threading.Thread(target=self.client, args=(i,), daemon=True)
                   for i in range(n)]
        for t in threads:
            t.start()
        for r in self.ready:
            r.wait()
        mon.set_events(TOOL, mon.events.LINE)
        self.cur = w.get('sched', {}).get('first', 0) % n if n else 0
        self.running = True
        try:
            if n:
                self.sems[self.cur].release()
                self.done.wait()
        finally:
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)
        self.running = False
        if self.crash:
            return {'error': self.crash}
        late = []
        shared_parts = []
        owners = {}
        for key, (si, value, before, mutated) in self.delivered.items():
            for part in cn.mutable_parts(value, self.ctxs[si]):
                prior = owners.setdefault(id(part), key)
                if prior != key:
                    shared_parts.append([list(prior), list(key)])
            if not mutated:
                try:
                    after = cn.canon(value, self.ctxs[si])
                except Exception as e:
                    after = ['broken', type(e).__name__]
                if after != before:
                    late.append([list(key), after])
        return {
            'events': [self.events[k] for k in sorted(self.events)],
            'switches': self.switches, 'yields': self.n_yield,
            'trace': self.trace, 'late': late, 'shared': shared_parts[:5],
            'leaks': self.leaks,
            'domain_touched': [i for i, (l, o) in enumerate(self.lists)
                               if l != o],
            'lines': sum(e.get('steps', 0) for e in self.events.values()),
        }


class FileSet:
    def __init__(self, root):
        self.root = root + os.sep
        self.memo = {}

    def __contains__(self, name):
        v = self.memo.get(name)
        if v is None:
            v = self.memo[name] = name.startswith(self.root)
        return v


def _wrapped():
    pass


SIM_DATA = [None]


def make_data_class():
    from hypothesis.internal.conjecture.data import ConjectureData

    class SimData(ConjectureData):
        """The choice stream with the simulator's faults and yields in it."""

        sim_kernel = None

        def _draw(self, *args, **kwargs):
            k = self.sim_kernel
            if k is not None:
                k.on_choice(self)
            return super()._draw(*args, **kwargs)

    SIM_DATA[0] = SimData


def corrupt(choices, damages):
    """Storage faults on a recorded choice sequence."""
    c = list(choices)
    for d in damages:
        k, at = d['kind'], d['at']
        n = len(c)
        if not n:
            break
        i = min(n - 1, int(at * n))
        m = max(1, int(d.get('len', 0) * n))
        if k == 'truncate':
            c = c[:i]
        elif k == 'drop':
            del c[i:i + m]
        elif k == 'duplicate':
            c[i:i] = c[i:i + m]
        elif k == 'swap':
            j = min(n - 1, i + m)
            c[i], c[j] = c[j], c[i]
        elif k == 'zero':
            for j in range(i, min(n, i + m)):
                c[j] = type(c[j])(0) if not isinstance(c[j], (str, bytes)) else c[j]
        elif k == 'flip':
            v = c[i]
            if isinstance(v, bool):
                c[i] = not v
            elif isinstance(v, int):
                c[i] = v ^ (1 << d.get('bit', 0))
        elif k == 'retype':
            v = c[i]
            c[i] = (int(v) if isinstance(v, bool) else bool(v)
                    if isinstance(v, int) else 0)
        elif k == 'extend':
            c.extend(c[i:i + m])
    return c


def execute(world):
    k = Kernel(world)
    return k.execute()
