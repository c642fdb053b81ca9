"""Seeded generation of worlds: one function per property.

``generate(prop, seed, index)`` is a pure function; its result is plain data
and fully determines the run.
"""
import math
import json
import os
import random

from . import services as sv
from .provider_modes import MODES

CHEAP = ['points', 'multipoints', 'segments', 'boxes', 'triangular_contours',
         'rectangular_contours', 'multisegments', 'convex_contours',
         'star_contours', 'contours']
COMPLEX = ['contours', 'concave_contours', 'multicontours', 'polygons',
           'multipolygons', 'mixes', 'multisegments', 'convex_contours',
           'star_contours']
USER_EXC = ['SimFailure', 'ValueError', 'TypeError', 'KeyError', 'IndexError',
            'AttributeError', 'AssertionError', 'ArithmeticError',
            'ZeroDivisionError', 'OverflowError', 'OSError', 'TimeoutError',
            'RuntimeError', 'NotImplementedError', 'RecursionError',
            'LookupError', 'EOFError', 'BufferError', 'MemoryError',
            'KeyboardInterrupt', 'SystemExit', 'SimInterrupt']
ASYNC_EXC = ['KeyboardInterrupt', 'MemoryError', 'MemoryError', 'RecursionError',
             'SimInterrupt', 'SystemExit']
# what arithmetic and geometric predicates fail with
MATH_EXC = ['ZeroDivisionError', 'ValueError', 'OverflowError',
            'ArithmeticError', 'AssertionError', 'TypeError', 'IndexError']
PS = (.3, .1, .05, .02, .01, .005, .002)


def kind_of(r, only=None):
    if only:
        return r.choice(only)
    t = r.random()
    if t < .3:
        return r.choice(sv.KINDS)
    if t < .75:
        return r.choice(COMPLEX)
    return r.choice(CHEAP)


def ambient(r, salt=True):
    return {'global_random': r.getrandbits(32), 'entropy': r.getrandbits(32),
            'clock': r.choice((0.0, 1e9, 1.7e9, 4e9)),
            'tick': r.choice((1e-7, 1e-6, 1e-4)),
            'clock_jump': r.choice((0, 0, -3600.0, 86400.0)),
            'pid': r.randrange(2, 1 << 22), 'heap': r.choice((0, r.getrandbits(16))),
            'gc': r.choice(('default', 'default', 'off', 'eager')),
            'hash_salt': r.getrandbits(30) | 1 if salt and r.random() < .7 else 0}


def source(r):
    return {'seed': r.getrandbits(40), 'mode': r.choice(MODES)}


def draw(svc, src, faults=None, **kw):
    op = {'op': 'draw', 'svc': svc, 'src': src}
    if faults:
        op['faults'] = faults
    op.update(kw)
    return op


def sched(r, clients, lines=True):
    if clients == 1:
        return {'policy': 'random', 'p': 0, 'seed': 0}
    if lines and r.random() < .4:
        # switches at a few lines, wherever and however often they run
        return {'policy': 'sites', 'sites': r.choice((3, 10, 40, 120, 300)),
                'p': r.choice((0, .001, .01)), 'seed': r.getrandbits(32),
                'q': r.choice((1, .5, .5, .2)), 'shared': r.random() < .4,
                'lines': True, 'first': r.randrange(clients)}
    if lines and r.random() < .3:
        return {'policy': 'random', 'heavy': r.choice((100, 1000, 10000)),
                'p': 0, 'seed': r.getrandbits(32), 'lines': True,
                'first': r.randrange(clients)}
    return {'policy': 'random', 'p': r.choice(PS) if lines
            else r.choice((.5, .3, .1)),
            'seed': r.getrandbits(32), 'lines': lines,
            'first': r.randrange(clients)}


def damages(r):
    out = []
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        out.append({'kind': r.choice(('truncate', 'drop', 'duplicate', 'swap',
                                      'zero', 'flip', 'flip', 'flip', 'retype',
                                      'extend')),
                    'at': round(r.random(), 4),
                    'len': round(r.choice((0, .02, .1, .5)) * r.random(), 4),
                    'bit': r.choice((0, 0, 1, 2, 3, 5, 8, 33))})
    return out


def fault_like(r, of, kinds):
    """A fault placed at a fraction of the work of an earlier, similar draw."""
    k = r.choice(kinds)
    f = {'kind': k, 'of': list(of), 'frac': round(r.random(), 5)}
    if r.random() < .15:
        f['frac'] = r.choice((0.0, 1.0))
    if k in ('raise', 'context'):
        f['exc'] = r.choice(USER_EXC)
    if k == 'context':
        if r.random() < .6:
            f['exc'] = r.choice(MATH_EXC)
        if r.random() < .8:
            f['site'] = round(r.random(), 5)
    if k == 'interrupt':
        f['exc'] = r.choice(ASYNC_EXC)
        if r.random() < .6:
            # every executed line is as likely, however often it runs
            f['site'] = round(r.random(), 5)
            if r.random() < .35:
                f['meet'] = True     # where something outlives the call
    return f


def fault_cold(r):
    """An interrupt or failure that strikes before anything is warmed up."""
    if r.random() < .8:
        return {'kind': 'interrupt', 'exc': r.choice(ASYNC_EXC),
                'at': int(math.exp(r.uniform(0, math.log(r.choice(
                    (300, 3000, 30000))))))}
    return {'kind': 'raise', 'exc': r.choice(USER_EXC),
            'at': r.choice((1, 1, 2, 3, 5, 8))}


def age(r, svc, n=(300, 600, 1200)):
    return {'op': 'age', 'svc': svc, 'n': r.choice(n), 'choices': 15000,
            'seed': r.getrandbits(32)}


ALL_FAULTS = ['raise', 'raise', 'interrupt', 'interrupt', 'interrupt',
              'exhaust', 'invalid_choice', 'reject_from', 'reject', 'invalid']
CONTEXT_FAULTS = ALL_FAULTS + ['context'] * 10
FLOAT_OK = None


def base(r, services, clients, **kw):
    w = {'services': services, 'clients': clients, 'ambient': ambient(r),
         'pool': r.random() < .6}     # equal domains are one strategy object
    w.update(kw)
    return w


def scale_of(r):
    return r.choice((.5, 1, 1, 1, 1.3))


def structural_services(r, n):
    """Services for properties that say nothing about exact geometry."""
    out = []
    for _ in range(n):
        s = sv.service(r, kind_of(r), scale_of(r))
        if r.random() < .5:
            s['shared_ctx'] = r.random() < .8
        out.append(s)
    if r.random() < .5:
        same_domains(out)
    return out


def same_domains(services):
    """All over the coordinates of the one that needs most of them."""
    big = max(services, key=lambda s: sv.need(s['kind'], s['kw']))
    for s in services:
        s['x'], s['y'] = big['x'], big['y']


def float_service(r):
    k = r.choice(('points', 'multipoints', 'segments', 'boxes',
                  'rectangular_contours'))
    return sv.service(r, k, 1.0, ['float'])


# --- one generator per property -------------------------------------------

def gen_replay(r):
    svcs = structural_services(r, r.choice((1, 1, 2)))
    if r.random() < .1:
        svcs.append(float_service(r))
    ops = []
    for i in range(r.choice((2, 3, 4, 6))):
        s = r.randrange(len(svcs))
        ops.append(draw(s, source(r)))
        if r.random() < .4:
            ops.append({'op': 'disturb',
                        'what': r.choice(('gc', 'random', 'heap')),
                        'seed': r.getrandbits(16)})
    n = len(ops)
    old = r.random() < .06
    if old:
        ops.append(age(r, 0))
    for i in range(n):
        if ops[i]['op'] == 'draw' and r.random() < (.9 if old else .5):
            ops.append(draw(ops[i]['svc'], {'of': [0, i]},
                            fresh=r.random() < .3))
    return base(r, svcs, [ops], sched=sched(r, 1), twin=ambient(r))


def gen_duel(r):
    """Two clients in the same code, switched where they may meet."""
    kind = r.choice(COMPLEX)
    svcs = [sv.service(r, kind, r.choice((.3, .5, .5, 1)))]
    if r.random() < .3:
        svcs.append(sv.service(r, kind, .5))
    clients = [[draw(r.randrange(len(svcs)), source(r))
                for _ in range(r.choice((2, 3, 4)))] for _ in range(2)]
    return base(r, svcs, clients, cold=r.random() < .3, sched={
        'policy': 'sites', 'sites': r.choice((20, 200, 1000)),
        'p': r.choice((0, 0, .001, .01)), 'seed': r.getrandbits(32),
        'q': r.choice((1, .5, .5, .2)), 'shared': True, 'lines': True,
        'first': r.randrange(2)})


def gen_isolation(r):
    if r.random() < .35:
        return gen_duel(r)
    svcs = structural_services(r, r.choice((1, 1, 1, 2)))
    n = r.choice((2, 2, 2, 3, 4))
    clients = []
    for c in range(n):
        ops = []
        for i in range(r.choice((1, 1, 2, 3))):
            s = r.randrange(len(svcs))
            faults = None
            if r.random() < .12:
                faults = [{'kind': 'raise', 'at': r.choice((1, 2, 5, 9)),
                           'exc': r.choice(USER_EXC)}]
            elif r.random() < .1:
                faults = [{'kind': 'exhaust', 'at': r.choice((1, 3, 10, 30))}]
            src = source(r)
            if clients and r.random() < .2 and clients[0][0]['svc'] == s:
                src = dict(clients[0][0]['src'])
            ops.append(draw(s, src, faults, fresh=r.random() < .15))
        clients.append(ops)
    return base(r, svcs, clients, sched=sched(r, n), cold=r.random() < .4)


def gen_faults(r):
    svcs = structural_services(r, 1)
    failing = r.random() < .5
    kinds = CONTEXT_FAULTS if failing else ALL_FAULTS
    ops = []
    cold = r.random() < .2
    if cold:
        ops.append(draw(0, source(r), [fault_cold(r)]))
    for _ in range(r.choice((1, 2))):
        src = source(r)
        at = len(ops)
        ops.append(draw(0, src))
        for _ in range(r.choice((3, 5, 8))):
            f = fault_like(r, (0, at), kinds)
            faults = [f]
            ops.append(draw(0, dict(src), faults, fresh=r.random() < .15))
    w = base(r, svcs, [ops], sched=sched(r, 1), cold=cold)
    if failing:
        w['failing'] = True
    if r.random() < .2:
        w['clients'].append([draw(0, source(r)) for _ in range(2)])
        w['sched'] = sched(r, 2)
    return w


def gen_recovery(r):
    long = r.random() < .15
    failing = r.random() < .3
    kinds = CONTEXT_FAULTS if failing else ALL_FAULTS
    svcs = structural_services(r, r.choice((1, 1, 2)))
    if long:
        svcs = [sv.service(r, r.choice(CHEAP), .7) for _ in range(2)]
    ops = []
    if not long and r.random() < .06:
        ops.append(age(r, 0))
    cold = r.random() < .4
    if cold:
        for _ in range(r.choice((1, 1, 2, 3))):
            s = r.randrange(len(svcs))
            ops.append(draw(s, source(r), [fault_cold(r)],
                            fresh=r.random() < .3))
    o0 = len(ops)
    for s in range(len(svcs)):
        ops.append(draw(s, source(r)))
    n0 = len(svcs)
    for _ in range(r.choice((60, 150)) if long else r.choice((2, 4, 7))):
        s = r.randrange(n0)
        if r.random() < .75:
            f = fault_like(r, (0, o0 + s), kinds)
            ops.append(draw(s, dict(ops[o0 + s]['src']), [f],
                            fresh=r.random() < .1))
        else:
            ops.append(draw(s, source(r)))
    for s in range(len(svcs)):
        ops.append(draw(s, dict(ops[o0 + s]['src']), check=True))
        ops.append(draw(s, source(r), check=True))
        if r.random() < .5:
            ops.append(draw(s, source(r), check=True, fresh=True))
    for s in range(n0):
        ops[o0 + s]['check'] = True
    w = base(r, svcs, [ops], sched=sched(r, 1), cold=cold)
    if failing:
        w['failing'] = True
    if not long and r.random() < .15:
        w['clients'].append([dict(o) for o in ops[o0:o0 + n0]])
        for o in w['clients'][1]:
            o['check'] = False
        w['sched'] = sched(r, 2)
    return w


def gen_progress(r):
    svc = sv.service(r, kind_of(r), r.choice((.5, 1, 1, 1.5)))
    ops = []
    for _ in range(r.choice((2, 3, 4))):
        at = len(ops)
        src = source(r)
        ops.append(draw(0, src))
        for _ in range(r.choice((1, 2, 3))):
            if r.random() < .75:
                ops.append(draw(0, {'of': [0, at], 'corrupt': damages(r)}))
            else:
                ops.append(draw(0, dict(src), [fault_like(
                    r, (0, at), ['exhaust', 'reject', 'invalid_choice'])]))
    return base(r, [svc], [ops], sched=sched(r, 1))


def gen_ownership(r):
    svcs = structural_services(r, r.choice((1, 1, 2)))
    n = r.choice((1, 1, 1, 2))
    clients = []
    for c in range(n):
        ops = []
        for _ in range(r.choice((2, 3, 4))):
            s = r.randrange(len(svcs))
            src = source(r)
            if ops and r.random() < .5:
                prev = r.choice([o for o in ops if o['op'] == 'draw'])
                s, src = prev['svc'], dict(prev['src'])
            ops.append(draw(s, src))
            if r.random() < .7:
                ops.append({'op': 'mutate', 'of': [c, len(ops) - 1],
                            'seed': r.getrandbits(16)})
        s = r.randrange(len(svcs))
        ops.append(draw(s, source(r)))
        ops.append(draw(s, dict(ops[-1]['src'])))
        clients.append(ops)
    return base(r, svcs, clients, sched=sched(r, n))


def geometric(kinds, fine=0.0):
    def gen(r):
        n = r.choice((1, 1, 1, 2))
        svcs = [sv.service(r, r.choice(kinds), scale_of(r))
                for _ in range(r.choice((1, 2)))]
        clients = []
        for c in range(n):
            ops = []
            for _ in range(r.choice((3, 4, 5))):
                s = r.randrange(len(svcs))
                at = len(ops)
                src = source(r)
                ops.append(draw(s, src))
                t = r.random()
                if t < .45:
                    ops.append(draw(s, {'of': [c, at], 'corrupt': damages(r)}))
                elif t < .55:
                    ops.append(draw(s, dict(src), [fault_like(
                        r, (c, at), ALL_FAULTS)]))
                    ops.append(draw(s, source(r)))
            clients.append(ops)
        return base(r, svcs, clients, sched=sched(r, n, lines=r.random() < .3))
    return gen


def gen_domain(r):
    # distinguishable axes make a value that strays recognisable
    w = geometric(sv.KINDS)(r)
    w['record_coords'] = True
    return w


def gen_contexts(r):
    """Tenants with their own contexts, often asking for the same thing."""
    n = r.choice((2, 2, 3))
    contexts = ['namesake'] * n if r.random() < .3 else \
        [r.choice(('own', 'own', 'plain')) for _ in range(n)]
    svcs = []
    alike = r.random() < .7
    for i in range(n):
        s = dict(svcs[0]) if svcs and alike \
            else sv.service(r, 'empty_geometries' if r.random() < .07
                            else kind_of(r), r.choice((.5, .5, 1)))
        s['ctx'] = i
        svcs.append(s)
    if not alike and r.random() < .5:
        same_domains(svcs)
    threads = r.choice((1, 1, 2, 2, 3))
    clients = []
    for c in range(threads):
        ops = []
        for _ in range(r.choice((2, 3, 4))):
            i = r.randrange(n)
            src = source(r)
            faults = None
            if r.random() < .15:
                faults = [fault_cold(r)]
            ops.append(draw(i, src, faults, fresh=r.random() < .3,
                            check=r.random() < .4))
            if alike and r.random() < .6:
                j = r.choice([k for k in range(n) if k != i])
                ops.append(draw(j, dict(src), fresh=r.random() < .2,
                                same=[c, len(ops) - 1]))
        clients.append(ops)
    return base(r, svcs, clients, sched=sched(r, threads),
                contexts=contexts, cold=r.random() < .3)


def gen_composition(r):
    svcs = [sv.service(r, kind_of(r), r.choice((.3, .5, .5, 1)))
            for _ in range(r.choice((1, 1, 2, 3)))]
    if r.random() < .5:
        same_domains(svcs)
    n = r.choice((1, 1, 1, 2))
    clients = []
    for c in range(n):
        ops = []
        for _ in range(r.choice((1, 2, 3))):
            parts = [r.randrange(len(svcs)) for _ in range(r.choice((2, 2, 3)))]
            at = len(ops)
            src = source(r)
            spec = {'svcs': parts, 'mutate': r.random() < .3,
                    'shape': r.choice(('interactive', 'interactive', 'tuple',
                                       'list', 'nested', 'builds'))}
            faults = [fault_cold(r)] if r.random() < .12 else None
            ops.append(draw(parts[0], src, faults, series=spec))
            t = r.random()
            if t < .3:
                ops.append(draw(parts[0], {'of': [c, at],
                                           'corrupt': damages(r)}, series=spec))
            elif t < .5:
                ops.append(draw(parts[0], dict(src), [fault_like(
                    r, (c, at), ALL_FAULTS)], series=spec))
            if r.random() < .4:
                # the same geometry again and again in one test case
                k = r.choice((2, 2, 3))
                at = len(ops)
                ops.append(draw(parts[0], source(r)))
                ops.append(draw(parts[0], {'of': [c, at], 'times': k}, series={
                    'svcs': [parts[0]] * k, 'mutate': r.random() < .3,
                    'shape': r.choice(('interactive', 'tuple', 'nested',
                                       'builds'))}))
        clients.append(ops)
    return base(r, svcs, clients, sched=sched(r, n, lines=r.random() < .5))


CONTOUR_KINDS = ['contours', 'contours', 'concave_contours', 'concave_contours',
                 'convex_contours', 'star_contours', 'triangular_contours',
                 'rectangular_contours']
CLASS_KINDS = ['convex_contours', 'convex_contours', 'concave_contours',
               'concave_contours', 'star_contours', 'star_contours',
               'triangular_contours', 'rectangular_contours']
SIMPLE_KINDS = ['segments', 'boxes', 'multipoints', 'multisegments',
                'multisegments', 'multisegments']
SIZED_KINDS = [k for k in sv.KINDS if k not in ('points', 'segments', 'boxes',
                                                'triangular_contours',
                                                'rectangular_contours')] \
    + ['mixes', 'polygons', 'multipolygons', 'triangular_contours']

GENERATORS = {
    'C01': gen_replay, 'C02': gen_isolation, 'C03': gen_faults,
    'C04': gen_recovery, 'C05': gen_progress, 'C06': gen_ownership,
    'C07': geometric(SIZED_KINDS), 'C08': gen_domain,
    'C09': geometric(CONTOUR_KINDS), 'C10': geometric(CLASS_KINDS),
    'C11': geometric(['polygons']), 'C12': geometric(['multicontours']),
    'C13': geometric(['multipolygons']), 'C14': geometric(['mixes']),
    'C15': geometric(SIMPLE_KINDS), 'C19': gen_contexts,
    'C20': gen_composition,
}


def corpus(prop):
    """Worlds that once exposed a defect, by name."""
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'corpus')
    out = []
    for name in sorted(os.listdir(path)):
        with open(os.path.join(path, name)) as f:
            entry = json.load(f)
        if prop in entry['properties']:
            out.append(dict(entry['world'], id=f'{prop}:corpus:{name}'))
    return out


def generate(prop, seed, index):
    if index < 0:
        return corpus(prop)[index]
    r = random.Random(f'{prop}:{seed}:{index}')
    w = GENERATORS[prop](r)
    w['id'] = f'{prop}:{seed}:{index}'
    return w
