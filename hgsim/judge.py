"""Property judges: what a world's history must satisfy.

A judge returns violations: dictionaries with ``category`` (stable under
minimisation), ``detail`` and the coordinates of the offending event.
"""
from . import oracles

INTERRUPTS = ('interrupt', 'budget')


def explicit(op, ev):
    """The operation as executed: no references to other events."""
    out = {k: v for k, v in op.items() if k not in ('check',)}
    if ev.get('op') == 'draw':
        if 'of' in op['src']:
            out['src'] = {'choices': ev['fed']}
        faults = []
        for f, (kind, at) in zip(op.get('faults', ()), ev['placed']):
            g = {k: v for k, v in f.items() if k not in ('of', 'frac', 'site')}
            g['at'] = at
            faults.append(g)
        if faults:
            out['faults'] = faults
        else:
            out.pop('faults', None)
    return out


def solo_world(world, op, ev, ambient=None):
    """The same draw, alone, first thing in a fresh process."""
    o = explicit(op, ev)
    svc = world['services'][op['svc']]
    o['svc'] = 0
    o.pop('fresh', None)
    return {'services': [svc], 'clients': [[o]],
            'ambient': ambient or world.get('ambient', {}),
            'sched': {'policy': 'serial'}, 'budget': world.get('budget', 3_000_000),
            'id': f"ref of {world.get('id')}",
            **{k: world[k] for k in ('contexts', 'failing') if k in world}}


def replay_world(world, op, ev, ambient):
    w = solo_world(world, op, ev, ambient)
    o = w['clients'][0][0]
    o['src'] = {'choices': ev['choices']}
    o.pop('faults', None)
    return w


def observable(ev):
    """What a caller can observe of a finished draw."""
    out = {'out': ev['out'], 'choices': ev['choices']}
    if ev['out'] == 'value':
        out['value'] = ev['value']
    elif ev['out'] == 'stop':
        out['status'] = ev['status']
    elif ev['out'] == 'exc':
        out['type'], out['same'] = ev['type'], ev['same']
        out['message'] = ev['message']
    return out


def difference(a, b):
    for k in ('out', 'value', 'status', 'type', 'same', 'choices', 'message'):
        if a.get(k) != b.get(k):
            return f'{k}: {short(a.get(k))} here, {short(b.get(k))} there'
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:150] + '...'


class HarnessError(Exception):
    pass


class References:
    """Lazily executed reference draws, cached per world."""

    def __init__(self, server, wall=60):
        self.server, self.wall = server, wall
        self.count = 0
        self.walls = 0

    def event(self, world):
        self.count += 1
        r = self.server.world(world, wall=self.wall)
        if 'error' in r:
            if r.get('wall'):
                self.walls += 1
                return None
            if 'died' in r:
                return {'out': 'died', 'choices': None, 'status': r['died']}
            raise HarnessError(r['error'])
        return r['events'][0]


def op_of(world, ev):
    return world['clients'][ev['client']][ev['index']]


def draws(world, result):
    for ev in result['events']:
        if ev['op'] == 'draw':
            yield op_of(world, ev), ev


def where(world, ev):
    svc = world['services'][ev['svc']]
    return {'client': ev['client'], 'index': ev['index'],
            'kind': svc['kind'], 'kw': svc['kw']}


def violation(prop, category, detail, world, ev):
    v = {'property': prop, 'category': category, 'detail': detail}
    v.update(where(world, ev) if ev is not None else {})
    if ev is not None and 'value' in ev:
        v['value'] = ev['value']
    return v


def interrupted(ev):
    return any(k in INTERRUPTS for k in ev['fired'])


def compare_solo(prop, world, result, refs, only=None):
    for op, ev in draws(world, result):
        if interrupted(ev) or (only and not only(op)):
            continue
        ref = refs.event(solo_world(world, op, ev))
        if ref is None or interrupted(ref):
            continue
        if ref['out'] == 'died':
            continue
        d = difference(observable(ev), observable(ref))
        if d:
            yield violation(prop, 'differs-from-solo', d, world, ev)


def judge_replay(world, result, refs):
    by_key = {(e['client'], e['index']): e for e in result['events']}
    for op, ev in draws(world, result):
        if interrupted(ev):
            continue
        if 'of' in op['src'] and not op['src'].get('corrupt'):
            base = by_key.get(tuple(op['src']['of']))
            if base is not None and base['op'] == 'draw' and not base['fired']:
                d = difference(observable(base), observable(ev))
                if d:
                    yield violation('C01', 'replay-in-process', d, world, ev)
        elif not op.get('faults'):
            ref = refs.event(replay_world(world, op, ev, world['twin']))
            if ref is None or ref['out'] == 'died':
                continue
            d = difference(observable(ev), observable(ref))
            if d:
                yield violation('C01', 'replay-elsewhere', d, world, ev)


def judge_isolation(world, result, refs):
    yield from compare_solo('C02', world, result, refs)


def judge_faults(world, result, refs):
    for op, ev in draws(world, result):
        kinds = [f['kind'] for f in op.get('faults', ())]
        if not kinds or not ev['fired']:
            continue
        k = kinds[0]
        bad = None
        if k in ('raise', 'interrupt', 'context'):
            if ev['out'] != 'exc' or not ev.get('same'):
                bad = f"{op['faults'][0]['exc']} became {outcome(ev)}"
        elif k == 'exhaust':
            if ev['out'] != 'stop' or ev['status'] != 'OVERRUN':
                bad = f'exhausted source became {outcome(ev)}'
        elif k in ('invalid', 'invalid_choice'):
            if ev['out'] != 'stop' or ev['status'] != 'INVALID':
                bad = f'rejection became {outcome(ev)}'
        elif k == 'reject_from':
            if not (ev['out'] == 'unsat' or (ev['out'] == 'stop' and
                    ev['status'] in ('INVALID', 'OVERRUN'))):
                bad = f'lasting rejection became {outcome(ev)}'
        elif k == 'reject':
            if ev['out'] == 'exc':
                bad = f'rejection became {outcome(ev)}'
        if bad:
            yield violation('C03', f'fault-not-transparent:{k}', bad, world, ev)
    if result['domain_touched']:
        yield violation('C03', 'caller-data-changed',
                        f"coordinate lists {result['domain_touched']} changed",
                        world, None)
    for key, after in result['late']:
        ev = next(e for e in result['events']
                  if [e['client'], e['index']] == key)
        yield violation('C03', 'delivered-geometry-changed', short(after),
                        world, ev)


def outcome(ev):
    if ev['out'] == 'value':
        return f"a delivered {ev['value'][0]}"
    if ev['out'] == 'stop':
        return f"stop {ev['status']}"
    if ev['out'] == 'exc':
        return f"{ev['type']}({ev['message'][:80]!r}) at {ev.get('where')}"
    return ev['out']


def judge_recovery(world, result, refs):
    yield from compare_solo('C04', world, result, refs,
                            only=lambda op: op.get('check'))


def legitimate_stop(ev):
    return ev['out'] in ('value', 'unsat') or (
        ev['out'] == 'stop' and ev['status'] in ('INVALID', 'OVERRUN'))


def judge_progress(world, result, refs):
    for op, ev in draws(world, result):
        if legitimate_stop(ev) or (ev['out'] == 'exc' and ev.get('same')):
            continue
        if ev.get('budget'):
            yield violation('C05', 'step-budget', f"{ev['steps']} steps without end",
                            world, ev)
        elif ev['out'] == 'stop':
            yield violation('C05', f"stop:{ev['status']}", outcome(ev), world, ev)
        else:
            yield violation('C05', f"exception:{ev['type']}", outcome(ev),
                            world, ev)


def judge_ownership(world, result, refs):
    for a, b in result['shared']:
        ev = next(e for e in result['events'] if [e['client'], e['index']] == b)
        yield violation('C06', 'shared-part',
                        f'draws {a} and {b} delivered the same list', world, ev)
    for key, after in result['late']:
        ev = next(e for e in result['events']
                  if [e['client'], e['index']] == key)
        yield violation('C06', 'delivered-geometry-changed', short(after),
                        world, ev)
    for v in compare_solo('C06', world, result, refs):
        v['category'] = 'later-draw-affected'
        yield v


def judge_domain(world, result, refs):
    for op, ev in draws(world, result):
        if ev['out'] != 'value':
            continue
        kind = world['services'][ev['svc']]['kind']
        f = oracles.coordinate_fault(kind, ev['value'], ev['xs'], ev['ys'])
        if f:
            yield violation('C08', 'coordinate', f, world, ev)


def geometric_judge(prop):
    def judge(world, result, refs):
        for op, ev in draws(world, result):
            if ev['out'] != 'value':
                continue
            svc = world['services'][ev['svc']]
            if ev['value'][0] == 'broken':
                yield violation(prop, 'broken-geometry', short(ev['value']),
                                world, ev)
                continue
            try:
                f = oracles.verdict(prop, svc['kind'], svc['kw'], ev['value'])
            except oracles.Inexact as e:
                f = f'coordinate {e} is not an exact rational'
            if f:
                yield violation(prop, 'geometry', f"{svc['kind']}: {f}", world, ev)
    return judge


def judge_contexts(world, result, refs):
    for op, ev in draws(world, result):
        if ev.get('aliens'):
            yield violation('C19', 'foreign-class',
                            f"{ev['aliens']} are no classes of the context",
                            world, ev)
    for client, svc, ctx, what in result['leaks']:
        ev = next((e for e in result['events'] if e['client'] == client
                   and e.get('svc') == svc), None)
        yield violation('C19', 'foreign-context-used',
                        f'{what} of context {ctx} was used', world, ev)
    by_key = {(e['client'], e['index']): e for e in result['events']}
    for op, ev in draws(world, result):
        if 'same' in op and not interrupted(ev):
            base = by_key.get(tuple(op['same']))
            if base is not None and base['op'] == 'draw' \
                    and not base['fired'] and not ev['fired']:
                d = difference(observable(base), observable(ev))
                if d:
                    yield violation('C19', 'context-changes-outcome', d,
                                    world, ev)
    yield from compare_solo('C19', world, result, refs,
                            only=lambda op: op.get('check'))


def judge_composition(world, result, refs):
    for a, b in result['shared']:
        if len(a) < 3 and len(b) < 3:
            continue
        ev = next(e for e in result['events']
                  if [e['client'], e['index']] == b[:2])
        yield violation('C20', 'shared-part',
                        f'draws {a} and {b} delivered the same list', world, ev)
    for key, after in result['late']:
        if len(key) < 3:
            continue
        ev = next(e for e in result['events']
                  if [e['client'], e['index']] == key[:2])
        yield violation('C20', 'sibling-changed', short(after), world, ev)
    for op, ev in draws(world, result):
        for k, sub in enumerate(ev.get('subs', ())):
            if sub['faults']:
                continue        # the slice alone would not meet them
            o = {'op': 'draw', 'svc': 0, 'src': {
                'choices': ev['choices'][sub['a']:sub['b']]}}
            ref = refs.event(dict(
                solo_world(world, dict(o, svc=sub['svc']), ev), clients=[[o]]))
            if ref is None or ref['out'] == 'died':
                continue
            d = difference({'out': 'value', 'value': sub['value'],
                            'choices': o['src']['choices']}, observable(ref))
            if d:
                yield violation('C20', 'differs-from-slice',
                                f'part {k} of a {op["series"]["shape"]}: {d}',
                                world, ev)


JUDGES = {'C19': judge_contexts, 'C20': judge_composition,
          'C01': judge_replay, 'C02': judge_isolation, 'C03': judge_faults,
          'C04': judge_recovery, 'C05': judge_progress,
          'C06': judge_ownership, 'C08': judge_domain}
for _p in oracles.DIGESTS:
    JUDGES[_p] = geometric_judge(_p)

REFERENCED = ('C01', 'C02', 'C04', 'C06', 'C19', 'C20')


def examine(prop, world, result, refs, limit=3):
    out = []
    for v in JUDGES[prop](world, result, refs):
        out.append(v)
        if len(out) >= limit:
            break
    return out
