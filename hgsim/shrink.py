"""Minimisation of a violating world: same property, same category.

Everything the scheduler and the fault planner decided is first written out
explicitly (context switches, fault positions, choices fed), then removed or
simplified piece by piece while the violation persists.
"""
import time

from . import judge as jd


class Budget:
    def __init__(self, seconds):
        self.deadline = time.monotonic() + seconds
        self.tried = self.kept = 0

    def left(self):
        return time.monotonic() < self.deadline


class Shrinker:
    def __init__(self, prop, category, world, result, server, refs, seconds=60):
        self.prop, self.category = prop, category
        self.server, self.refs = server, refs
        self.budget = Budget(seconds)
        self.world, self.result, self.violation = world, result, None

    def attempt(self, world):
        """Keep ``world`` if it still violates the property the same way."""
        if not self.budget.left():
            return False
        self.budget.tried += 1
        result = self.server.world(world, wall=60)
        if 'error' in result:
            return False
        try:
            found = jd.examine(self.prop, world, result, self.refs)
        except jd.HarnessError:
            return False
        for v in found:
            if v['category'] == self.category:
                self.world, self.result, self.violation = world, result, v
                self.budget.kept += 1
                return True
        return False

    # -- steps -------------------------------------------------------------
    def written_out(self):
        """Faults at fixed places, corrupted recordings spelled out."""
        w = dict(self.world)
        events = {(e['client'], e['index']): e for e in self.result['events']}
        clients = []
        for ci, ops in enumerate(w['clients']):
            new = []
            for oi, op in enumerate(ops):
                ev = events.get((ci, oi))
                if op['op'] != 'draw' or ev is None:
                    new.append(op)
                    continue
                o = jd.explicit(op, ev)
                if op.get('check'):
                    o['check'] = True
                if self.prop == 'C01' and 'of' in op['src'] \
                        and not op['src'].get('corrupt'):
                    o['src'] = dict(op['src'])
                new.append(o)
            clients.append(new)
        w['clients'] = clients
        if len(clients) > 1:
            s = w.get('sched', {})
            w['sched'] = {'policy': 'replay', 'lines': bool(s.get('lines')),
                          'first': s.get('first', 0),
                          'switches': [list(x) for x in self.result['switches']]}
        return w

    def with_op(self, ci, oi, op):
        w = dict(self.world)
        w['clients'] = [list(c) for c in w['clients']]
        w['clients'][ci][oi] = op
        return w

    def ops(self):
        for ci, ops in enumerate(self.world['clients']):
            for oi in range(len(ops)):
                yield ci, oi

    def drop_clients(self):
        for ci in range(len(self.world['clients'])):
            if len(self.world['clients']) > 1 and self.world['clients'][ci]:
                w = dict(self.world)
                w['clients'] = [[] if i == ci else c
                                for i, c in enumerate(w['clients'])]
                self.attempt(w)
        live = [c for c in self.world['clients'] if c]
        if len(live) == 1 and len(self.world['clients']) > 1 \
                and self.world['clients'][0]:
            w = dict(self.world)
            w['clients'] = live
            w['sched'] = {'policy': 'serial'}
            self.attempt(w)

    def drop_ops(self):
        for ci, oi in reversed(list(self.ops())):
            op = self.world['clients'][ci][oi]
            if op['op'] != 'nop':
                self.attempt(self.with_op(ci, oi, {'op': 'nop'}))
        # operations after the last relevant one go altogether
        w = dict(self.world)
        clients = []
        for ops in w['clients']:
            ops = list(ops)
            while ops and ops[-1]['op'] == 'nop':
                ops.pop()
            clients.append(ops)
        if clients != w['clients']:
            w['clients'] = clients
            self.attempt(w)

    def shorten(self):
        for ci, oi in self.ops():
            while self.world['clients'][ci][oi]['op'] == 'age':
                op = self.world['clients'][ci][oi]
                if op['n'] < 2 or not self.attempt(self.with_op(
                        ci, oi, dict(op, n=op['n'] // 2))):
                    break

    def drop_faults(self):
        for ci, oi in self.ops():
            op = self.world['clients'][ci][oi]
            if op['op'] == 'draw' and op.get('faults'):
                o = {k: v for k, v in op.items() if k != 'faults'}
                self.attempt(self.with_op(ci, oi, o))
            if op['op'] == 'draw' and op.get('fresh'):
                op = self.world['clients'][ci][oi]
                o = {k: v for k, v in op.items() if k != 'fresh'}
                self.attempt(self.with_op(ci, oi, o))

    def drop_ambient(self):
        for field in ('ambient', 'twin'):
            if self.world.get(field):
                w = dict(self.world)
                w[field] = {}
                if self.attempt(w):
                    continue
                for k in list(self.world[field]):
                    w = dict(self.world)
                    w[field] = {a: b for a, b in w[field].items() if a != k}
                    self.attempt(w)

    def drop_switches(self):
        sched = self.world.get('sched', {})
        if sched.get('policy') != 'replay':
            return
        n = 2
        while self.budget.left():
            s = self.world['sched']['switches']
            if not s:
                return
            size = max(1, len(s) // n)
            progress = False
            i = 0
            while i < len(self.world['sched']['switches']) \
                    and self.budget.left():
                s = self.world['sched']['switches']
                w = dict(self.world)
                w['sched'] = dict(w['sched'], switches=s[:i] + s[i + size:])
                if self.attempt(w):
                    progress = True
                else:
                    i += size
            if size == 1 and not progress:
                return
            if not progress:
                n *= 2

    def spell_choices(self):
        for ci, oi in self.ops():
            op = self.world['clients'][ci][oi]
            if op['op'] != 'draw' or 'seed' not in op['src']:
                continue
            ev = next((e for e in self.result['events']
                       if (e['client'], e['index']) == (ci, oi)), None)
            if ev is None or op.get('faults'):
                continue
            o = dict(op, src={'choices': ev['choices']})
            self.attempt(self.with_op(ci, oi, o))

    def simplify_choices(self):
        for ci, oi in self.ops():
            op = self.world['clients'][ci][oi]
            if op['op'] == 'draw' and 'choices' in op['src']:
                self.simplify(ci, oi)

    def simplify(self, ci, oi):
        def now():
            return self.world['clients'][ci][oi]['src']['choices']

        def put(choices):
            op = dict(self.world['clients'][ci][oi])
            op['src'] = {'choices': choices}
            return self.attempt(self.with_op(ci, oi, op))

        size = max(1, len(now()) // 2)
        while size and self.budget.left():
            i = len(now()) - size
            while i >= 0 and self.budget.left():
                c = now()
                if i + size <= len(c):
                    put(c[:i] + c[i + size:])
                i -= size
            size //= 2
        for i in range(len(now())):
            if not self.budget.left():
                return
            c = now()
            if i >= len(c):
                break
            v = c[i]
            if isinstance(v, bool):
                if v:
                    put(c[:i] + [False] + c[i + 1:])
            elif isinstance(v, int) and v:
                for t in (0, v // 2, v - 1 if v > 0 else v + 1):
                    if t != v and put(c[:i] + [t] + c[i + 1:]):
                        break

    def run(self):
        """Returns (world, violation) or None if even the start is lost."""
        if not self.attempt(self.written_out()) \
                and not self.attempt(self.world):
            return None
        for step in (self.drop_clients, self.drop_ops, self.shorten,
                     self.drop_faults,
                     self.drop_ambient, self.drop_switches,
                     self.spell_choices, self.simplify_choices,
                     self.drop_ops, self.drop_switches):
            step()
        return self.world, self.violation


def shrink_session(spec, fails, seconds=60):
    """``fails(spec)`` returns a violation of the wanted category or None."""
    budget = Budget(seconds)
    best = [spec, fails(spec)]
    if best[1] is None:
        return None

    def attempt(s):
        if not budget.left():
            return False
        v = fails(s)
        if v is None:
            return False
        best[:] = [s, v]
        return True

    for i in reversed(range(len(spec['rounds']))):
        s = best[0]
        if len(s['rounds']) > 1 and i < len(s['rounds']):
            rest = [dict(x, repeat=x['repeat'] - 1)
                    if x.get('repeat', -1) > i else x
                    for x in s['rounds'][i + 1:] if x.get('repeat') != i]
            attempt(dict(s, rounds=s['rounds'][:i] + rest))
    attempt(dict(best[0], save_faults=[]))
    for field in ('ambient', 'twin'):
        if best[0].get(field):
            attempt(dict(best[0], **{field: {}}))
    for i in range(len(best[0]['rounds'])):
        if 'repeat' in best[0]['rounds'][i]:
            continue
        for change in ({'restart_faults': []}, {'crash': None},
                       {'mutate': False}, {'max_examples': 1},
                       {'max_examples': 3},
                       {'phases': ['reuse', 'generate']}):
            s = best[0]
            r = s['rounds'][i]
            if any(r.get(k) != v and (k in r or v) for k, v in change.items()):
                attempt(dict(s, rounds=[dict(x, **change) if j == i else x
                                        for j, x in enumerate(s['rounds'])]))
    attempt(dict(best[0], predicate={'p': 'always'}))
    return best[0], best[1]
