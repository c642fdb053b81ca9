"""Runs a check: schedules worlds over fork servers, judges, reports."""
import hashlib
import json
import os
import sys
import threading
import time
import traceback
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

from . import availability as av
from . import judge as jd
from . import session as ss
from . import shrink as sh
from . import worlds as wd
from .forkserver import Server

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('HGSIM_EVIDENCE', os.path.join(HERE, 'evidence'))
REPLAYS = os.environ.get('HGSIM_REPLAYS', os.path.join(HERE, 'replays'))
KNOWN = os.path.join(HERE, 'known_findings.json')
RUN_HASHSEED, REFERENCE_HASHSEED = 1, 2
WORKERS = int(os.environ.get('HGSIM_WORKERS', min(8, os.cpu_count() or 1)))

# worlds (C17: share of the calibrated draws) per tier
QUICK = {'C01': 550, 'C02': 500, 'C03': 800, 'C04': 380, 'C05': 1000,
         'C06': 420, 'C07': 700, 'C08': 900, 'C09': 1600, 'C10': 1600,
         'C11': 550, 'C12': 600, 'C13': 500, 'C14': 680, 'C15': 2500,
         'C16': 130, 'C17': 1, 'C19': 500, 'C20': 450}
SOFT_CAP = {'quick': 540, 'thorough': 6 * 3600}
THOROUGH = 40


class Workers:
    """A thread per worker, each with its own pair of fork servers."""

    def __init__(self, n):
        self.pool = ThreadPoolExecutor(n)
        self.local = threading.local()
        self.servers = []

    def pair(self):
        if not hasattr(self.local, 'pair'):
            self.local.pair = (Server(RUN_HASHSEED), Server(REFERENCE_HASHSEED))
            self.servers.extend(self.local.pair)
        return self.local.pair

    def map(self, fn, jobs, stop):
        def call(job):
            if stop():
                return None
            run, ref = self.pair()
            return fn(job, run, ref)
        return self.pool.map(call, jobs)

    def close(self):
        self.pool.shutdown(wait=True, cancel_futures=True)
        for s in self.servers:
            s.close()


def digest(x):
    return hashlib.blake2b(json.dumps(x, sort_keys=True, default=str).encode(),
                           digest_size=8).hexdigest()


class Statistics:
    def __init__(self):
        self.count = Counter()
        self.faults = Counter()
        self.outcomes = Counter()
        self.kinds = Counter()
        self.distinct = set()
        self.interleavings = set()
        self.samples = []
        self.max_steps = 0

    def world(self, world, result):
        c = self.count
        c['runs'] += 1
        if result['switches']:
            c['runs_with_switches'] += 1
            c['switches'] += len(result['switches'])
            self.interleavings.add(result['trace'])
        c['yield_points'] += result['yields']
        for ev in result['events']:
            c['events'] += 1
            if ev['op'] != 'draw':
                c['op_' + ev['op']] += 1
                continue
            op = world['clients'][ev['client']][ev['index']]
            c['draws'] += 1
            c['choices'] += ev['n_choices']
            c['coordinates'] += ev['n_coords']
            c['library_steps'] += ev['steps']
            self.max_steps = max(self.max_steps, ev['steps'])
            for f in ev['fired']:
                self.faults[f] += 1
            for f in op['src'].get('corrupt', ()):
                self.faults['recording-' + f['kind']] += 1
            if 'of' in op['src']:
                c['replays'] += 1
            out = ev['out'] if ev['out'] != 'stop' else ev['status']
            self.outcomes[ev['type'] if out == 'exc' else out] += 1
            svc = world['services'][ev['svc']]
            self.kinds[svc['kind']] += 1
            if ev['n_choices']:
                self.distinct.add(digest([svc['kind'], svc['kw'], out,
                                          ev.get('value', ev.get('labels')),
                                          ev['fired'], ev['steps']]))

    def session(self, spec, result):
        c = self.count
        c['runs'] += 1
        for r in result['rounds']:
            c['sessions'] += 1
            c['test_calls'] += r.get('calls', 0)
            c['replays_required'] += r['must_fail']
            c['sessions_repeated'] += 'repeat' in r
            self.outcomes[r['out']] += 1
            self.distinct.add(r.get('seen', r['out']))
        c['saves'] += result['saves']
        for f in result['fired']:
            self.faults[f] += 1
        self.kinds[spec['service']['kind']] += 1


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f).get('findings', [])
    except FileNotFoundError:
        return []


def known_match(v, known):
    for k in known:
        if k.get('status') == 'fixed' or k['property'] != v['property']:
            continue
        m = k['match']
        if all((m[f] in str(v.get(f))) if f == 'detail' else m[f] == v.get(f)
               for f in m):
            return k
    return None


class Check:
    def __init__(self, prop, tier, seed, scale=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.monotonic()
        self.stats = Statistics()
        self.violation = None          # (job, violation)
        self.known_hits = Counter()
        self.problems = []
        self.known = load_known()
        self.skipped = 0
        self.references = 0
        self.notes = {}
        n = QUICK[prop]
        if tier == 'thorough':
            n = n * (4 if prop == 'C17' else THOROUGH)
        self.size = n * scale if scale else n
        if prop != 'C17':
            self.size = max(1, int(self.size))
        self.workers = Workers(WORKERS)

    def stop(self):
        if self.violation is not None or self.problems:
            return True
        if time.monotonic() - self.start > SOFT_CAP[self.tier]:
            self.skipped += 1
            return True
        return False

    def found(self, job, violations):
        for v in violations:
            k = known_match(v, self.known)
            if k:
                self.known_hits[k['what']] += 1
            elif self.violation is None:
                self.violation = (job, v)
                return

    # -- worlds ------------------------------------------------------------
    def run_world(self, index, run, ref):
        world = wd.generate(self.prop, self.seed, index)
        result = run.world(world)
        if 'error' in result:
            return self.broken_world(world, result, run)
        refs = jd.References(ref)
        found = jd.examine(self.prop, world, result, refs)
        return ('ok', world, result, found, refs.count, refs.walls)

    def broken_world(self, world, result, run):
        again = run.world(world, wall=300)
        if 'error' not in again:
            return ('problem', f"{world['id']}: {result['error']} only once",
                    None)
        if self.prop == 'C05' and (again.get('wall') or again.get('died')):
            what = 'never ends' if again.get('wall') else 'kills the process'
            v = {'property': 'C05', 'category': 'wall' if again.get('wall')
                 else 'died', 'detail': f'a draw of this world {what}'}
            return ('dead', world, v)
        return ('problem', f"{world['id']}: {again['error'][-1500:]}", None)

    def worlds(self):
        # negative indices are the worlds kept in the corpus
        jobs = range(-len(wd.corpus(self.prop)), self.size)
        for out in self.workers.map(self.guard(self.run_world), jobs,
                                    self.stop):
            if out is None:
                continue
            if out[0] == 'problem':
                self.problems.append(out[1])
            elif out[0] == 'dead':
                self.found(out[1], [out[2]])
            else:
                _, world, result, found, refs, walls = out
                self.stats.world(world, result)
                self.references += refs
                if walls:
                    self.stats.count['references_cut_off'] += walls
                self.sample(world, result)
                self.found(world, found)

    def guard(self, fn):
        def call(*args):
            try:
                return fn(*args)
            except Exception:
                return ('problem', traceback.format_exc(), None)
        return call

    def sample(self, world, result):
        if len(self.stats.samples) < 3:
            ev = next((e for e in result['events'] if e['op'] == 'draw'
                       and e['out'] == 'value'), None)
            if ev:
                svc = world['services'][ev['svc']]
                self.stats.samples.append({
                    'world': world['id'], 'kind': svc['kind'],
                    'sizes': svc['kw'], 'x': svc['x'], 'y': svc['y'],
                    'clients': [[o['op'] for o in c]
                                for c in world['clients']],
                    'switches': len(result['switches']),
                    'faults': [f for e in result['events']
                               for f in e.get('fired', ())],
                    'delivered': ev.get('value', ev.get('labels'))})

    # -- sessions ----------------------------------------------------------
    def run_session(self, index, run, ref):
        spec = ss.generate(self.seed, index)
        result, twin = session_pair(spec, run, ref)
        if 'error' in result or 'error' in twin:
            bad = result if 'error' in result else twin
            if bad.get('wall'):
                return ('slow', spec, None)
            return ('problem', f"{spec['id']}: {bad['error'][-1500:]}", None)
        return ('ok', spec, result, list(ss.judge(spec, result, twin)))

    def sessions(self):
        for out in self.workers.map(self.guard(self.run_session),
                                    range(self.size), self.stop):
            if out is None:
                continue
            if out[0] == 'problem':
                self.problems.append(out[1])
            elif out[0] == 'slow':
                self.problems.append(f"{out[1]['id']}: wall clock limit")
            else:
                _, spec, result, found = out
                self.stats.session(spec, result)
                self.references += spec.get('twin') is not None
                if len(self.stats.samples) < 3:
                    self.stats.samples.append({
                        'session': spec['id'], 'service': spec['service'],
                        'predicate': spec['predicate'],
                        'rounds': spec['rounds'], 'result': result['rounds']})
                self.found(spec, found)

    # -- availability ------------------------------------------------------
    def run_availability(self, job, run, ref):
        i, world = job
        result = run.world(world, wall=400)
        if 'error' in result:
            return ('problem', f"{world['id']}: {result['error'][-1500:]}",
                    None)
        return ('ok', i, world, result)

    def availability(self):
        base = av.baseline()
        plan = []
        for i, e in enumerate(av.CATALOG):
            draws = max(av.CHUNK, round(base[i]['draws'] * self.size))
            plan.append((i, av.worlds(i, self.seed, draws)))
        jobs = []
        depth = max(len(w) for _, w in plan)
        for c in range(depth):
            jobs += [(i, w[c]) for i, w in plan if c < len(w)]
        tallies = {i: av.Tally(e) for i, e in enumerate(av.CATALOG)}
        for out in self.workers.map(self.guard(self.run_availability), jobs,
                                    self.stop):
            if out is None:
                continue
            if out[0] == 'problem':
                self.problems.append(out[1])
                continue
            _, i, world, result = out
            self.stats.world(world, result)
            self.sample(world, result)
            tallies[i].world(world, result)
        if self.problems:
            return
        required = 0
        for i, t in tallies.items():
            need = av.required(base[i], t.attempts)
            required += len(need)
            faults = list(av.faults(t, base[i], need))
            if faults:
                worlds = [w for j, w in jobs if j == i]
                self.found({'availability': i, 'worlds': worlds},
                           [dict(f, property='C17', kind=av.CATALOG[i]['kind'],
                                 kw=av.CATALOG[i]['kw']) for f in faults])
        self.notes['catalogue_entries'] = len(tallies)
        self.notes['features_required'] = required

    # -- conclusion --------------------------------------------------------
    def run(self):
        try:
            if self.prop == 'C16':
                self.sessions()
            elif self.prop == 'C17':
                self.availability()
            else:
                self.worlds()
            self.explored = time.monotonic() - self.start
            code = self.conclude()
        finally:
            self.workers.close()
        return code

    def conclude(self):
        path = None
        if self.violation is not None:
            job, v = self.violation
            path = report(self.prop, self.tier, self.seed, job, v)
        elif self.skipped and not self.problems:
            print(f'note: soft time cap reached, {self.skipped} runs not made')
        self.evidence(1 if path else 0)
        for what, n in sorted(self.known_hits.items()):
            print(f'KNOWN-FINDING: property={self.prop} {what} ({n} times)')
        if path:
            v = self.violation[1]
            print(f"{v['category']}: {v['detail']}")
            print(f'VIOLATION property={self.prop} replay={path}', flush=True)
            return 1
        if self.problems:
            print('harness problem:', self.problems[0], flush=True)
            return 2
        s = self.stats
        print(f'{self.prop} held on {s.count["runs"]} simulated runs, '
              f'{len(s.distinct)} distinct outcomes, '
              f'{sum(s.faults.values())} faults fired, '
              f'{len(s.interleavings)} interleavings, '
              f'{self.references} reference runs, {self.explored:.0f} s')
        return 0

    def evidence(self, violations):
        s = self.stats
        wall = time.monotonic() - self.start
        c = s.count
        runs = c['runs']
        evaluations = c['sessions'] if self.prop == 'C16' else c['draws']
        cov = {
            'evaluations': evaluations,
            'distinct_nontrivial': len(s.distinct),
            'rule': RULE.get(self.prop, RULE['*']),
            'samples': s.samples or ['no run finished'],
            'simulated_runs': runs,
            'seeds_per_hour': round(runs / max(self.explored, .1) * 3600),
            'simulated_time': {
                'unit': 'executed source lines of the library '
                        '(it has no timers)',
                'library_steps': c['library_steps'],
                'longest_draw': s.max_steps,
                'choices_drawn': c['choices'],
                'coordinates_yielded': c['coordinates']},
            'faults_fired': dict(sorted(s.faults.items())),
            'interleavings': {
                'distinct': len(s.interleavings),
                'measure': 'hash over all context switches of (from, to, '
                           'library steps and choices at the switch)',
                'runs_with_switches': c['runs_with_switches'],
                'context_switches': c['switches'],
                'yield_points': c['yield_points']},
            'outcomes': dict(sorted(s.outcomes.items())),
            'kinds': dict(sorted(s.kinds.items())),
            'operations': {k: v for k, v in sorted(c.items())},
            'reference_runs': self.references,
            'runs_not_made_for_time': self.skipped,
            'components': COMPONENTS,
            'known_findings_hit': dict(self.known_hits),
            'harness_problems': self.problems[:3],
        }
        cov.update(self.notes)
        os.makedirs(EVIDENCE, exist_ok=True)
        out = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
               'level': 'exploration', 'coverage': cov,
               'assumptions': ASSUMPTIONS, 'wall_s': round(wall, 2),
               'violations': violations}
        tmp = os.path.join(EVIDENCE, f'.{self.prop}.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(out, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVIDENCE, f'{self.prop}.json'))


RULE = {
    '*': 'One case is one draw in a simulated world generated from the seed. '
         'Non-trivial: it consumed at least one choice; distinct by (strategy '
         'kind, size arguments, outcome, delivered value, faults fired, '
         'library steps executed).',
    'C16': 'One case is one Hypothesis test session (reuse, generation, '
           'shrinking, final replay) over a simulated database; distinct by '
           'the hash of all examples it drew.',
}
COMPONENTS = {
    'real': ['hypothesis_geometry (from the repository working tree)',
             'Hypothesis strategies, choice sequence and, for C16, the whole '
             'engine', 'ground, bentley_ottmann, locus, decision, dendroid',
             'Python threads (parked, one runs at a time)'],
    'simulated': ['thread scheduling', 'locks created by the library',
                  'choice randomness', 'coordinate sources (user code)',
                  'asynchronous interruptions', 'clock, process id, entropy, '
                  'global random state, object addresses and hash seed',
                  'example database and its storage (C16)'],
}
ASSUMPTIONS = [
    'coordinates are exact rationals (as in the library documentation), '
    'drawn from ample domains; float coordinates only where stated',
    'switches and interruptions happen at line boundaries of library code, '
    'at choices and inside coordinate strategies, not inside dependencies',
    'seeded search: a clean run is evidence, not proof',
]


def session_pair(spec, run, ref, wall=200):
    result = run.run({'kind': 'session', 'session': spec, 'wall': wall})
    if 'error' in result or spec.get('twin') is None:
        return result, result
    twin = dict(spec, ambient=spec.get('twin', {}))
    return result, ref.run({'kind': 'session', 'session': twin, 'wall': wall})


# --- violations: minimise, write, confirm ----------------------------------

def report(prop, tier, seed, job, v):
    doc = {'format': 1, 'property': prop, 'category': v['category'],
           'violation': v, 'tier': tier, 'seed': seed,
           'hashseeds': [RUN_HASHSEED, REFERENCE_HASHSEED]}
    run, ref = Server(RUN_HASHSEED), Server(REFERENCE_HASHSEED)
    try:
        if 'availability' in job:
            doc.update(type='availability', entry=job['availability'],
                       worlds=job['worlds'],
                       note='an absence over many draws: nothing to drop')
        elif 'rounds' in job:
            def fails(spec):
                a, b = session_pair(spec, run, ref)
                if 'error' in a or 'error' in b:
                    return None
                for x in ss.judge(spec, a, b):
                    if x['category'] == v['category']:
                        return x
                return None
            small = sh.shrink_session(job, fails)
            doc.update(type='session', original=job['id'],
                       session=small[0] if small else job)
            if small:
                doc['violation'] = small[1]
        elif v['category'] in ('wall', 'died'):
            doc.update(type='world', world=job, original=job['id'],
                       note='the process does not survive: not minimised')
        else:
            refs = jd.References(ref)
            result = run.world(job)
            small = None
            if 'error' not in result:
                s = sh.Shrinker(prop, v['category'], job, result, run, refs)
                small = s.run()
                doc['minimisation'] = {'tried': s.budget.tried,
                                       'kept': s.budget.kept}
            doc.update(type='world', original=job['id'],
                       world=small[0] if small else job)
            if small:
                doc['violation'] = small[1]
    finally:
        run.close()
        ref.close()
    doc['repeats'] = bool(replay_document(doc)[0])
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{prop}-{digest(doc["violation"])}.json')
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    return path


def replay_document(doc):
    """Re-executes a replay file in fresh processes.

    Returns (matching violations, all violations, log digest).
    """
    a, b = doc['hashseeds']
    run, ref = Server(a), Server(b)
    prop = doc['property']
    try:
        if doc['type'] == 'world':
            result = run.world(doc['world'], wall=300)
            if 'error' in result:
                found = []
                if result.get('wall') or result.get('died'):
                    found = [{'property': prop, 'detail': result['error'],
                              'category': 'wall' if result.get('wall')
                              else 'died'}]
            else:
                found = jd.examine(prop, doc['world'], result,
                                   jd.References(ref))
        elif doc['type'] == 'session':
            result, twin = session_pair(doc['session'], run, ref, wall=300)
            found = ([] if 'error' in result or 'error' in twin
                     else list(ss.judge(doc['session'], result, twin)))
        else:
            base = av.baseline()[doc['entry']]
            t = av.Tally(av.CATALOG[doc['entry']])
            result = []
            with ThreadPoolExecutor(WORKERS) as pool:
                local = threading.local()
                servers = []

                def one(w):
                    if not hasattr(local, 's'):
                        local.s = Server(a)
                        servers.append(local.s)
                    return local.s.world(w, wall=400)
                for w, r in zip(doc['worlds'], pool.map(one, doc['worlds'])):
                    if 'error' not in r:
                        t.world(w, r)
                        result.append(r)
            for s in servers:
                s.close()
            found = [dict(f, property='C17') for f in
                     av.faults(t, base, av.required(base, t.attempts))]
    finally:
        run.close()
        ref.close()
    same = [f for f in found if f['category'] == doc['category']]
    return same, found, digest(result)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    same, found, log = replay_document(doc)
    print(f'log digest {log}')
    for v in same or found:
        print(f"{v['category']}: {v['detail']}")
    if same:
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print('not reproduced')
    return 0


def selftest(worlds, seed):
    """Determinism: every run twice, in other processes, orders and hash
    seeds; the logs must be equal byte for byte."""
    props = sorted(wd.GENERATORS)
    jobs = [(p, i) for i in range(worlds) for p in props]
    logs = []
    for hashseed, n, order in ((1, WORKERS, 1), (1, max(1, WORKERS // 3), -1),
                               (12345, WORKERS, 1)):
        local = threading.local()
        servers = []

        def one(job):
            if not hasattr(local, 's'):
                local.s = Server(hashseed)
                servers.append(local.s)
            p, i = job
            if p == 'C16':
                r = local.s.run({'kind': 'session',
                                 'session': ss.generate(seed, i)})
            else:
                r = local.s.world(wd.generate(p, seed, i))
            return job, digest(r), r.get('error')
        with ThreadPoolExecutor(n) as pool:
            out = list(pool.map(one, jobs[::order]))
        for s in servers:
            s.close()
        for job, _, err in out:
            if err:
                print('error in', job, err[-300:])
        logs.append({job: d for job, d, _ in out})
    bad = [j for j in jobs if len({l[j] for l in logs}) > 1]
    print(f'{len(jobs)} worlds x {len(logs)} executions, '
          f'{len(bad)} diverging: {bad[:10]}')
    return 1 if bad else 0


def main(argv):
    if argv and argv[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in argv:
            tier = 'thorough'
        seed = int(os.environ.get('VERIF_SEED', '1'))
        scale = float(os.environ.get('HGSIM_SCALE', '0')) or None
        print(f'seed {seed}', flush=True)
        return Check(argv[1], tier, seed, scale).run()
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    if argv and argv[0] == 'selftest':
        n = int(argv[1]) if len(argv) > 1 else 5
        return selftest(n, int(os.environ.get('VERIF_SEED', '1')))
    if argv and argv[0] == 'calibrate':
        from .calibrate import calibrate
        return calibrate(int(argv[1]), int(argv[2]))
    print('usage: python -m hgsim check PROPERTY [--thorough] | replay FILE | '
          'selftest [N]', file=sys.stderr)
    return 2
