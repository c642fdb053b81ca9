"""Measures the availability catalogue on the current tree (by hand only)."""
import json
import threading
from concurrent.futures import ThreadPoolExecutor

from . import availability as av
from .forkserver import Server
from .runner import WORKERS


def calibrate(draws, seed, cpu_per_entry=9.0):
    local = threading.local()

    def one(job):
        i, w = job
        if not hasattr(local, 's'):
            local.s = Server(1)
        r = local.s.run({'kind': 'world', 'world': w, 'wall': 900,
                         'cpu': True})
        return i, w, r, r.get('cpu', 0.0)

    jobs = [(i, w) for i in range(len(av.CATALOG))
            for w in av.worlds(i, seed, draws)]
    tallies = [av.Tally(e) for e in av.CATALOG]
    cost = [0.0] * len(tallies)
    with ThreadPoolExecutor(WORKERS) as pool:
        for i, w, r, dt in pool.map(one, jobs):
            if 'error' in r:
                raise SystemExit(r['error'])
            tallies[i].world(w, r)
            cost[i] += dt
    out = []
    for i, t in enumerate(tallies):
        per = cost[i] / t.attempts
        n = min(1500, max(100, cpu_per_entry / per)) if t.served \
            else av.UNSERVED_DRAWS
        out.append({'name': av.name_of(t.e), 'attempts': t.attempts,
                    'served': t.served, 'longest_gap': t.longest_gap,
                    'draws': round(n / av.CHUNK) * av.CHUNK,
                    'seen': dict(sorted(t.seen.items()))})
        need = av.required(out[-1], out[-1]['draws'])
        rest = sorted(l for l, k in t.seen.items() if l not in need)
        print(out[-1]['name'], out[-1]['draws'], f'{per:.3f}s', t.served,
              av.gap_bound(out[-1]),
              {l: round(n / t.attempts, 3) for l, n in out[-1]['seen'].items()},
              'REQUIRED', sorted(need), 'REST', rest, flush=True)
    with open(av.BASELINE, 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    return 0
