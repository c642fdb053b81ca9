"""Progress once faults stop: requests served, the whole range reachable.

A fixed catalogue of requests.  For each one, several worlds run a burst of
faults and then fault-free draws with Hypothesis' own randomness; the features
of everything delivered are pooled and compared with the features that must
keep occurring.
"""
import json
import math
import os
import random

from .worlds import ALL_FAULTS, ambient, draw, fault_like, source

GRID = {'t': 'grid', 'lo': '-20', 'step': '1', 'n': 60}
FRAC = {'t': 'frac', 'lo': -50, 'hi': 50}
WIDE = {'t': 'frac'}
FINE = {'t': 'den', 'lo': -12, 'hi': 12, 'den': 4}


def entry(kind, x, y=None, **kw):
    return {'kind': kind, 'x': x, 'y': y, 'kw': kw}


CATALOG = [
    entry('points', GRID, FRAC),
    entry('multipoints', WIDE, min_size=1, max_size=5),
    entry('multipoints', GRID, FINE, min_size=3, max_size=3),
    entry('multipoints', FRAC),
    entry('segments', GRID),
    entry('multisegments', GRID, min_size=2, max_size=6),
    entry('multisegments', FRAC, FINE, min_size=5, max_size=5),
    entry('multisegments', WIDE),
    entry('contours', GRID, min_size=3, max_size=7),
    entry('contours', WIDE, min_size=6, max_size=6),
    entry('contours', FRAC, GRID),
    entry('convex_contours', GRID, min_size=3, max_size=7),
    entry('convex_contours', FRAC, min_size=5, max_size=5),
    entry('convex_contours', WIDE, min_size=4),
    entry('concave_contours', GRID, min_size=4, max_size=8),
    entry('concave_contours', WIDE, min_size=4, max_size=4),
    entry('concave_contours', FRAC, FINE, min_size=7),
    entry('triangular_contours', FINE),
    entry('rectangular_contours', GRID, FRAC),
    entry('boxes', FINE),
    entry('star_contours', GRID, min_size=3, max_size=7),
    entry('star_contours', WIDE, min_size=5, max_size=5),
    entry('star_contours', FRAC),
    entry('multicontours', GRID, min_size=2, max_size=4,
          min_contour_size=3, max_contour_size=5),
    entry('multicontours', WIDE, min_size=3, max_size=3,
          min_contour_size=4, max_contour_size=4),
    entry('multicontours', FRAC, GRID, min_size=2),
    entry('polygons', GRID, min_size=3, max_size=6, min_holes_size=0,
          max_holes_size=2, min_hole_size=3, max_hole_size=4),
    entry('polygons', WIDE, min_size=4, max_size=8, min_holes_size=1,
          max_holes_size=1, min_hole_size=3, max_hole_size=3),
    entry('polygons', FRAC, GRID, min_size=5, max_size=5, max_holes_size=0),
    entry('polygons', FRAC),
    entry('multipolygons', GRID, min_size=2, max_size=3, min_border_size=3,
          max_border_size=5, max_holes_size=1, max_hole_size=4),
    entry('multipolygons', FRAC, GRID, min_size=2, max_size=2,
          min_border_size=4, max_border_size=6, max_holes_size=0),
    entry('mixes', GRID, max_points_size=2, max_segments_size=2,
          max_polygons_size=2, max_polygon_border_size=5,
          max_polygon_holes_size=1, max_polygon_hole_size=4),
    entry('mixes', FRAC, min_points_size=2, max_points_size=4,
          min_segments_size=1, max_segments_size=3, max_polygons_size=0),
    entry('mixes', GRID, FRAC, min_points_size=1, max_points_size=1,
          max_segments_size=0, min_polygons_size=1, max_polygons_size=2,
          max_polygon_border_size=6, max_polygon_holes_size=0),
    entry('mixes', FRAC, max_points_size=0, min_segments_size=2,
          max_segments_size=2, min_polygons_size=1, max_polygons_size=1,
          max_polygon_border_size=5, max_polygon_holes_size=0),
    entry('polygons', GRID, min_size=3, max_size=6, min_holes_size=1,
          max_holes_size=3, min_hole_size=3, max_hole_size=4),
    entry('polygons', GRID, FINE, min_size=3, max_size=5, min_holes_size=2,
          max_holes_size=2),
    entry('contours', GRID, min_size=5, max_size=8),
    entry('contours', FINE, min_size=3, max_size=3),
    entry('convex_contours', FINE, min_size=3, max_size=3),
    entry('convex_contours', GRID, min_size=7, max_size=9),
    entry('star_contours', GRID, min_size=4, max_size=6),
    entry('star_contours', FINE, min_size=3, max_size=3),
    entry('concave_contours', GRID, min_size=5, max_size=6),
    entry('multisegments', GRID, min_size=0, max_size=2),
    entry('multisegments', FINE, min_size=4, max_size=8),
    entry('multipoints', GRID, min_size=0, max_size=2),
    entry('multicontours', GRID, min_size=4, max_size=4, min_contour_size=3,
          max_contour_size=3),
    entry('multicontours', GRID, FRAC, max_size=2, min_contour_size=5),
    entry('multipolygons', GRID, max_size=2, max_border_size=6,
          min_holes_size=1, max_holes_size=1, max_hole_size=3),
    entry('multipolygons', FRAC),
    entry('mixes', GRID, max_points_size=1, max_segments_size=1,
          min_polygons_size=1, max_polygons_size=1, max_polygon_border_size=6,
          min_polygon_holes_size=1, max_polygon_holes_size=1,
          max_polygon_hole_size=3),
    entry('mixes', FINE, GRID, min_segments_size=0, max_segments_size=3,
          max_points_size=3, max_polygons_size=1, max_polygon_border_size=4,
          max_polygon_holes_size=0),
    entry('mixes', FRAC),
    # bounds between two primes, where the grid of points is not as large
    entry('contours', GRID, min_size=5, max_size=6),
    entry('contours', FRAC, min_size=7, max_size=8),
    entry('convex_contours', FRAC, min_size=11, max_size=12),
    entry('convex_contours', GRID, min_size=3, max_size=6),
    entry('concave_contours', GRID, FRAC, min_size=7, max_size=8),
    entry('star_contours', GRID, min_size=5, max_size=6),
    entry('star_contours', FRAC, min_size=7, max_size=8),
    entry('multicontours', GRID, max_size=3, min_contour_size=3,
          max_contour_size=3),
    entry('multicontours', FRAC, GRID, min_size=2, max_size=4,
          min_contour_size=4, max_contour_size=4),
    entry('polygons', GRID, FRAC, min_size=4, max_size=4, min_holes_size=1,
          max_holes_size=1, min_hole_size=4, max_hole_size=4),
    entry('polygons', GRID, max_size=6, min_holes_size=2, max_holes_size=4,
          max_hole_size=3),
    # more of everything
    entry('multipoints', GRID, min_size=10, max_size=14),
    entry('multisegments', GRID, min_size=9, max_size=12),
    entry('multisegments', GRID, FRAC, min_size=3, max_size=3),
    entry('convex_contours', FRAC, GRID, min_size=14),
    entry('concave_contours', GRID, min_size=12, max_size=13),
    entry('multicontours', FRAC, min_size=5, max_size=7, min_contour_size=3),
    entry('polygons', FRAC, min_size=9, max_size=12, max_holes_size=2),
    entry('polygons', GRID, min_size=5, min_holes_size=4),
    entry('multipolygons', GRID, min_size=4, max_size=5, max_border_size=5,
          max_holes_size=0),
    entry('multipolygons', FRAC, min_size=2, max_size=3, min_border_size=5,
          min_holes_size=1, max_holes_size=2, min_hole_size=3,
          max_hole_size=3),
    entry('mixes', GRID, min_points_size=3, max_points_size=6,
          min_segments_size=4, max_segments_size=7, max_polygons_size=1,
          max_polygon_border_size=5, max_polygon_holes_size=0),
    entry('mixes', FRAC, max_points_size=2, max_segments_size=0,
          min_polygons_size=2, max_polygons_size=3, max_polygon_border_size=4,
          max_polygon_holes_size=0),
    entry('mixes', GRID, FRAC, max_points_size=3, min_segments_size=2,
          max_segments_size=5, min_polygons_size=1, max_polygons_size=1,
          min_polygon_border_size=5, max_polygon_border_size=6,
          min_polygon_holes_size=1, max_polygon_holes_size=2,
          max_polygon_hole_size=4),
    # known not to be served, see known_findings.json
    entry('star_contours', GRID, min_size=15, max_size=15),
    entry('polygons', GRID, min_size=3, max_size=3, min_holes_size=2,
          max_holes_size=2, min_hole_size=3, max_hole_size=3),
    entry('multipolygons', GRID, min_size=2, max_size=2, min_border_size=3,
          max_border_size=3, min_holes_size=2, max_holes_size=2,
          min_hole_size=3, max_hole_size=3),
]
UNSERVED_DRAWS = 300


def name_of(e):
    kw = ','.join(f'{k}={v}' for k, v in sorted(e['kw'].items()))
    return f"{e['kind']}({kw})#{CATALOG.index(e)}"


def labels(kind, kw, node):
    """The features of a delivered value that the catalogue counts."""
    out = set()

    def count(what, n, top=14):
        out.add(f'{what}={n}' if n <= top else f'{what}>{top}')

    def contour(c, what):
        count(what, len(c[1]))

    def polygon(p):
        contour(p[1], 'border')
        count('holes', len(p[2]), 6)
        for h in p[2]:
            contour(h, 'hole')

    k = node[0]
    if k in ('multipoint', 'multisegment', 'sequence', 'multipolygon'):
        count('size', len(node[1]))
        if k == 'sequence':
            for c in node[1]:
                contour(c, 'contour')
        if k == 'multipolygon':
            for p in node[1]:
                polygon(p)
    elif k == 'contour':
        contour(node, 'size')
        if kind == 'contours':
            from . import oracles
            pts = oracles.Shape(kind, node).contours[0]
            out.add('convex' if all(t > 0 for t in oracles.turns(pts))
                    else 'concave')
    elif k == 'polygon':
        polygon(node)
    elif k == 'mix':
        d, l, s = node[1:]
        count('points', len(d[1]) if d[0] != 'empty' else 0, 8)
        count('segments', 0 if l[0] == 'empty' else 1 if l[0] == 'segment'
              else len(l[1]), 8)
        polys = ([] if s[0] == 'empty' else [s] if s[0] == 'polygon' else s[1])
        count('polygons', len(polys), 4)
        for p in polys:
            polygon(p)
    return out


CHUNK = 50


def worlds(e_index, seed, draws, chunk=CHUNK):
    """The worlds of one catalogue entry."""
    e = CATALOG[e_index]
    svc = {'kind': e['kind'], 'kw': dict(e['kw']), 'x': dict(e['x']),
           'y': dict(e['y']) if e['y'] else None}
    out = []
    n = max(1, round(draws / chunk))
    for c in range(n):
        r = random.Random(f'C17:{seed}:{e_index}:{c}')
        ops = [draw(0, source(r))]
        for _ in range(r.choice((2, 4, 8))):
            ops.append(draw(0, dict(ops[0]['src']),
                            [fault_like(r, (0, 0), ALL_FAULTS)]))
        for k in range(chunk):
            src = (source(r) if k % 2 else
                   {'seed': r.getrandbits(40), 'native': True})
            ops.append(draw(0, src, suffix=True))
        out.append({'services': [svc], 'clients': [ops],
                    'ambient': ambient(r), 'sched': {'policy': 'serial'},
                    'id': f'C17:{seed}:{e_index}:{c}', 'slim': True})
    return out


class Tally:
    """Pooled outcome of the fault-free suffixes of one entry."""

    def __init__(self, e):
        self.e = e
        self.attempts = self.served = 0
        self.gap = self.longest_gap = 0
        self.seen = {}

    def world(self, world, result):
        self.gap = 0
        for ev in result['events']:
            op = world['clients'][ev['client']][ev['index']]
            if op.get('suffix'):
                self.add(ev)

    def add(self, event):
        self.attempts += 1
        if event['out'] != 'value':
            self.gap += 1
            self.longest_gap = max(self.longest_gap, self.gap)
            return
        self.gap = 0
        self.served += 1
        for l in event['labels']:
            self.seen[l] = self.seen.get(l, 0) + 1


SHARE = .55        # a feature may become this much rarer without an alarm
CERTAIN = 1e-5     # chance of missing such a feature by bad luck


def required(base, attempts):
    """Features that this many attempts cannot miss by bad luck."""
    out = {}
    for l, n in base['seen'].items():
        # one-sided lower estimate of the calibrated frequency
        p = max(0.0, n - 2.5 * n ** .5) / base['attempts'] * SHARE
        if p > 0 and (1 - p) ** attempts < CERTAIN:
            out[l] = n / base['attempts']
    return out


def gap_bound(base):
    """Attempts within which a request must be served."""
    if base['served'] < 20:
        return math.inf
    q = 1 - SHARE * base['served'] / base['attempts']
    n = 5
    while q ** n > 1e-9:
        n += 1
    return n


def faults(tally, base, need):
    if not tally.served:
        yield {'category': 'never-served',
               'detail': f"{name_of(tally.e)}: no geometry in "
                         f'{tally.attempts} attempts'}
        return
    g = gap_bound(base)
    if tally.longest_gap > g:
        yield {'category': 'served-too-late',
               'detail': f'{name_of(tally.e)}: {tally.longest_gap} rejections '
                         f'in a row, bound {g}'}
    for l, p in sorted(need.items()):
        if l not in tally.seen:
            yield {'category': f'unreachable:{l}',
                   'detail': f'{name_of(tally.e)}: {l} never delivered in '
                             f'{tally.attempts} attempts (normally {p:.1%})'}


BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        'availability.json')


def baseline():
    with open(BASELINE) as f:
        return json.load(f)
