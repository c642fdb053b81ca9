"""Services: the strategies the simulated clients draw from.

A service is plain data (kind, size arguments, coordinate domains, context),
generated from a PRNG; ``build`` turns it into a strategy of the library
under test.  Domains are always ample for the request: rejection because the
user's own coordinates are too few is legitimate and not under test.
"""
import json
import sys
from fractions import Fraction

KINDS = ['points', 'multipoints', 'segments', 'multisegments', 'contours',
         'convex_contours', 'concave_contours', 'triangular_contours',
         'rectangular_contours', 'boxes', 'star_contours', 'multicontours',
         'polygons', 'multipolygons', 'mixes']


# unbounded fractions cost four times as much per draw as the others
FLAVOURS = ['frac', 'frac_in', 'frac_half'] + ['grid'] * 3 + ['tight'] * 4 \
    + ['fine', 'far'] + ['sampled'] * 6 + ['exact'] * 2


MODULUS = sys.hash_info.modulus


def next_prime(n):
    n = max(n, 5)
    while any(n % d == 0 for d in range(2, int(n ** .5) + 1)):
        n += 1
    return n


def need(kind, kw):
    """Distinct coordinates per axis the library asks for at least."""
    g = kw.get

    def lo(name, floor):
        v = g(name)
        return floor if v is None else max(v, floor)

    if kind in ('points', 'segments', 'boxes', 'rectangular_contours',
                'triangular_contours'):
        return 3
    if kind == 'multipoints':
        return lo('min_size', 1) + 1
    if kind == 'multisegments':
        return next_prime(lo('min_size', 2) + 1)
    if kind in ('contours', 'convex_contours', 'star_contours'):
        return next_prime(lo('min_size', 3))
    if kind == 'concave_contours':
        return next_prime(lo('min_size', 4))
    if kind == 'multicontours':
        return next_prime(lo('min_size', 2) * lo('min_contour_size', 3))
    if kind == 'polygons':
        return next_prime(lo('min_size', 3)
                          + lo('min_holes_size', 0) * lo('min_hole_size', 3))
    if kind == 'multipolygons':
        return max(lo('min_size', 2)
                   * next_prime(lo('min_border_size', 3)
                                + lo('min_holes_size', 0) * lo('min_hole_size', 3)),
                   next_prime(lo('min_size', 2) * lo('min_border_size', 3)))
    if kind == 'mixes':
        return (lo('min_points_size', 0) + 2 * lo('min_segments_size', 0) + 3
                + max(lo('min_polygons_size', 0), 1)
                * next_prime(lo('min_polygon_border_size', 3)
                             + lo('min_polygon_holes_size', 0)
                             * lo('min_polygon_hole_size', 3)))
    return 1


def size_pair(r, lo, hi):
    """A (min, max) request; either side may be left to its default."""
    a = r.randint(lo, hi)
    if r.random() < .2:
        a = lo
    t = r.random()
    if t < .3:
        b = None
    elif t < .5:
        b = a
    else:
        b = r.randint(a, max(a, hi))
    return a, b


def size_args(kind, r, scale=1.0):
    k = {}

    def s(lo, hi, name='size'):
        hi = max(lo, round(lo + (hi - lo) * scale))
        a, b = size_pair(r, lo, hi)
        t = r.random()
        if t < .12 and a == lo:
            pass                       # leave the minimum to its default
        elif t < .16 and a == lo and lo > 0 and (b is None or b >= lo):
            k[f'min_{name}'] = r.randint(0, lo)   # below the geometric minimum
        else:
            k[f'min_{name}'] = a
        if b is not None:
            k[f'max_{name}'] = b
        elif r.random() < .5:
            k[f'max_{name}'] = None

    wide = r.random() < .12
    big = 2.0 if wide else 1.0
    more = 3 if wide else 0
    if kind in ('multipoints', 'convex_contours') and r.random() < .03:
        big = 7.0
    if kind == 'multipoints':
        s(1, round(10 * big))
    elif kind == 'multisegments':
        s(2, round(9 * big))
    elif kind in ('contours', 'convex_contours', 'star_contours'):
        s(3, round(10 * big))
    elif kind == 'concave_contours':
        s(4, round(10 * big))
    elif kind == 'multicontours':
        s(2, 5 + more)
        s(3, 8 + more, 'contour_size')
    elif kind == 'polygons':
        s(3, round(8 * big))
        s(0, 3 + more, 'holes_size')
        s(3, 6 + more, 'hole_size')
    elif kind == 'multipolygons':
        s(2, 4 + more // 2)
        s(3, 7 + more, 'border_size')
        s(0, 2, 'holes_size')
        s(3, 5, 'hole_size')
    elif kind == 'mixes':
        while True:
            k.clear()
            s(0, 5 + 2 * more, 'points_size')
            s(0, 18 if wide and r.random() < .4 else 5 + 2 * more,
              'segments_size')
            s(0, 3 + more // 3, 'polygons_size')
            if sum(k.get(f'max_{q}_size') != 0
                   for q in ('points', 'segments', 'polygons')) >= 2:
                break
        s(3, 7, 'polygon_border_size')
        s(0, 2, 'polygon_holes_size')
        s(3, 5, 'polygon_hole_size')
    return k


def domain(r, n, flavour=None):
    """An exact rational coordinate domain with at least ``n`` values."""
    t = flavour or r.choice(FLAVOURS)
    if t == 'frac':
        return {'t': 'frac'}
    if t == 'frac_in':
        a = r.randint(-100, 100)
        return {'t': 'frac', 'lo': a, 'hi': a + r.choice((1, 10, 1000))}
    if t == 'frac_half':
        a = r.randint(-100, 100)
        return {'t': 'frac', r.choice(('lo', 'hi')): a}
    if t == 'grid':
        m = round(n * r.choice((1.4, 2, 3, 6))) + r.randint(2, 6)
        return {'t': 'grid', 'lo': str(r.choice((0, 0, -m // 2, -7, 1000))),
                'step': r.choice(('1', '1', '1/2', '2/3', '10')), 'n': m}
    if t == 'tight':
        return {'t': 'grid', 'lo': str(r.choice((0, -n // 2, 5))), 'step': '1',
                'n': n + r.choice((1, 2, 3, 5))}
    if t == 'fine':
        d = r.choice((2, 4, 6))
        return {'t': 'den', 'lo': -n, 'hi': n + 2, 'den': d}
    if t == 'sampled':
        m = 4 * n + r.choice((12, 80, 120))
        vals = set()
        while len(vals) < m:
            vals.add(Fraction(r.randint(-3 * m, 3 * m), r.choice((1, 1, 2, 3))))
        vals = sorted(vals)
        if r.random() < .5:
            r.shuffle(vals)
        return {'t': 'sampled', 'vals': [str(v) for v in vals]}
    if t == 'twins':
        # distinct coordinates with equal hashes
        m = n + r.choice((2, 6, 20))
        vals = [a + b * MODULUS for a in range(-m // 4, m // 4 + 2)
                for b in (0, 1)]
        r.shuffle(vals)
        return {'t': 'sampled', 'vals': [str(v) for v in vals]}
    if t == 'exact':
        # just as many as the request needs
        vals = r.sample(range(-2 * n, 2 * n + 1), n)
        return {'t': 'sampled', 'vals': [str(v) for v in vals]}
    if t == 'flat':
        return {'t': 'sampled', 'vals': [str(v) for v in r.sample(
            range(-5, 6), r.choice((1, 1, 2)))]}
    if t == 'far':
        m = 3 * n + r.randint(5, 30)
        return {'t': 'grid', 'lo': str(10 ** r.choice((6, 12, 18))),
                'step': r.choice(('1', '1/1000003')), 'n': m}
    if t == 'int':
        m = 3 * n + r.choice((5, 20, 1000, 10 ** 9))
        lo = r.choice((0, -m // 2, 7))
        return {'t': 'int', 'lo': lo, 'hi': lo + m}
    if t == 'float':
        return {'t': 'float', 'lo': -1000.0, 'hi': 1000.0}
    raise ValueError(t)


def service(r, kind, scale=1.0, flavours=None):
    kw = size_args(kind, r, scale)
    n = need(kind, kw)

    def dom():
        return domain(r, n, r.choice(flavours) if flavours else None)

    if not flavours and kind != 'star_contours' and r.random() < .08:
        flavours = ['int']          # (centroids of integers are not exact)
    elif not flavours and kind not in ('star_contours', 'contours',
                                       'convex_contours') and r.random() < .08:
        flavours = ['twins']        # (angles are floats)
    svc = {'kind': kind, 'kw': kw, 'x': dom(), 'y': None}
    if r.random() < .5:
        svc['y'] = dom()
        if r.random() < .2:
            svc['y'] = dict(svc['x'])
    if not flavours and r.random() < .12 and \
            kind in ('points', 'multipoints', 'segments'):
        svc['y'] = svc['y'] or domain(r, n)
        svc[r.choice('xy')] = domain(r, n, 'flat')
    return svc


# --- building -------------------------------------------------------------

def coordinate_strategy(dom, hook, lists):
    from hypothesis import strategies as st
    t = dom['t']
    if t == 'frac':
        base = st.fractions(dom.get('lo'), dom.get('hi'))
    elif t == 'den':
        base = st.fractions(dom['lo'], dom['hi'], max_denominator=dom['den'])
    elif t == 'grid':
        lo, step = Fraction(dom['lo']), Fraction(dom['step'])
        base = st.integers(0, dom['n']).map(Scaled(lo, step))
    elif t == 'sampled':
        vals = [Fraction(v) for v in dom['vals']]
        lists.append((vals, list(vals)))
        base = st.sampled_from(vals)
    elif t == 'int':
        base = st.integers(dom['lo'], dom['hi'])
    elif t == 'float':
        base = st.floats(dom['lo'], dom['hi'], allow_nan=False,
                         allow_infinity=False)
    else:
        raise ValueError(t)
    return base.map(hook) if hook is not None else base


class Scaled:
    def __init__(self, lo, step):
        self.lo, self.step = lo, step

    def __call__(self, v):
        return self.lo + v * self.step

    def __repr__(self):
        return f'scaled({self.lo}, {self.step})'


class Hook:
    """The user-code seam: called with every coordinate a draw yields."""

    def __init__(self, axis, callback):
        self.axis, self.callback = axis, callback

    def __call__(self, value):
        return self.callback(self.axis, value)

    def __repr__(self):
        return f'hook_{self.axis}'


def build(svc, ctx, callback, lists, pool=None):
    from hypothesis_geometry import planar
    kind = svc['kind']
    if kind == 'empty_geometries':
        return planar.empty_geometries(context=ctx)
    hx = Hook('x', callback) if callback else None
    hy = Hook('y', callback) if callback else None

    def coordinates(dom, hook):
        if pool is None:
            return coordinate_strategy(dom, hook, lists)
        key = (hook and hook.axis, json.dumps(dom, sort_keys=True))
        if key not in pool:
            pool[key] = coordinate_strategy(dom, hook, lists)
        return pool[key]

    x = coordinates(svc['x'], hx)
    args = [x]
    if svc.get('y') is not None:
        args.append(coordinates(svc['y'], hy))
    return getattr(planar, kind)(*args, context=ctx, **svc['kw'])
