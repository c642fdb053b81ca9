"""Exact reference definitions of every geometric promise.

Works on canons only and shares no code with the library under test, with
ground or with bentley_ottmann: brute force over all pairs, in integers.
Coordinates are first multiplied by a common denominator per axis (all the
predicates used are invariant under positive scaling of the axes).
"""
from fractions import Fraction
from math import lcm

from .canon import parse, points_of


def scaler(node):
    xs, ys = {}, {}
    for x, y in points_of(node):
        xs[x] = None
        ys[y] = None
    for d in (xs, ys):
        for k in d:
            d[k] = parse(k)
            if d[k] is None:
                raise Inexact(k)
        m = 1
        for v in d.values():
            m = lcm(m, v.denominator)
        for k, v in d.items():
            d[k] = v.numerator * (m // v.denominator)
    return lambda p: (xs[p[1]], ys[p[2]])


class Inexact(Exception):
    pass


def cross(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def on_segment(p, s):
    a, b = s
    return (cross(a, b, p) == 0
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


DISJOINT, TOUCH, CROSS, OVERLAP = 'disjoint', 'touch', 'cross', 'overlap'


def relation(s, t):
    a, b = s
    c, d = t
    if (max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0])
            or max(a[1], b[1]) < min(c[1], d[1])
            or max(c[1], d[1]) < min(a[1], b[1])):
        return DISJOINT
    o1, o2, o3, o4 = cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b)
    if o1 == o2 == 0:
        common = {q for q in (a, b) if on_segment(q, t)}
        common |= {q for q in (c, d) if on_segment(q, s)}
        return DISJOINT if not common else TOUCH if len(common) == 1 else OVERLAP
    if o1 * o2 < 0 and o3 * o4 < 0:
        return CROSS
    if (on_segment(a, t) or on_segment(b, t) or on_segment(c, s)
            or on_segment(d, s)):
        return TOUCH
    return DISJOINT


def edges(v):
    return [(v[i - 1], v[i]) for i in range(len(v))]


def area2(v):
    return sum(v[i - 1][0] * v[i][1] - v[i][0] * v[i - 1][1]
               for i in range(len(v)))


def contour_fault(v, ccw=True):
    n = len(v)
    if n < 3:
        return 'fewer than three vertices'
    if len(set(v)) < n:
        return 'repeated vertex'
    for i in range(n):
        if cross(v[i - 2], v[i - 1], v[i]) == 0:
            return 'three consecutive vertices on a line'
    e = edges(v)
    for i in range(n):
        for j in range(i + 1, n):
            r = relation(e[i], e[j])
            adjacent = j == i + 1 or (i == 0 and j == n - 1)
            if r != DISJOINT and not (adjacent and r == TOUCH):
                return 'edges meet outside shared vertices'
    if (area2(v) > 0) != ccw:
        return 'clockwise' if ccw else 'counter-clockwise'
    return None


def side(p, v):
    """1 inside, 0 on the outline, -1 outside the simple polygon ``v``."""
    inside = False
    for s in edges(v):
        if on_segment(p, s):
            return 0
        a, b = s
        if (a[1] > p[1]) != (b[1] > p[1]):
            if (b[1] > a[1]) == (cross(a, b, p) > 0):
                inside = not inside
    return 1 if inside else -1


def clash(first, second):
    for s in first:
        for t in second:
            r = relation(s, t)
            if r in (CROSS, OVERLAP):
                return r
    return None


def pieces(e, others):
    """Midpoints of the parts into which touching points cut edge ``e``."""
    a, b = e
    cuts = {Fraction(0), Fraction(1)}
    for c, d in others:
        for q in (c, d):
            if on_segment(q, e):
                cuts.add(Fraction(q[0] - a[0], b[0] - a[0])
                         if a[0] != b[0]
                         else Fraction(q[1] - a[1], b[1] - a[1]))
    cuts = sorted(cuts)
    for t, u in zip(cuts, cuts[1:]):
        m = (t + u) / 2
        yield (a[0] + m * (b[0] - a[0]), a[1] + m * (b[1] - a[1]))


def inner_point(v):
    ys = sorted({p[1] for p in v})
    y = Fraction(ys[0] + ys[1], 2)
    xs = sorted(a[0] + (y - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
                for a, b in edges(v) if (a[1] > y) != (b[1] > y))
    return ((xs[0] + xs[1]) / 2, y)


def bbox_apart(v, w):
    return (max(p[0] for p in v) < min(p[0] for p in w)
            or max(p[0] for p in w) < min(p[0] for p in v)
            or max(p[1] for p in v) < min(p[1] for p in w)
            or max(p[1] for p in w) < min(p[1] for p in v))


def regions_fault(v, w):
    """Why the interiors of two simple polygons are not disjoint."""
    if bbox_apart(v, w):
        return None
    e, g = edges(v), edges(w)
    r = clash(e, g)
    if r:
        return f'outlines {r}'
    for s in e:
        if any(side(m, w) > 0 for m in pieces(s, g)):
            return 'one reaches into the other'
    for s in g:
        if any(side(m, v) > 0 for m in pieces(s, e)):
            return 'one reaches into the other'
    if side(inner_point(v), w) > 0 or side(inner_point(w), v) > 0:
        return 'one covers the other'
    return None


def containment_fault(hole, border):
    e, g = edges(hole), edges(border)
    r = clash(e, g)
    if r:
        return f'hole and border {r}'
    for s in e:
        if any(side(m, border) < 0 for m in pieces(s, g)):
            return 'hole outside the border'
    for s in g:
        if any(side(m, hole) > 0 for m in pieces(s, e)):
            return 'border runs through the hole'
    return None


def polygon_fault(border, holes):
    r = contour_fault(border)
    if r:
        return f'border: {r}'
    for h in holes:
        r = contour_fault(h, ccw=False)
        if r:
            return f'hole: {r}'
    for h in holes:
        r = containment_fault(h, border)
        if r:
            return r
    for i in range(len(holes)):
        for j in range(i):
            r = regions_fault(holes[i], holes[j])
            if r:
                return f'holes: {r}'
    return None


def turns(v):
    return {cross(v[i - 2], v[i - 1], v[i]) for i in range(len(v))}


def centroid(v):
    a = area2(v)
    cx = sum((v[i - 1][0] + v[i][0])
             * (v[i - 1][0] * v[i][1] - v[i][0] * v[i - 1][1])
             for i in range(len(v)))
    cy = sum((v[i - 1][1] + v[i][1])
             * (v[i - 1][0] * v[i][1] - v[i][0] * v[i - 1][1])
             for i in range(len(v)))
    return Fraction(cx, 3 * a), Fraction(cy, 3 * a)


def star_fault(v):
    c = centroid(v)
    if side(c, v) < 0:
        return 'centroid outside'
    e = edges(v)
    for p in v:
        if p == c:
            continue
        for s in e:
            if relation((c, p), s) in (CROSS, OVERLAP):
                return 'vertex hidden from the centroid'
    return None


def bound_fault(count, low, high, what):
    if count < (low or 0):
        return f'{what}: {count} below minimum {low}'
    if high is not None and count > high:
        return f'{what}: {count} above maximum {high}'
    return None


def first(faults):
    for f in faults:
        if f:
            return f
    return None


# --- structure helpers ----------------------------------------------------

CONTOURS = ('contours', 'convex_contours', 'concave_contours',
            'star_contours', 'triangular_contours', 'rectangular_contours')


class Shape:
    """Canon of a delivered value split into its parts (scaled integers)."""

    def __init__(self, kind, node):
        self.kind, self.node = kind, node
        pt = self.pt = scaler(node)
        self.contours, self.polygons, self.segments, self.points = [], [], [], []
        self.box = None
        self.kind_fault = None
        k = node[0]

        def seg(s):
            return pt(s[1]), pt(s[2])

        def outline(c):
            return [pt(p) for p in c[1]]

        def poly(p):
            return outline(p[1]), [outline(h) for h in p[2]]

        want = {'points': 'point', 'multipoints': 'multipoint',
                'segments': 'segment', 'multisegments': 'multisegment',
                'boxes': 'box', 'multicontours': 'sequence',
                'polygons': 'polygon', 'multipolygons': 'multipolygon',
                'mixes': 'mix', 'empty_geometries': 'empty'}
        expected = want.get(kind, 'contour')
        if k != expected:
            self.kind_fault = f'{k} delivered instead of {expected}'
            return
        if k == 'point':
            self.points = [pt(node)]
        elif k == 'multipoint':
            self.points = [pt(p) for p in node[1]]
        elif k == 'segment':
            self.segments = [seg(node)]
        elif k == 'multisegment':
            self.segments = [seg(s) for s in node[1]]
        elif k == 'contour':
            self.contours = [outline(node)]
        elif k == 'sequence':
            if any(c[0] != 'contour' for c in node[1]):
                self.kind_fault = 'multicontour holds something else'
                return
            self.contours = [outline(c) for c in node[1]]
        elif k == 'polygon':
            self.polygons = [poly(node)]
        elif k == 'multipolygon':
            self.polygons = [poly(p) for p in node[1]]
        elif k == 'box':
            self.box = tuple(parse(c) for c in node[1:])
        elif k == 'mix':
            d, l, s = node[1:]
            if (d[0] not in ('empty', 'multipoint')
                    or l[0] not in ('empty', 'segment', 'multisegment')
                    or s[0] not in ('empty', 'polygon', 'multipolygon')):
                self.kind_fault = 'component of a wrong kind'
                return
            if d[0] == 'multipoint':
                self.points = [pt(p) for p in d[1]]
            if l[0] == 'segment':
                self.segments = [seg(l)]
            elif l[0] == 'multisegment':
                self.segments = [seg(x) for x in l[1]]
            if s[0] == 'polygon':
                self.polygons = [poly(s)]
            elif s[0] == 'multipolygon':
                self.polygons = [poly(x) for x in s[1]]
            self.nonempty = sum(c[0] != 'empty' for c in (d, l, s))


def point_set_fault(points):
    return 'repeated point' if len(set(points)) < len(points) else None


def segment_set_fault(segments):
    for a, b in segments:
        if a == b:
            return 'degenerate segment'
    for i in range(len(segments)):
        for j in range(i):
            r = relation(segments[i], segments[j])
            if r in (CROSS, OVERLAP):
                return f'segments {r}'
    return None


def polygon_set_fault(polygons):
    for b, hs in polygons:
        r = polygon_fault(b, hs)
        if r:
            return r
    for i in range(len(polygons)):
        for j in range(i):
            r = regions_fault(polygons[i][0], polygons[j][0])
            if r:
                return f'polygons: {r}'
    return None


def mix_fault(sh):
    if sh.nonempty < 2:
        return 'fewer than two non-empty components'
    r = (point_set_fault(sh.points) or segment_set_fault(sh.segments)
         or polygon_set_fault(sh.polygons))
    if r:
        return r
    for s in sh.segments:
        for p in sh.points:
            if on_segment(p, s):
                return 'point on a segment'
        for b, _ in sh.polygons:
            e = edges(b)
            r = clash([s], e)
            if r:
                return f'segment and border {r}'
            if any(side(m, b) > 0 for m in pieces(s, e)):
                return 'segment runs through a polygon'
    for p in sh.points:
        for b, _ in sh.polygons:
            if side(p, b) >= 0:
                return 'point in or on a polygon'
    return None


# --- one oracle per property ----------------------------------------------

def o_contour(kind, kw, sh):
    return first(contour_fault(v) for v in sh.contours)


def o_class(kind, kw, sh):
    v = sh.contours[0]
    if kind == 'convex_contours':
        return None if turns(v) == {1} else 'not convex'
    if kind == 'concave_contours':
        return None if -1 in turns(v) else 'convex'
    if kind == 'star_contours':
        return (None if len(v) >= 3 and area2(v) else 'degenerate') or star_fault(v)
    if kind == 'triangular_contours':
        return None if len(v) == 3 else 'not a triangle'
    if kind == 'rectangular_contours':
        xs, ys = sorted({p[0] for p in v}), sorted({p[1] for p in v})
        if len(v) != 4 or len(set(v)) != 4 or len(xs) != 2 or len(ys) != 2:
            return 'not a rectangle'
        return None if turns(v) == {1} else 'corners not counter-clockwise'
    return None


def o_polygon(kind, kw, sh):
    return first(polygon_fault(b, hs) for b, hs in sh.polygons)


def o_multicontour(kind, kw, sh):
    r = first(contour_fault(v) for v in sh.contours)
    if r:
        return r
    for i in range(len(sh.contours)):
        for j in range(i):
            r = regions_fault(sh.contours[i], sh.contours[j])
            if r:
                return f'contours: {r}'
    return None


def o_multipolygon(kind, kw, sh):
    return polygon_set_fault(sh.polygons)


def o_mix(kind, kw, sh):
    return mix_fault(sh)


def o_simple(kind, kw, sh):
    if sh.box is not None:
        x0, x1, y0, y1 = sh.box
        return None if x0 < x1 and y0 < y1 else 'degenerate box'
    if kind == 'multipoints':
        return point_set_fault(sh.points)
    return segment_set_fault(sh.segments)


GEOMETRIC_MINIMA = {'min_contour_size': 3, 'min_border_size': 3,
                    'min_hole_size': 3, 'min_polygon_border_size': 3,
                    'min_polygon_hole_size': 3}


def o_size(kind, kw, sh):
    g = kw.get

    def b(count, name, floor=0):
        low = g(f'min_{name}')
        low = floor if low is None else max(low, floor)
        return bound_fault(count, low, g(f'max_{name}'), name)

    floor = {'contours': 3, 'convex_contours': 3, 'star_contours': 3,
             'concave_contours': 4, 'polygons': 3, 'multipoints': 1,
             'multisegments': 2, 'multicontours': 2, 'multipolygons': 2}
    out = []
    if kind in ('contours', 'convex_contours', 'concave_contours',
                'star_contours'):
        out.append(b(len(sh.contours[0]), 'size', floor[kind]))
    elif kind == 'triangular_contours':
        out.append(bound_fault(len(sh.contours[0]), 3, 3, 'size'))
    elif kind == 'rectangular_contours':
        out.append(bound_fault(len(sh.contours[0]), 4, 4, 'size'))
    elif kind == 'multipoints':
        out.append(b(len(sh.points), 'size', 1))
    elif kind == 'multisegments':
        out.append(b(len(sh.segments), 'size', 2))
    elif kind == 'multicontours':
        out.append(b(len(sh.contours), 'size', 2))
        out += [b(len(c), 'contour_size', 3) for c in sh.contours]
    elif kind == 'polygons':
        (bd, hs), = sh.polygons
        out.append(b(len(bd), 'size', 3))
        out.append(b(len(hs), 'holes_size'))
        out += [b(len(h), 'hole_size', 3) for h in hs]
    elif kind == 'multipolygons':
        out.append(b(len(sh.polygons), 'size', 2))
        for bd, hs in sh.polygons:
            out.append(b(len(bd), 'border_size', 3))
            out.append(b(len(hs), 'holes_size'))
            out += [b(len(h), 'hole_size', 3) for h in hs]
    elif kind == 'mixes':
        out.append(b(len(sh.points), 'points_size'))
        out.append(b(len(sh.segments), 'segments_size'))
        out.append(b(len(sh.polygons), 'polygons_size'))
        for bd, hs in sh.polygons:
            out.append(b(len(bd), 'polygon_border_size', 3))
            out.append(b(len(hs), 'polygon_holes_size'))
            out += [b(len(h), 'polygon_hole_size', 3) for h in hs]
    return first(out)


# kinds whose vertices may be synthesised (see property C08)
SYNTH = ('contours', 'convex_contours', 'multisegments')


def coordinate_fault(kind, node, xs, ys):
    """Check a canon against the coordinate texts yielded to this draw."""
    def values(texts):
        return [parse(t) for t in texts]

    def check(points, synth):
        ax, ay = set(xs), set(ys)
        tx, ty = {t[0] for t in ax}, {t[0] for t in ay}
        if synth:
            vx, vy = values(ax), values(ay)
        for x, y in points:
            for c, allowed, tags, vals, name in (
                    (x, ax, tx, synth and vx, 'abscissa'),
                    (y, ay, ty, synth and vy, 'ordinate')):
                if c in allowed:
                    continue
                if not synth:
                    return f'{name} {c} was not yielded'
                if c[0] not in tags:
                    return f'{name} {c} has a foreign type'
                v = parse(c)
                if v is None or not vals or not min(vals) <= v <= max(vals):
                    return f'{name} {c} outside the yielded range'
        return None

    if kind == 'mixes':
        return (check(points_of([node[1], node[3]]), False)
                or check(points_of(node[2]), True))
    return check(points_of(node), kind in SYNTH)


DIGESTS = {
    'C09': (o_contour, CONTOURS),
    'C10': (o_class, CONTOURS[1:]),
    'C11': (o_polygon, ('polygons',)),
    'C12': (o_multicontour, ('multicontours',)),
    'C13': (o_multipolygon, ('multipolygons',)),
    'C14': (o_mix, ('mixes',)),
    'C15': (o_simple, ('segments', 'boxes', 'multipoints', 'multisegments')),
    'C07': (o_size, ('multipoints', 'multisegments', 'contours',
                     'convex_contours', 'concave_contours', 'star_contours',
                     'triangular_contours', 'rectangular_contours',
                     'multicontours', 'polygons', 'multipolygons', 'mixes')),
}


def verdict(prop, kind, kw, node):
    """Fault of a delivered canon with respect to one property, or None."""
    oracle, kinds = DIGESTS[prop]
    if kind not in kinds:
        return None
    sh = Shape(kind, node)
    if sh.kind_fault:
        return sh.kind_fault
    return oracle(kind, kw, sh)
