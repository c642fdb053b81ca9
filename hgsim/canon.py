"""Canonical, context-free description of delivered objects.

A geometry becomes nested JSON lists; coordinates become tagged strings, so
two canons are equal exactly when the delivered objects agree in kind, in
every coordinate (value and numeric type) and in the order of every part.
"""
from fractions import Fraction


def coord(value):
    cls = type(value)
    if cls is Fraction:
        return f'F{value.numerator}/{value.denominator}'
    if cls is float:
        return 'f' + value.hex()
    if cls is int:
        return f'i{value}'
    return f'R{cls.__module__}.{cls.__qualname__}:{value!r}'


def parse(text):
    """Exact value of a coordinate (None when it has none)."""
    tag, body = text[0], text[1:]
    if tag == 'F':
        num, den = body.split('/')
        return Fraction(int(num), int(den))
    if tag == 'i':
        return Fraction(int(body))
    if tag == 'f':
        try:
            return Fraction(float.fromhex(body))
        except (OverflowError, ValueError):
            return None
    return None


def canon(value, ctx):
    if isinstance(value, ctx.point_cls):
        return ['point', coord(value.x), coord(value.y)]
    if isinstance(value, ctx.empty_cls):
        return ['empty']
    if isinstance(value, ctx.segment_cls):
        return ['segment', canon(value.start, ctx), canon(value.end, ctx)]
    if isinstance(value, ctx.contour_cls):
        return ['contour', [canon(p, ctx) for p in value.vertices]]
    if isinstance(value, ctx.box_cls):
        return ['box', coord(value.min_x), coord(value.max_x),
                coord(value.min_y), coord(value.max_y)]
    if isinstance(value, ctx.multipoint_cls):
        return ['multipoint', [canon(p, ctx) for p in value.points]]
    if isinstance(value, ctx.multisegment_cls):
        return ['multisegment', [canon(s, ctx) for s in value.segments]]
    if isinstance(value, ctx.polygon_cls):
        return ['polygon', canon(value.border, ctx),
                [canon(h, ctx) for h in value.holes]]
    if isinstance(value, ctx.multipolygon_cls):
        return ['multipolygon', [canon(p, ctx) for p in value.polygons]]
    if isinstance(value, ctx.mix_cls):
        return ['mix', canon(value.discrete, ctx), canon(value.linear, ctx),
                canon(value.shaped, ctx)]
    if isinstance(value, (list, tuple)):
        return ['sequence', [canon(v, ctx) for v in value]]
    cls = type(value)
    return ['foreign', f'{cls.__module__}.{cls.__qualname__}', repr(value)]


def mutable_parts(value, ctx):
    """Every list reachable through the public attributes of a geometry."""
    out = []

    def visit(v):
        if isinstance(v, list):
            out.append(v)
        if isinstance(v, (list, tuple)):
            for w in v:
                visit(w)
        elif isinstance(v, ctx.contour_cls):
            visit(v.vertices)
        elif isinstance(v, ctx.polygon_cls):
            visit(v.border)
            visit(v.holes)
        elif isinstance(v, ctx.multipoint_cls):
            visit(v.points)
        elif isinstance(v, ctx.multisegment_cls):
            visit(v.segments)
        elif isinstance(v, ctx.multipolygon_cls):
            visit(v.polygons)
        elif isinstance(v, ctx.mix_cls):
            visit(v.discrete)
            visit(v.linear)
            visit(v.shaped)

    visit(value)
    return out


PARTS = ('start', 'end', 'vertices', 'points', 'segments', 'polygons',
         'border', 'holes', 'discrete', 'linear', 'shaped')


def classes(value):
    """Classes of a geometry and of everything geometric inside it."""
    if isinstance(value, (list, tuple)):
        for v in value:
            yield from classes(v)
        return
    yield type(value)
    for name in PARTS:
        part = getattr(value, name, None)
        if part is not None:
            yield from classes(part)


def points_of(node):
    """(x, y) coordinate texts of every point of a canon."""
    if not isinstance(node, list):
        return
    if node and node[0] == 'point':
        yield node[1], node[2]
    elif node and node[0] == 'box':
        yield node[1], node[3]
        yield node[2], node[4]
    else:
        for sub in node:
            yield from points_of(sub)
