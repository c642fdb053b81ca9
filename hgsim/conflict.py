"""Lines of the library at which threads may meet: those that touch variables
living longer than a call.

Only steers the scheduler towards places worth preempting; what is a violation
is decided from the delivered values alone.
"""
import dis
import enum
import sys
import types
from fractions import Fraction

_LINES = {}
HARMLESS = (type, types.FunctionType, types.BuiltinFunctionType,
            types.MethodType, types.ModuleType, str, bytes, int, float,
            Fraction, tuple, frozenset, type(None), enum.Enum)
WRITES = {'STORE_GLOBAL', 'DELETE_GLOBAL'}
READS = {'LOAD_GLOBAL', 'LOAD_NAME'}
ATTRIBUTES = {'LOAD_ATTR', 'STORE_ATTR', 'LOAD_METHOD'}
CELLS = {'LOAD_DEREF', 'STORE_DEREF', 'LOAD_CLASSDEREF'}


def by_line(code):
    out = _LINES.get(code)
    if out is None:
        out = _LINES[code] = {}
        line = code.co_firstlineno
        for i in dis.get_instructions(code):
            if i.positions is not None and i.positions.lineno is not None:
                line = i.positions.lineno
            if i.opname in WRITES or i.opname in READS or i.opname in CELLS \
                    or i.opname in ATTRIBUTES:
                out.setdefault(line, []).append((i.opname, i.argval))
    return out


def long_lived(value):
    if isinstance(value, HARMLESS) or callable(value):
        return bool(getattr(value, '__dict__', None)) \
            and isinstance(value, types.FunctionType)
    name = type(value).__module__
    if isinstance(value, (classmethod, staticmethod, property)):
        return False
    return not name.startswith(('hypothesis.', 'typing', 'ground.'))


def prepare(package):
    """Disassembles the library ahead of time."""
    def walk(code):
        by_line(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    for name, module in sorted(sys.modules.items()):
        if name != package and not name.startswith(package + '.'):
            continue
        members = [vars(module).values()] + [
            vars(c).values() for c in vars(module).values()
            if isinstance(c, type) and c.__module__ == name]
        for value in [v for m in members for v in m]:
            value = getattr(value, '__func__', value)
            value = getattr(value, 'fget', value)
            code = getattr(value, '__code__', None)
            if code is not None and value.__module__ == name:
                walk(code)


def frame_of(code):
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f


def touches_shared(code, line):
    """Whether the line touches a variable that outlives the call."""
    names = by_line(code).get(line)
    if not names:
        return False
    frame = frame_of(code)
    if frame is None:
        return False
    attributes = {n for op, n in names if op in ATTRIBUTES}
    for op, name in names:
        if op in WRITES:
            return True
        if op in READS:
            value = frame.f_globals.get(name, len)
            if long_lived(value):
                return True
            if isinstance(value, type) and any(
                    long_lived(vars(value).get(n, len)) for n in attributes):
                return True
        elif op in CELLS and name in code.co_freevars:
            if op == 'STORE_DEREF':
                return True
            try:
                value = frame.f_locals.get(name, len)
            except ValueError:
                continue
            if long_lived(value):
                return True
    return False
