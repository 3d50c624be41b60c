"""Abstract floating point values.

A value is a Python float (a constant), FT (anything), or an FR:
  FR(neg, i, phi)            exactly +-(i + phi): i an integer term >= 0, phi None or a fraction 0 < phi < 1
  FR(False, 0, phi, mul, add) the rounded value of phi * mul + add (constants mul, add)
A fraction is (id, lo, hi). Rounding is monotone, so the interval of a scaled fraction is the rounded
image of the bounds. Conversions to integer are functions of the value: the same value gives the same term.
Everything else (including a test whose outcome is not decided) is an arbitrary value.
"""
import math
from lin import Lin, add as ladd, sub as lsub
from absint import FTop, FT, Viol

PMIN = 2.0 ** -1022
PMAX = 1.0 - 2.0 ** -53


class FR(FTop):
    __slots__ = ('neg', 'i', 'phi', 'mul', 'add')

    def __init__(s, neg, i, phi=None, mul=1.0, add=0.0):
        s.neg, s.i, s.phi, s.mul, s.add = neg, i, phi, mul, add

    def __repr__(s):
        return 'FR%r' % ((s.neg, s.i, s.phi, s.mul, s.add),)

    exact = property(lambda s: s.mul == 1.0 and s.add == 0.0)
    key = property(lambda s: (s.neg, s.i, s.phi, s.mul, s.add))


def lift(v):
    """a constant that is a non-negative integer, as FR"""
    if type(v) is float and math.isfinite(v) and v >= 0 and v == int(v):
        return FR(False, int(v))
    return v


def scaled(x):
    return type(x) is FR and not x.neg and type(x.i) is int and x.i == 0 and x.phi is not None


def arith(S, op, a, b):
    if type(a) is float and type(b) is float:
        try:
            return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
        except Exception:
            return FT
    x, y = lift(a), lift(b)
    if op == 'fsub' and type(x) is FR and type(y) is FR and x.exact and y.exact and not x.neg and not y.neg and y.phi is None:
        d = lsub(x.i, y.i)
        if type(d) is Lin:
            d = S.st.norm(d)
        if type(d) is int and d == 0:
            return FR(False, 0, x.phi) if x.phi is not None else 0.0
    if op in ('fmul', 'fadd'):
        if type(a) is float:
            a, b = b, a
        if type(b) is float and math.isfinite(b) and b >= 0 and scaled(a):
            if op == 'fmul' and a.exact and b >= 1:
                return FR(False, 0, a.phi, b, 0.0)
            if op == 'fadd' and a.add == 0.0:
                return FR(False, 0, a.phi, a.mul, b)
    if op == 'fsub' and type(b) is float and b <= 0:
        return arith(S, 'fadd', a, -b)
    return FT


def interval(S, x):
    """(lo, hi) floats, or None"""
    if type(x) is float:
        return None if math.isnan(x) else (x, x)
    if type(x) is not FR:
        return None
    if x.exact:
        lo, hi = S.st.rng(S.st.norm(x.i) if type(x.i) is Lin else x.i)
        if lo is None or hi is None:
            return None
        l, h = float(lo) + (x.phi[1] if x.phi else 0), float(hi) + (x.phi[2] if x.phi else 0)
        return (-h, -l) if x.neg else (l, h)
    return (x.phi[1] * x.mul + x.add, x.phi[2] * x.mul + x.add)


def cmp(E, S, pr, a, b):
    if type(a) is float and type(b) is float:
        nan = math.isnan(a) or math.isnan(b)
        if pr == 'ord':
            return not nan
        if pr == 'uno':
            return nan
        if nan:
            return pr[0] == 'u'
        return {'eq': a == b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b, 'ne': a != b}[pr[1:]]
    for x, y in ((a, b), (b, a)):
        if type(x) is float and math.isnan(x):
            return pr[0] == 'u'
    if FT is a or FT is b:
        return ('ne', E.fresh('fcmp', 0, 1))
    if pr in ('ord', 'uno'):
        return pr == 'ord'
    p = pr[1:]
    ia, ib = interval(S, a), interval(S, b)
    if ia and ib:
        if p in ('lt', 'ge') and (ia[1] < ib[0] or ia[0] >= ib[1]):
            return (ia[1] < ib[0]) == (p == 'lt')
        if p in ('gt', 'le') and (ia[0] > ib[1] or ia[1] <= ib[0]):
            return (ia[0] > ib[1]) == (p == 'gt')
        if p in ('eq', 'ne') and (ia[1] < ib[0] or ia[0] > ib[1]):
            return p == 'ne'
    x, y = lift(a), lift(b)
    if type(x) is FR and type(y) is FR and x.key == y.key:
        return p in ('eq', 'le', 'ge')
    if type(x) is FR and type(y) is FR and x.exact and y.exact and not x.neg and not y.neg:
        if p in ('gt', 'ge'):
            return cmp(E, S, 'o' + {'gt': 'lt', 'ge': 'le'}[p], b, a)
        d = lsub(y.i, x.i)
        fx, fy = x.phi is not None, y.phi is not None
        if x.phi == y.phi:
            return {'eq': ('eq', d), 'ne': ('ne', d), 'lt': ('ge', ladd(d, -1)), 'le': ('ge', d)}[p]
        if p in ('eq', 'ne') and fx != fy:
            return p == 'ne'
        if fx and not fy:
            return ('ge', ladd(d, -1))
        if fy and not fx:
            return ('ge', d)
    return ('ne', E.fresh('fcmp', 0, 1))


def neg(a):
    if type(a) is float:
        return -a
    if type(a) is FR and a.exact:
        return FR(not a.neg, a.i, a.phi)
    return FT


def absv(a):
    if type(a) is float:
        return abs(a)
    if type(a) is FR:
        return FR(False, a.i, a.phi, a.mul, a.add)
    return FT


def toint(E, S, x, w, signed, what='conversion of a float to an integer'):
    """value rounded towards zero"""
    top = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    bot = -(1 << (w - 1)) if signed else 0
    if type(x) is float:
        if not math.isfinite(x) or not bot <= int(x) <= top:
            raise Viol('float', what + ': the value does not fit')
        return int(x)
    if type(x) is FR:
        if x.exact:
            v = S.st.norm(x.i) if type(x.i) is Lin else x.i
            if x.neg:
                v = lsub(0, v)
            lo, hi = S.st.rng(v)
            if lo is None or hi is None or lo < bot or hi > top:
                raise Viol('float', what + ': the value may not fit')
            return v
        lo, hi = interval(S, x)
        lo, hi = math.floor(lo), math.floor(hi)
        if hi > top:
            raise Viol('float', what + ': the value may not fit')
        return fpi(E, x, lo, hi)
    return E.fresh('fpi', bot, top)


def fpi(E, x, lo, hi):
    k = ('fpi', x.phi[0], x.mul, x.add)
    v = E.memo.get(k)
    if v is None:
        v = E.memo[k] = lo if lo == hi else E.fresh('fpi', lo, hi)
    return v


def narrow(v, ty):
    """a value computed with the precision of a double, in the type ty"""
    if ty.k == 'float':
        if type(v) is float:
            import struct
            try:
                return struct.unpack('<f', struct.pack('<f', v))[0]
            except OverflowError:
                return math.copysign(math.inf, v)
        return FT
    return v


def fromint(E, S, v, digits=53):
    v = E.toint(S, v)
    if type(v) is Lin:
        v = S.st.norm(v)
    if type(v) is int:
        return float(v) if digits == 53 or abs(v) <= 1 << digits else FT
    lo, hi = S.st.rng(v)
    if lo is not None and lo >= 0 and (hi is not None and hi <= 1 << digits or digits == 53 and ('whole', v) in E.memo):
        return FR(False, v)
    return FT


def round_(E, S, x, how):
    if type(x) is float:
        if not math.isfinite(x):
            return x
        if how == 'round':
            return math.copysign(float(math.floor(abs(x) + 0.5)), x)
        return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[how](x))
    if type(x) is FR and not x.neg:
        if x.exact:
            if x.phi is None:
                return x
            if how in ('floor', 'trunc'):
                return FR(False, x.i)
            if how == 'ceil':
                return FR(False, ladd(x.i, 1))
            return FT
        if how == 'round':
            if x.add != 0.0:
                return FT
            x = FR(False, 0, x.phi, x.mul, 0.5)
        elif how == 'ceil':
            return FT
        lo, hi = interval(S, x)
        v = fpi(E, x, math.floor(lo), math.floor(hi))
        E.memo[('whole', v)] = True
        return FR(False, v) if type(v) is not int else float(v)
    return FT


def classify(E, S, x, mask):
    """llvm.is.fpclass"""
    if type(x) is float:
        if math.isnan(x):
            return bool(mask & 3)
        b = (0x200 if math.isinf(x) else 0x40 if x == 0 else 0x100 if abs(x) >= PMIN else 0x80)
        if math.copysign(1.0, x) < 0:
            b = {0x200: 4, 0x40: 0x20, 0x100: 8, 0x80: 0x10}[b]
        return bool(mask & b)
    if type(x) is FR and x.exact:
        n, z = bool(mask & (8 if x.neg else 0x100)), bool(mask & (0x20 if x.neg else 0x40))
        if x.phi is not None or n == z:
            return n
        c = ('ge', ladd(x.i, -1)) if n else ('eq', x.i)
        return c if type(x.i) is Lin else (x.i >= 1) == n
    return ('ne', E.fresh('fpclass', 0, 1))


def bits(x):
    """bits of a constant"""
    import struct
    return struct.unpack('<Q', struct.pack('<d', x))[0]
