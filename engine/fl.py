"""Floating-point operations on concrete doubles and float terms.

Real mode: a term denotes an exact real number; +,-,*,/ and sqrt are exact, a
concrete operation whose exact result is not a double yields the exact rational
constant.  exp, cos, ... are uninterpreted functions.  Concrete infinities and
NaN follow IEEE.  FP mode: terms denote IEEE doubles, bit precise.
"""
from fractions import Fraction
import math
import struct
import terms
from terms import T, FT, BvT, BoolT, mk, b_not, b_and, b_or, order, Unsupported

MODE = ['real']
PATH = [None]  # current path (decide / concretise)

INF = float('inf')
NAN = float('nan')


def isfp():
    return MODE[0] == 'fp'


def q(fr):
    """canonical constant for an exact rational"""
    try:
        d = float(fr)
    except OverflowError:
        return mk('q', 'F', fr)
    if d in (INF, -INF):
        return mk('q', 'F', fr)
    if Fraction(d) == fr:
        return d
    return mk('q', 'F', fr)


def const(x):
    """Fraction value of a finite constant, else None"""
    if type(x) is float:
        if x != x or x in (INF, -INF):
            return None
        return Fraction(x)
    if x.op == 'q':
        return x.a[0]
    return None


def special(x):
    return type(x) is float and (x != x or x in (INF, -INF))


_snap = {}


def snap(d):
    """The real number a double literal stands for (real mode)."""
    r = _snap.get(d)
    if r is None:
        r = _snap[d] = _dosnap(d)
    return r


def _dosnap(d):
    if d != d or d in (INF, -INF) or d == 0:
        return d
    f = Fraction(d)
    a = abs(d)
    if f.denominator <= 1 << 20 and a < 1 << 40:
        return d
    s = repr(a).lower()
    m = s.split('e')[0].replace('.', '').strip('0')
    if len(m) <= 12 and 1e-30 < a < 1e30:
        return q(Fraction(repr(d)))
    if 1e-6 < a < 1e6:
        g = f.limit_denominator(1000)
        if g != 0 and float(g) == d:
            return q(g)
        sq = Fraction(a) * Fraction(a)
        g = sq.limit_denominator(64)
        if g != 0 and g.numerator < 4096 and math.sqrt(g) == a:
            # square root of a small rational
            n, e = g.numerator * g.denominator, g.denominator
            r = mk('sqrt', 'F', float(n))
            r = fmul(r, q(Fraction(1, e))) if e != 1 else r
            return fneg(r) if d < 0 else r
    return d


def decide(b):
    if b is True or b is False:
        return b
    return PATH[0].decide(b)


def fadd(a, b):
    if type(a) is float and type(b) is float:
        if isfp() or special(a) or special(b):
            return a + b
        r = a + b
        e = Fraction(a) + Fraction(b)
        if not special(r) and Fraction(r) == e:
            return r
        return q(e)
    if a is UND or b is UND:
        return UND
    if isfp():
        a, b = ford(a, b)
        if type(b) is float and b == 0 and (math.copysign(1, b) < 0 or plus0(a)):
            return a
        return mk('fadd', 'F', a, b)
    if special(a):
        return a
    if special(b):
        return b
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return q(ca + cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    return mk('fadd', 'F', *ford(a, b))


def plus0(t):
    """x + 0.0: never a negative zero"""
    return type(t) is not float and t.op == 'fadd' and type(t.a[1]) is float and t.a[1] == 0


def bare(t):
    """what compares like t: adding zero matters for the sign of zero only"""
    while plus0(t):
        t = t.a[0]
    return t


def ford(a, b):
    """order commutative float operands: constants last"""
    if type(a) is float:
        return (b, a)
    if type(b) is float:
        return (a, b)
    return order(a, b)


def fneg(a):
    if type(a) is float:
        return -a
    if a is UND:
        return UND
    if isfp():
        return a.a[0] if a.op == 'fneg' else mk('fneg', 'F', a)
    if a.op == 'q':
        return q(-a.a[0])
    if a.op == 'fneg':
        return a.a[0]
    return mk('fneg', 'F', a)


def fsub(a, b):
    if a is UND or b is UND:
        return UND
    if isfp():
        if type(a) is float and type(b) is float:
            return a - b
        return mk('fsub', 'F', a, b)
    if not isinstance(b, float) and a is b:
        return 0.0
    return fadd(a, fneg(b))


def fmul(a, b):
    if a is UND or b is UND:
        return UND
    if type(a) is float and type(b) is float:
        if isfp() or special(a) or special(b):
            return a * b
        e = Fraction(a) * Fraction(b)
        return q(e)
    if isfp():
        if type(a) is float and a == 1.0:
            return b
        if type(b) is float and b == 1.0:
            return a
        return mk('fmul', 'F', *ford(a, b))
    for x, y in ((a, b), (b, a)):
        if special(x):
            if x != x:
                return NAN
            if decide(feq(y, 0.0)):
                return NAN
            return x if decide(flt(0.0, y)) else -x
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return q(ca * cb)
    if ca == 0 or cb == 0:
        return 0.0
    if ca == 1:
        return b
    if cb == 1:
        return a
    if ca == -1:
        return fneg(b)
    if cb == -1:
        return fneg(a)
    return mk('fmul', 'F', *ford(a, b))


def pydiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or a != a:
            return NAN
        neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
        return -INF if neg else INF


def fdiv(a, b):
    if a is UND or b is UND:
        return UND
    if type(a) is float and type(b) is float:
        if isfp() or special(a) or special(b) or b == 0:
            return pydiv(a, b)
        return q(Fraction(a) / Fraction(b))
    if isfp():
        if type(b) is float and abs(math.frexp(b)[0]) == 0.5 and 1e-300 < abs(b) < 1e300:
            return fmul(a, 1.0 / b)          # exact
        return mk('fdiv', 'F', a, b)
    if special(a):
        if a != a:
            return NAN
        return a if decide(fle(0.0, b)) else -a
    if special(b):
        return NAN if b != b else 0.0
    ca, cb = const(a), const(b)
    if cb is not None:
        if cb == 0:
            if decide(feq(a, 0.0)):
                return NAN
            return INF if decide(flt(0.0, a)) else -INF
        if ca is not None:
            return q(ca / cb)
        return fmul(a, q(1 / cb))
    if decide(feq(b, 0.0)):
        if ca is not None:
            return NAN if ca == 0 else (INF if ca > 0 else -INF)
        if decide(feq(a, 0.0)):
            return NAN
        return INF if decide(flt(0.0, a)) else -INF
    if ca == 0:
        return 0.0
    return mk('fdiv', 'F', a, b)


def pyfmod(a, b):
    try:
        return math.fmod(a, b)
    except (ValueError, OverflowError):
        return NAN


def frem(a, b):
    if type(a) is float and type(b) is float:
        return pyfmod(a, b)
    if isfp():
        raise Unsupported('frem in fp mode')
    t = ftrunc(fdiv(a, b))
    return fsub(a, fmul(b, t))


def fabs(a):
    if type(a) is float:
        return abs(a)
    if a is UND:
        return UND
    if not isfp():
        if a.op == 'q':
            return q(abs(a.a[0]))
        if a.op == 'fneg':
            return fabs(a.a[0])
        if a.op in ('sqrt', 'fabs', 'exp'):
            return a
    return mk('fabs', 'F', a)


def isqrt_frac(f):
    n, d = f.numerator, f.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def fsqrt(a):
    if a is UND:
        return UND
    if isfp():
        if type(a) is float:
            return math.sqrt(a) if a >= 0 else NAN if a != 0 else a
        return mk('sqrt', 'F', a)
    if special(a):
        return a if a == INF else NAN
    c = const(a)
    if c is not None:
        if c < 0:
            return NAN
        r = isqrt_frac(c)
        if r is not None:
            return q(r)
        if c.denominator != 1:
            # sqrt(n/d) = sqrt(n*d)/d, so that equal values are equal terms
            return fmul(mk('sqrt', 'F', q(Fraction(c.numerator * c.denominator))), q(Fraction(1, c.denominator)))
        return mk('sqrt', 'F', a)
    if decide(flt(a, 0.0)):
        return NAN
    return mk('sqrt', 'F', a)


def fpowi(a, n):
    """a ** n for a concrete signed 32-bit n"""
    if type(n) is not int:
        n = PATH[0].concretise(n)
    n &= 0xffffffff
    if n >> 31:
        n -= 1 << 32
    if a is UND:
        return UND
    if n == 0:
        return 1.0
    if abs(n) > 300 and not type(a) is float:
        raise Unsupported('powi exponent %d' % n)
    if type(a) is float and (isfp() or special(a)):
        try:
            return a ** n
        except (OverflowError, ZeroDivisionError):
            return INF
    r = a
    for _ in range(abs(n) - 1):
        r = fmul(r, a)
    return fdiv(1.0, r) if n < 0 else r


F32 = [False]      # single precision occurred


def to32(d):
    try:
        return struct.unpack('<f', struct.pack('<f', d))[0]
    except OverflowError:
        return math.copysign(INF, d)


def rnd32(a):
    """round to single precision"""
    if a is UND:
        return UND
    F32[0] = True
    if special(a):
        return a
    if isfp():
        return to32(a) if type(a) is float else mk('rnd32', 'F', a)
    c = const(a)
    if c is not None:
        try:
            return to32(float(c))
        except OverflowError:
            return INF if c > 0 else -INF
    if a.op in ('rnd32', 'fneg') and (a.op == 'rnd32' or isinstance(a.a[0], T) and a.a[0].op == 'rnd32'):
        return a
    return mk('rnd32', 'F', a)


def b2f32(v):
    if v is UND:
        return UND
    if type(v) is int:
        return struct.unpack('<f', struct.pack('<I', v))[0]
    if isinstance(v, BvT) and v.op == 'f2b32':
        return v.a[0]
    raise Unsupported('bit pattern reinterpreted as a float')


def f2b32(x):
    if type(x) is float:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    if x is UND:
        return UND
    return mk('f2b32', 32, x)


def fma(a, b, c):
    if isfp() and not (type(c) is float and c == 0):
        raise Unsupported('fma in fp mode')
    return fadd(fmul(a, b), c)


# ------------------------------------------------------------- comparisons
def feq(a, b):
    if type(a) is float and type(b) is float:
        return a == b
    if isfp():
        return mk('feq', 'B', *ford(bare(a), bare(b)))
    if special(a) or special(b):
        return False
    if a is b:
        return True
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return ca == cb
    if type(a) is not float and cb == 0:
        if a.op in ('sqrt', 'fneg', 'fabs'):
            return feq(a.a[0], 0.0)
        if square(a):
            return feq(a.a[0], 0.0)
    return mk('feq', 'B', *ford(a, b))


def flt(a, b):
    if type(a) is float and type(b) is float:
        return a < b
    if isfp():
        return mk('flt', 'B', bare(a), bare(b))
    if special(a):
        return a == -INF
    if special(b):
        return b == INF
    if a is b:
        return False
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return ca < cb
    if ca == 0 and square(b):
        return b_not(feq(b.a[0], 0.0))
    if cb == 0 and square(a):
        return False
    return mk('flt', 'B', a, b)


def square(t):
    return t.op == 'fabs' or t.op == 'fmul' and t.a[0] is t.a[1]


def zeroed(t, x, depth=4):
    """t, or something equal to t whenever x = 0"""
    if t is x:
        return 0.0
    if type(t) is float or depth == 0:
        return t
    if t.op == 'fmul':
        a, b = zeroed(t.a[0], x, depth - 1), zeroed(t.a[1], x, depth - 1)
        return fmul(a, b) if type(a) is float or type(b) is float else t
    if t.op == 'fneg':
        a = zeroed(t.a[0], x, depth - 1)
        return fneg(a) if type(a) is float else t
    if t.op == 'fadd':
        a, b = zeroed(t.a[0], x, depth - 1), zeroed(t.a[1], x, depth - 1)
        return fadd(a, b) if a is not t.a[0] or b is not t.a[1] else t
    return t


def fle(a, b):
    if type(a) is float and type(b) is float:
        return a <= b
    if isfp():
        return mk('fle', 'B', bare(a), bare(b))
    if special(a) or special(b):
        return flt(a, b)
    return b_not(flt(b, a))


def fisnan(a):
    if type(a) is float:
        return a != a
    if isfp():
        return mk('fnan', 'B', bare(a))
    return False


def funo(a, b):
    return b_or(fisnan(a), fisnan(b))


def fcmp(p, a, b):
    if a is UND or b is UND:
        return UND
    if p == 'false':
        return False
    if p == 'true':
        return True
    if p == 'uno':
        return funo(a, b)
    if p == 'ord':
        return b_not(funo(a, b))
    if p == 'oeq':
        return feq(a, b)
    if p == 'une':
        return b_not(feq(a, b))
    if p == 'olt':
        return flt(a, b)
    if p == 'ogt':
        return flt(b, a)
    if p == 'ole':
        return fle(a, b)
    if p == 'oge':
        return fle(b, a)
    if p == 'ult':
        return b_not(fle(b, a)) if isfp() or special(a) or special(b) else flt(a, b)
    if p == 'ugt':
        return b_not(fle(a, b)) if isfp() or special(a) or special(b) else flt(b, a)
    if p == 'ule':
        return b_not(flt(b, a))
    if p == 'uge':
        return b_not(flt(a, b))
    if p == 'one':
        return b_or(flt(a, b), flt(b, a))
    if p == 'ueq':
        return b_or(funo(a, b), feq(a, b))
    raise Unsupported('fcmp ' + p)


def fite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is UND or b is UND:
        return a if decide(c) else b
    if type(a) is float and type(b) is float and a == b:
        return a
    if a is b:
        return a
    if not isfp() and (special(a) or special(b)):
        return a if decide(c) else b
    # |x| and max/min patterns keep their own operators
    if not isfp():
        # a case for zero that agrees with the general one
        z, e, t = (c.a[0], b, a) if c.op == 'not' else (c, a, b)
        if z.op == 'feq' and const(z.a[1]) == 0:
            e2, t2 = zeroed(e, z.a[0]), zeroed(t, z.a[0])
            if e2 is t2 or type(e2) is float and type(t2) is float and e2 == t2:
                return t
        if c is flt(b, a) or c is fle(b, a):
            return fmax(a, b)
        if c is flt(a, b) or c is fle(a, b):
            return fmin(a, b)
        na = fneg(a)
        if na is b or isinstance(na, float) and isinstance(b, float) and na == b:
            if c is flt(0.0, a) or c is fle(0.0, a):
                return fabs(a)
            if c is flt(a, 0.0) or c is fle(a, 0.0):
                return fabs(b)
    return mk('fite', 'F', c, a, b)


def fmax(a, b, prop=False):
    return fminmax('fmax', a, b, prop)


def fmin(a, b, prop=False):
    return fminmax('fmin', a, b, prop)


def fminmax(op, a, b, prop):
    if a is UND or b is UND:
        return UND
    if type(a) is float and a != a:
        return a if prop else b
    if type(b) is float and b != b:
        return b if prop else a
    if type(a) is float and type(b) is float:
        return max(a, b) if op == 'fmax' else min(a, b)
    if isfp():
        c = flt(a, b) if op == 'fmax' else flt(b, a)
        r = fite(c, b, a)
        if prop:
            return fite(funo(a, b), NAN, r)
        return fite(fisnan(a), b, fite(fisnan(b), a, r))
    for x, y in ((a, b), (b, a)):
        if special(x):
            big = x == INF
            return x if big == (op == 'fmax') else y
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return (a if ca >= cb else b) if op == 'fmax' else (a if ca <= cb else b)
    if a is b:
        return a
    return mk(op, 'F', *ford(a, b))


def fsign(x):
    b = f2b(x)
    return b >> 63 == 1 if type(b) is int else mk('bvslt', 'B', b, 0)


def fcopysign(a, b):
    if type(a) is float and type(b) is float:
        return math.copysign(a, b)
    if a is UND or b is UND:
        return UND
    m = fabs(a)
    if type(b) is float:
        return fneg(m) if math.copysign(1, b) < 0 else m
    if isfp():
        return fite(fsign(b), fneg(m), m)
    return fite(flt(b, 0.0), fneg(m), m)


def is_fpclass(a, mask):
    """llvm.is.fpclass"""
    if type(a) is float:
        if a != a:
            return bool(mask & 3)
        neg = math.copysign(1, a) < 0
        if a in (INF, -INF):
            return bool(mask & (4 if neg else 512))
        if a == 0:
            return bool(mask & (32 if neg else 64))
        sub = abs(a) < 2.2250738585072014e-308
        bit = (16 if sub else 8) if neg else (128 if sub else 256)
        return bool(mask & bit)
    if isfp():
        r = False
        parts = []
        nan = fisnan(a)
        if mask & 3 == 3:
            parts.append(nan)
        elif mask & 3:
            raise Unsupported('is.fpclass qnan/snan')
        inf = feq(fabs(a), INF)
        rest = {4: feq(a, -INF), 512: feq(a, INF)}
        fin = mask & (8 | 16 | 32 | 64 | 128 | 256)
        for k, c in rest.items():
            if mask & k:
                parts.append(c)
        if fin == (8 | 16 | 32 | 64 | 128 | 256):
            parts.append(b_and(b_not(nan), b_not(inf)))
        elif fin == (32 | 64):
            parts.append(feq(a, 0.0))
        elif fin:
            raise Unsupported('is.fpclass %d' % mask)
        for c in parts:
            r = b_or(r, c)
        return r
    # real mode: finite; classes by sign
    r = False
    if mask & (8 | 16):
        r = b_or(r, flt(a, 0.0))
    if mask & (32 | 64):
        r = b_or(r, feq(a, 0.0))
    if mask & (128 | 256):
        r = b_or(r, flt(0.0, a))
    return r


# ------------------------------------------------------------- rounding
def ffloor(a):
    if a is UND:
        return UND
    if type(a) is float:
        return a if special(a) else float(math.floor(a))
    if isfp():
        return mk('frnd', 'F', 'floor', a)
    return float(PATH[0].floor_int(a))


def fceil(a):
    if type(a) is float:
        return a if special(a) else float(math.ceil(a))
    if isfp():
        return mk('frnd', 'F', 'ceil', a)
    return -float(PATH[0].floor_int(fneg(a)))


def ftrunc(a):
    if a is UND:
        return UND
    if type(a) is float:
        return a if special(a) else float(math.trunc(a))
    if isfp():
        return mk('frnd', 'F', 'trunc', a)
    if decide(flt(a, 0.0)):
        return fceil(a)
    return ffloor(a)


def fround(a):
    """half away from zero"""
    if type(a) is float:
        if special(a):
            return a
        f = Fraction(a)
        r = math.floor(abs(f) + Fraction(1, 2))
        return math.copysign(float(r), a)
    if isfp():
        return mk('frnd', 'F', 'away', a)
    if decide(flt(a, 0.0)):
        return fneg(ffloor(fadd(fneg(a), 0.5)))
    return ffloor(fadd(a, 0.5))


def frint(a):
    """half to even"""
    if type(a) is float:
        return a if special(a) else float(round(a))
    if isfp():
        return mk('frnd', 'F', 'even', a)
    t = fadd(a, 0.5)
    k = ffloor(t)
    if k % 2 != 0 and decide(feq(t, k)):
        return k - 1.0
    return k


def fpge(x, k):
    """the integer part of the double x (0 for NaN) is at least k"""
    if k > 0:
        return fle(float(k), x)
    return terms.b_not(fle(x, float(k - 1)))


def fptosi(a, n, sat):
    lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    return fptoint(a, n, lo, hi, 'fp2si')


def fptoui(a, n, sat):
    return fptoint(a, n, 0, (1 << n) - 1, 'fp2ui')


def fptoint(a, n, lo, hi, op):
    if a is UND:
        return UND
    if type(a) is not float:
        if isfp():
            return mk(op, n, a)
        a = ftrunc(a)
    if a != a:
        return 0
    if a == INF:
        v = hi
    elif a == -INF:
        v = lo
    else:
        v = max(lo, min(hi, int(a)))
    return v & ((1 << n) - 1)


def uitofp(v, n):
    if v is UND:
        return UND
    if v is True or v is False:
        return 1.0 if v else 0.0
    if isinstance(v, BoolT):
        return fite(v, 1.0, 0.0)
    if type(v) is not int:
        if isfp():
            return mk('ui2f', 'F', v)
        v = PATH[0].concretise(v)
    if isfp():
        return float(v)
    return q(Fraction(v))


def sitofp(v, n):
    if v is UND:
        return UND
    if type(v) is not int:
        if isinstance(v, BoolT) or v is True or v is False:
            return fneg(uitofp(v, 1))
        if isfp():
            return mk('si2f', 'F', v)
        v = PATH[0].concretise(v)
    if v >> (n - 1):
        v -= 1 << n
    if isfp():
        return float(v)
    return q(Fraction(v))


# ------------------------------------------------------------- transcendental
UF1 = {
    'exp': math.exp, 'log': math.log, 'log1p': math.log1p, 'cos': math.cos, 'sin': math.sin, 'tan': math.tan,
    'tanh': math.tanh, 'expm1': math.expm1, 'exp2': lambda x: 2.0 ** x, 'log2': math.log2, 'log10': math.log10,
    'atan': math.atan, 'acos': math.acos, 'asin': math.asin, 'sinh': math.sinh, 'cosh': math.cosh,
    'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'acosh': math.acosh, 'asinh': math.asinh, 'atanh': math.atanh,
    'rnd32': to32,
}
EXACT = {('exp', 0): 1.0, ('cos', 0): 1.0, ('sin', 0): 0.0, ('log', 1): 0.0, ('log1p', 0): 0.0, ('tan', 0): 0.0,
         ('tanh', 0): 0.0, ('expm1', 0): 0.0, ('exp2', 0): 1.0, ('log2', 1): 0.0, ('log10', 1): 0.0, ('atan', 0): 0.0,
         ('asin', 0): 0.0, ('sinh', 0): 0.0, ('cosh', 0): 1.0, ('cbrt', 0): 0.0, ('cbrt', 1): 1.0, ('rnd32', 0): 0.0}
EVEN = {'cos', 'cosh'}
ODD = {'sin', 'tan', 'tanh', 'atan', 'asin', 'sinh', 'cbrt', 'rnd32'}


def pyuf(name, *xs):
    try:
        return float(UF1[name](*xs))
    except (ValueError, ZeroDivisionError):
        if name == 'log' and xs[0] == 0:
            return -INF
        if name == 'log1p' and xs[0] == -1:
            return -INF
        return NAN
    except OverflowError:
        return INF


def uf(name, a):
    if a is UND:
        return UND
    if isfp():
        if type(a) is float:
            return pyuf(name, a)
        raise Unsupported(name + ' in fp mode')
    if special(a):
        return pyuf(name, a)
    c = const(a)
    if c is not None and (name, c) in EXACT:
        return EXACT[(name, c)]
    if name in ('log', 'log2', 'log10'):
        if decide(fle(a, 0.0)):
            return -INF if decide(feq(a, 0.0)) else NAN
    if name == 'log1p':
        if decide(fle(a, -1.0)):
            return -INF if decide(feq(a, -1.0)) else NAN
        return mk('log', 'F', fadd(a, 1.0)) if c is None or c != 0 else 0.0
    if name == 'expm1':
        return fsub(uf('exp', a), 1.0)
    if name in EVEN:
        a = fabs_canon(a)
    if name == 'log' and type(a) is not float and a.op == 'exp':
        return a.a[0]
    if name == 'exp' and type(a) is not float and a.op == 'log':
        return a.a[0]
    return mk(name, 'F', a)


def fabs_canon(a):
    if type(a) is float:
        return abs(a)
    if a.op == 'q':
        return q(abs(a.a[0]))
    if a.op in ('fneg', 'fabs'):
        return fabs_canon(a.a[0])
    return a


def fpow(a, b):
    if a is UND or b is UND:
        return UND
    if type(a) is float and type(b) is float and (isfp() or special(a) or special(b)):
        try:
            return math.pow(a, b)
        except (ValueError, OverflowError):
            return NAN
    c = const(b) if not special(b) else None
    if c is not None:
        if c.denominator == 1 and abs(c) <= 64:
            return fpowi(a, int(c) & 0xffffffff)
        if c.denominator == 2 and abs(c) <= 32:
            # x ** (k/2) for x >= 0
            if decide(flt(a, 0.0)):
                return NAN
            return fpowi(fsqrt(a), int(2 * c) & 0xffffffff)
    if isfp():
        raise Unsupported('pow in fp mode')
    if decide(flt(0.0, a)):
        return uf('exp', fmul(b, uf('log', a)))
    raise Unsupported('pow of a non-positive base with a symbolic exponent')


def fhypot(a, b):
    return fsqrt(fadd(fmul(a, a), fmul(b, b)))


# ------------------------------------------------------------- bit casts
class Und:
    """an undefined (uninitialised or poison) value"""
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'

    def _self(self, *a):
        return self

    # an absorbing operand decides the result whatever the undefined one is
    def _and(self, o):
        if o is False or (type(o) is int and o == 0):
            return o
        if isinstance(o, BoolT) and not terms.DECIDE[0](o):
            return False
        return self

    def _or(self, o):
        if o is True:
            return True
        if isinstance(o, BoolT) and terms.DECIDE[0](o):
            return True
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _self
    __and__ = __rand__ = _and
    __or__ = __ror__ = _or
    __xor__ = __rxor__ = __lshift__ = __rshift__ = __rlshift__ = __rrshift__ = _self
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __invert__ = _self
    __hash__ = None

    def __bool__(self):
        raise UndefUse('branch on an uninitialised value')


class UndefUse(Exception):
    pass


UND = terms.UND = Und()


def f2b(x):
    if type(x) is float:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    if x is UND:
        return UND
    if x.op == 'b2f':
        return x.a[0]
    return mk('f2b', 64, x)


def realeq(x, y):
    x = x.a[0]
    if y is None:
        return flt(x, 0.0)
    return feq(x, y.a[0] if isinstance(y, BvT) else b2f(y))


def b2f(v):
    if v is UND:
        return UND
    if type(v) is int:
        d = struct.unpack('<d', struct.pack('<Q', v))[0]
        return d if isfp() else snap(d)
    if isinstance(v, BvT):
        if v.op == 'f2b':
            return v.a[0]
        # sign bit cleared, flipped
        if v.op in ('bvand', 'bvxor') and isinstance(v.a[0], BvT) and v.a[0].op == 'f2b' and type(v.a[1]) is int:
            if v.op == 'bvand' and v.a[1] == (1 << 63) - 1:
                return fabs(v.a[0].a[0])
            if v.op == 'bvxor' and v.a[1] == 1 << 63:
                return fneg(v.a[0].a[0])
        if isfp():
            return mk('b2f', 'F', v)
    raise Unsupported('bit pattern reinterpreted as a float')
