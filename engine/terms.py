"""Hash-consed symbolic terms.

Sorts: 'B' (boolean), 'F' (floating value), or an int n (bit-vector of n bits).
Concrete values never appear as terms except as arguments: booleans and
bit-vectors are Python bool/int, floats are Python float.  In real mode an
exact rational that is not a double is the constant term op 'q' (Fraction).
"""
from fractions import Fraction
import math
import struct
import zlib


class Unsupported(Exception):
    pass


class T:
    __slots__ = ('id', 'op', 'a', 's', 'h')
    __hash__ = None

    def __repr__(self):
        return show(self)


TABLE = {}
COUNT = [0]
UND = None  # set by fl
DECIDE = [None]  # set by the runtime: BoolT -> python bool


def reset_terms():
    TABLE.clear()
    COUNT[0] = 0


def _k(x):
    if isinstance(x, T):
        return ('t', x.id)
    if type(x) is float:
        return ('f', struct.pack('<d', x))
    return (type(x).__name__, x)


OPH = {}


def _h(x):
    """hash of a term's structure: the same in every process and whatever was built before"""
    if isinstance(x, T):
        return x.h
    if type(x) is float:
        return int.from_bytes(struct.pack('<d', x), 'little')
    if type(x) is str:
        return zlib.crc32(x.encode())
    if type(x) is tuple:
        return hash(tuple([_h(y) for y in x]))
    if type(x) is int or type(x) is bool or type(x) is Fraction:
        return hash(x)
    return zlib.crc32(repr(x).encode())


def mk(op, s, *a):
    key = (op, s) + tuple([_k(x) for x in a])
    t = TABLE.get(key)
    if t is None:
        t = (BoolT if s == 'B' else FT if s == 'F' else BvT)()
        t.op = op
        t.a = a
        t.s = s
        COUNT[0] += 1
        t.id = COUNT[0]
        o = OPH.get((op, s))
        if o is None:
            o = OPH[op, s] = zlib.crc32(('%s/%s' % (op, s)).encode())
        t.h = hash((o,) + tuple([_h(x) for x in a]))
        TABLE[key] = t
    return t


# ---------------------------------------------------------------- booleans
class BoolT(T):
    __slots__ = ()
    __hash__ = None

    def __bool__(self):
        return DECIDE[0](self)

    def __and__(self, o):
        return UND & self if o is UND else b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return UND | self if o is UND else b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if o is True:
            return b_not(self)
        if o is False:
            return self
        return mk('xor', 'B', *order(self, o))

    __rxor__ = __xor__

    def __eq__(self, o):
        return b_not(self ^ o)

    def __ne__(self, o):
        return self ^ o


def order(a, b):
    return (a, b) if (a.h, a.id) <= (b.h, b.id) else (b, a)


def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if a.op == 'not':
        return a.a[0]
    return mk('not', 'B', a)


def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    return mk('and', 'B', *order(a, b))


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a is b:
        return a
    return mk('or', 'B', *order(a, b))


# ---------------------------------------------------------------- bit-vectors
def _bvbin(op, comm=False):
    def f(a, b, s):
        if comm and not isinstance(a, T):
            a, b = b, a
        return mk(op, s, a, b)
    return f


class BvT(T):
    __slots__ = ()
    __hash__ = None

    def __add__(self, o):
        if type(o) is int:
            n = self.s
            o &= (1 << n) - 1
            if o == 0:
                return self
            if self.op == 'bvadd' and type(self.a[1]) is int:
                return self.a[0] + ((self.a[1] + o) & ((1 << n) - 1))
            return mk('bvadd', n, self, o)
        return mk('bvadd', self.s, *order(self, o))

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int:
            return self + (-o)
        if o is self:
            return 0
        return mk('bvsub', self.s, self, o)

    def __rsub__(self, o):
        return mk('bvsub', self.s, o & ((1 << self.s) - 1), self)

    def __mul__(self, o):
        if type(o) is int:
            o &= (1 << self.s) - 1
            if o == 0:
                return 0
            if o == 1:
                return self
            return mk('bvmul', self.s, self, o)
        return mk('bvmul', self.s, *order(self, o))

    __rmul__ = __mul__

    def __and__(self, o):
        if type(o) is int:
            m = (1 << self.s) - 1
            o &= m
            if o == m:
                return self
            if o == 0:
                return 0
            return mk('bvand', self.s, self, o)
        if o is self:
            return self
        return mk('bvand', self.s, *order(self, o))

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is int:
            if o == 0:
                return self
            return mk('bvor', self.s, self, o)
        if self.s > 8 and self.s % 8 == 0 and isinstance(o, BvT) and (self.op in SHIFTY or o.op in SHIFTY):
            # a value put together from its bytes
            x, y = bytes_of(self), bytes_of(o)
            if all((type(p) is int and p == 0) or (type(q) is int and q == 0) for p, q in zip(x, y)):
                return concat_bytes([q if type(p) is int and p == 0 else p for p, q in zip(x, y)])
        return mk('bvor', self.s, *order(self, o))

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is int:
            if o == 0:
                return self
            if self.op == 'bvxor' and type(self.a[1]) is int:
                return self.a[0] ^ (self.a[1] ^ o)
            return mk('bvxor', self.s, self, o)
        if o is self:
            return 0
        return mk('bvxor', self.s, *order(self, o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is int:
            if self.op == 'zext' and o >> self.a[0].s:
                return False
            if self.op == 'zext':
                return self.a[0] == o
            if self.op == 'bite' and type(self.a[1]) is int and type(self.a[2]) is int:
                x, y = self.a[1] == o, self.a[2] == o
                if x and not y:
                    return self.a[0]
                if y and not x:
                    return b_not(self.a[0])
                return x and y
            if self.op == 'bite' and (type(self.a[1]) is int or type(self.a[2]) is int):
                return b_or(b_and(self.a[0], self.a[1] == o), b_and(b_not(self.a[0]), self.a[2] == o))
            if self.op in FP2I and FPGE[0] is not None:
                a, b = fpge(self, o), fpge_next(self, o)
                if a is not None and b is not None:
                    return b_and(a, b_not(b))
            if self.op == 'f2b' and REALEQ[0] is not None:
                return REALEQ[0](self, o)
            return mk('bveq', 'B', self, o)
        if isinstance(o, BvT):
            if self.op == 'f2b' and o.op == 'f2b' and REALEQ[0] is not None:
                return REALEQ[0](self, o)
            return mk('bveq', 'B', *order(self, o))
        return NotImplemented

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __lt__(self, o):
        return ult(self, o)

    def __gt__(self, o):
        return ult(o, self)

    def __le__(self, o):
        return b_not(ult(o, self))

    def __ge__(self, o):
        return b_not(ult(self, o))

    def __rshift__(self, o):
        if type(o) is int:
            if o == 0:
                return self
            if o >= self.s:
                return 0
        return mk('bvlshr', self.s, self, o)

    def __lshift__(self, o):
        if type(o) is int:
            if o == 0:
                return self
            if o >= self.s:
                return 0
        return mk('bvshl', self.s, self, o)

    def __index__(self):
        raise Unsupported('symbolic integer used as index')


FP2I = ('fp2ui', 'fp2si')
FPGE = [None]       # (x, k, signed) -> condition under which the truncation of the double x is at least k


# real mode: equality and sign of bit patterns of reals
REALEQ = [None]


def fpge(t, k):
    """t >= k in the signedness of the conversion t, k a bit pattern; None if out of reach"""
    if t.op == 'fp2si':
        if k >> (t.s - 1):
            k -= 1 << t.s
        if k == -(1 << (t.s - 1)):
            return True
    elif k == 0:
        return True
    if abs(k) > 1 << 52:
        return None
    return FPGE[0](t.a[0], k)


def fpge_next(t, k):
    """t >= k + 1"""
    top = (1 << (t.s - 1)) - 1 if t.op == 'fp2si' else (1 << t.s) - 1
    if k == top:
        return False
    return fpge(t, (k + 1) & ((1 << t.s) - 1))


def ult(a, b):
    if a is b:
        return False
    if FPGE[0] is not None:
        if type(b) is int and isinstance(a, BvT) and a.op == 'fp2ui':
            r = fpge(a, b)
            if r is not None:
                return b_not(r)
        if type(a) is int and isinstance(b, BvT) and b.op == 'fp2ui':
            r = fpge_next(b, a)
            if r is not None:
                return r
        if type(b) is int and isinstance(a, BvT) and a.op == 'bite' and (type(a.a[1]) is int or type(a.a[2]) is int):
            return b_or(b_and(a.a[0], ult(a.a[1], b)), b_and(b_not(a.a[0]), ult(a.a[2], b)))
        if type(a) is int and isinstance(b, BvT) and b.op == 'bite' and (type(b.a[1]) is int or type(b.a[2]) is int):
            return b_or(b_and(b.a[0], ult(a, b.a[1])), b_and(b_not(b.a[0]), ult(a, b.a[2])))
    if type(a) is int and type(b) is int:
        return a < b
    if type(b) is int:
        if b == 0:
            return False
        if a.op == 'bvxor' and type(a.a[1]) is int and a.a[1] == 1 << (a.s - 1):
            return slt_c(a.a[0], b ^ (1 << (a.s - 1)))
    elif type(a) is int:
        if a == (1 << b.s) - 1:
            return False
        if b.op == 'bvxor' and type(b.a[1]) is int and b.a[1] == 1 << (b.s - 1):
            return c_slt(a ^ (1 << (b.s - 1)), b.a[0])
    else:
        m = 1 << (b.s - 1)
        if a.op == 'bvxor' and b.op == 'bvxor' and a.a[1] is not None and type(a.a[1]) is int and type(b.a[1]) is int \
                and a.a[1] == m and b.a[1] == m:
            return mk('bvslt', 'B', a.a[0], b.a[0])
    return mk('bvult', 'B', a, b)


def slt_c(t, k):
    if t.op == 'f2b' and k == 0 and REALEQ[0] is not None:
        return REALEQ[0](t, None)
    if t.op == 'fp2si' and FPGE[0] is not None:
        r = fpge(t, k)
        if r is not None:
            return b_not(r)
    return mk('bvslt', 'B', t, k)


def c_slt(k, t):
    if t.op == 'f2b' and k == (1 << 64) - 1 and REALEQ[0] is not None:
        return b_not(REALEQ[0](t, None))
    if t.op == 'fp2si' and FPGE[0] is not None:
        r = fpge_next(t, k)
        if r is not None:
            return r
    return mk('bvslt', 'B', k, t)


def zext(a, n):
    if type(a) is int:
        return a
    if a is True:
        return 1
    if a is False:
        return 0
    if isinstance(a, BoolT):
        return mk('bite', n, a, 1, 0)
    if a.op == 'zext':
        a = a.a[0]
    return mk('zext', n, a)


def sext(a, m, n):
    if a is True:
        return (1 << n) - 1
    if a is False:
        return 0
    if type(a) is int:
        if a >> (m - 1):
            return a | (((1 << n) - 1) ^ ((1 << m) - 1))
        return a
    if isinstance(a, BoolT):
        return mk('bite', n, a, (1 << n) - 1, 0)
    return mk('sext', n, a)


def trunc(a, n):
    """to n bits; n == 1 gives a boolean"""
    if type(a) is int:
        return bool(a & 1) if n == 1 else a & ((1 << n) - 1)
    if a.op == 'zext' or a.op == 'sext':
        b = a.a[0]
        if b.s == n:
            return b
        if b.s > n:
            return trunc(b, n)
    if n == 1:
        if a.op == 'bite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(a.a[0], bool(a.a[1] & 1), bool(a.a[2] & 1))
        return mk('bveq', 'B', mk('extract', 1, a, 0, 0), 1)
    return mk('extract', n, a, n - 1, 0)


def extract_byte(t, k):
    """byte k of a bit-vector term"""
    n = t.s
    if n == 8:
        return t
    if t.op == 'zext' and k * 8 >= t.a[0].s:
        return 0
    return mk('extract', 8, t, k * 8 + 7, k * 8)


SHIFTY = ('zext', 'bvshl', 'bvlshr', 'bvand', 'concat')


def bytes_of(t):
    """the bytes of a bit-vector term, least significant first, as ints or 8-bit terms"""
    n = t.s // 8
    if t.op == 'zext' and t.a[0].s % 8 == 0:
        b = bytes_of(t.a[0])
        return b + [0] * (n - len(b))
    if t.op == 'concat':
        b = []
        for x in t.a:
            b += [x] if type(x) is int or x.s == 8 else bytes_of(x)
        return b
    if t.op in ('bvshl', 'bvlshr') and type(t.a[1]) is int and t.a[1] % 8 == 0 and isinstance(t.a[0], BvT):
        b, k = bytes_of(t.a[0]), t.a[1] // 8
        return [0] * k + b[:n - k] if t.op == 'bvshl' else b[k:] + [0] * k
    if t.op == 'bvand' and type(t.a[1]) is int and all((t.a[1] >> k) & 255 in (0, 255) for k in range(0, t.s, 8)):
        b = bytes_of(t.a[0])
        return [x if (t.a[1] >> (8 * i)) & 255 else 0 for i, x in enumerate(b)]
    if t.op == 'extract' and t.a[2] % 8 == 0 and t.s % 8 == 0 and t.s > 8 and isinstance(t.a[0], BvT) and t.a[0].s % 8 == 0:
        return [extract_byte(t.a[0], t.a[2] // 8 + i) for i in range(n)]
    return [extract_byte(t, i) for i in range(n)]


def concat_bytes(b):
    """bytes (ints or 8-bit terms), little endian -> bit-vector term"""
    n = len(b)
    t0 = b[0]
    if isinstance(t0, BvT) and t0.op == 'extract' and t0.a[2] == 0:
        src = t0.a[0]
        k = 0
        while k < n and isinstance(b[k], BvT) and b[k].op == 'extract' and b[k].a[0] is src and b[k].a[2] == 8 * k:
            k += 1
        if 8 * k == src.s and all(type(x) is int and x == 0 for x in b[k:]):
            return src if k == n else mk('zext', 8 * n, src)
        if k == n:
            return mk('extract', 8 * n, src, 8 * n - 1, 0)
    if n == 1:
        return t0
    return mk('concat', 8 * n, *b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ta = type(a)
    if ta is bool or isinstance(a, BoolT) or type(b) is bool:
        if a is True and b is False:
            return c
        if a is False and b is True:
            return b_not(c)
        return b_or(b_and(c, a), b_and(b_not(c), b))
    raise Unsupported('ite')


# ---------------------------------------------------------------- floats
class FT(T):
    __slots__ = ()
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('float term compared in Python')

    def __bool__(self):
        raise Unsupported('float term as bool')


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'var':
        return str(t.a[0])
    if t.op == 'q':
        return str(t.a[0])
    if depth == 0:
        return '...'
    return '(%s %s)' % (t.op, ' '.join(show(x, depth - 1) for x in t.a))


def walk(ts):
    """all subterms, children first"""
    seen = set()
    out = []
    st = [(t, False) for t in ts if isinstance(t, T)]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for x in t.a:
            if isinstance(x, T) and x.id not in seen:
                st.append((x, False))
    return out


VARS = {}


def vars_of(t):
    """frozenset of variable names occurring in t (memoised)"""
    r = VARS.get(t.id)
    if r is not None and r[0] is t:
        return r[1]
    for u in walk([t]):
        r = VARS.get(u.id)
        if r is not None and r[0] is u:
            continue
        if u.op == 'var':
            v = frozenset([u.a[0]])
        else:
            v = frozenset()
            for x in u.a:
                if isinstance(x, T):
                    v = v | VARS[x.id][1]
        VARS[u.id] = (u, v)
    return VARS[t.id][1]
