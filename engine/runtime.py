"""Path state: memory, decisions, calls into the harness API."""
import struct
from fractions import Fraction
import terms
import fl
from terms import T, BvT, BoolT, FT, mk, b_not, b_and, b_or, extract_byte, Unsupported
from fl import UND, Und, UndefUse, f2b, b2f, f2b32, b2f32

M64 = (1 << 64) - 1
FUNC_BASE = 1 << 28
GLOB_BASE = 1 << 24
up_Q = struct.Struct('<Q').unpack_from
pk_Q = struct.Struct('<Q').pack_into
up_I = struct.Struct('<I').unpack_from
pk_I = struct.Struct('<I').pack_into
up_d = struct.Struct('<d').unpack_from
pk_d = struct.Struct('<d').pack_into
Z = [bytes(i) for i in range(65)]
U1 = [b'\1' * i for i in range(65)]


class Unwind(Exception):
    """a Rust panic unwinding"""


class Violation(Exception):
    """the path ends with an outcome the property excludes"""

    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind
        self.msg = msg


class Infeasible(Exception):
    """the path condition became unsatisfiable"""


class StepLimit(Exception):
    pass


class Obj:
    __slots__ = ('size', 'data', 'mask', 'cells', 'kind', 'ro')


OBJ = {}
NEXT = [1]
S = [0]      # executed instruction counter
LIM = [0]
PATH = fl.PATH
LOADER = [None]  # codegen: materialise a global object
FREED = {}
EXC = {}


def new_obj(size, kind, zero=False):
    o = Obj()
    o.size = size
    o.data = bytearray(size)
    o.mask = None if zero else bytearray(b'\1') * size
    o.cells = None
    o.kind = kind
    o.ro = False
    i = NEXT[0]
    NEXT[0] = i + 1
    OBJ[i] = o
    return i << 32


def alloca(size):
    o = Obj()
    o.size = size
    o.data = bytearray(size)
    o.mask = bytearray(b'\1' * size)
    o.cells = None
    o.kind = 'stack'
    o.ro = False
    i = NEXT[0]
    NEXT[0] = i + 1
    OBJ[i] = o
    return i << 32


def where(p):
    i = p >> 32
    if i in FREED:
        return 'use after free of a %s object' % FREED[i]
    if i == 0:
        return 'access through a null or dangling pointer 0x%x' % p
    return 'access outside any object (0x%x)' % p


def resolve(p, n, write=False):
    """-> (object, offset) for an n byte access"""
    if type(p) is not int:
        if p is UND:
            raise Violation('memory', 'access through an uninitialised pointer')
        p = PATH[0].concretise(p)
    o = OBJ.get(p >> 32)
    if o is None:
        o = LOADER[0](p >> 32)
        if o is None:
            if n == 0:
                return None, 0
            raise Violation('memory', where(p))
    off = p & 0xffffffff
    if off + n > o.size:
        if n == 0:
            return None, 0
        raise Violation('memory', 'out-of-bounds %s of %d bytes at offset %d of a %d byte %s object'
                        % ('write' if write else 'read', n, off if off < 1 << 31 else off - (1 << 32), o.size, o.kind))
    if write and o.ro:
        raise Violation('memory', 'write to a constant')
    return o, off


def split_cell(o, k):
    """turn the cell covering byte k into single-byte cells"""
    m = o.mask
    while m[k] == 3:
        k -= 1
    t, n = o.cells.pop(k)
    if isinstance(t, Mixed):
        for j in range(n):
            b = t.b[j]
            set_byte(o, k + j, b)
        return
    if isinstance(t, FT):
        t = f2b(t)
    for j in range(n):
        b = extract_byte(t, j) if type(t) is not int else (t >> (8 * j)) & 255
        set_byte(o, k + j, b)


def set_byte(o, i, b):
    if b is UND:
        o.mask[i] = 1
    elif type(b) is int:
        o.data[i] = b
        o.mask[i] = 0
    else:
        o.mask[i] = 2
        o.cells[i] = (b, 1)


def kill(o, off, n):
    """remove symbolic cells from [off, off+n)"""
    m = o.mask
    if m[off] == 3:
        split_cell(o, off)
    if off + n < o.size and m[off + n] == 3:
        split_cell(o, off + n)
    c = o.cells
    for i in range(off, off + n):
        if m[i] == 2:
            c.pop(i, None)


def need_mask(o):
    if o.mask is None:
        o.mask = bytearray(o.size)
    if o.cells is None:
        o.cells = {}


class Mixed:
    """a loaded integer whose bytes are partly uninitialised"""
    __slots__ = ('b',)
    __hash__ = None

    def __init__(self, b):
        self.b = b

    def _bad(self, *a):
        return UND

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __xor__ = __rxor__ = _bad
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = _bad

    def __and__(self, o):
        if type(o) is not int:
            return UND
        out = []
        for i, x in enumerate(self.b):
            mb = (o >> (8 * i)) & 255
            if mb == 0:
                out.append(0)
            elif mb == 255:
                out.append(x)
            elif type(x) is int:
                out.append(x & mb)
            else:
                out.append(UND)
        return norm_bytes(out)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (Mixed, BvT)) or type(o) is int:
            if isinstance(o, BvT) and o.s != 8 * len(self.b):
                return UND
            ob = o.b if isinstance(o, Mixed) else terms.bytes_of(o) if isinstance(o, BvT) else [(o >> (8 * i)) & 255 for i in range(len(self.b))]
            out = []
            for x, y in zip(self.b, ob):
                if type(x) is int and x == 0:
                    out.append(y)
                elif type(y) is int and y == 0:
                    out.append(x)
                elif type(x) is int and type(y) is int:
                    out.append(x | y)
                else:
                    out.append(UND)
            return norm_bytes(out)
        return UND

    __ror__ = __or__

    def __rshift__(self, o):
        if type(o) is int and o % 8 == 0:
            k = o // 8
            return norm_bytes(self.b[k:] + [0] * k)
        return UND

    def __lshift__(self, o):
        if type(o) is int and o % 8 == 0:
            k = o // 8
            return norm_bytes([0] * k + self.b[:len(self.b) - k])
        return UND

    def __bool__(self):
        raise UndefUse('branch on a partly uninitialised value')


def norm_bytes(b):
    if all(type(x) is int for x in b):
        return int.from_bytes(bytes(b), 'little')
    if all(x is UND for x in b):
        return UND
    if any(x is UND for x in b):
        return Mixed(b)
    return concat_bytes(b)


concat_bytes = terms.concat_bytes


def load_slow(p, n):
    o, off = resolve(p, n)
    if o is None:
        return UND
    m = o.mask
    if m is None or m[off:off + n] == Z[n]:
        return int.from_bytes(o.data[off:off + n], 'little')
    if m[off] == 2:
        t, k = o.cells[off]
        if k == n:
            return t
    mm = m[off:off + n]
    if mm == U1[n]:
        return UND
    out = []
    i = off
    while i < off + n:
        s = m[i]
        if s == 0:
            out.append(o.data[i])
        elif s == 1:
            out.append(UND)
        else:
            j = i
            while m[j] == 3:
                j -= 1
            t, k = o.cells[j]
            if isinstance(t, Mixed):
                out.append(t.b[i - j])
            elif isinstance(t, FT):
                out.append(extract_byte(f2b(t) if k == 8 else f2b32(t), i - j))
            else:
                out.append(extract_byte(t, i - j))
        i += 1
    return norm_bytes(out)


def store_slow(p, v, n):
    """v: int / BvT / FT / UND / Mixed, n bytes"""
    o, off = resolve(p, n, True)
    if o is None:
        return
    if type(v) is int:
        if o.cells:
            kill(o, off, n)
        o.data[off:off + n] = v.to_bytes(n, 'little')
        if o.mask is not None:
            o.mask[off:off + n] = Z[n]
        return
    need_mask(o)
    if o.cells:
        kill(o, off, n)
    if v is UND:
        o.mask[off:off + n] = U1[n]
        return
    if isinstance(v, Mixed):
        for i, b in enumerate(v.b):
            set_byte(o, off + i, b)
        return
    o.cells[off] = (v, n)
    o.mask[off] = 2
    for i in range(off + 1, off + n):
        o.mask[i] = 3


def ld1(p):
    try:
        o = OBJ[p >> 32]
        off = p & 0xffffffff
        m = o.mask
        if m is None or m[off] == 0:
            return o.data[off]
    except (KeyError, TypeError, IndexError):
        pass
    return asint(load_slow(p, 1))


def ld8(p):
    try:
        o = OBJ[p >> 32]
        off = p & 0xffffffff
        m = o.mask
        if off + 8 <= o.size and (m is None or m[off:off + 8] == Z8):
            return up_Q(o.data, off)[0]
    except (KeyError, TypeError):
        pass
    return asint(load_slow(p, 8))


Z8 = bytes(8)


def asint(v):
    if isinstance(v, FT):
        return f2b(v)
    return v


def ldn(p, n):
    v = load_slow(p, n)
    return f2b32(v) if n == 4 and isinstance(v, FT) else asint(v)


def ldd(p):
    v = load_slow(p, 8)
    if type(v) is int:
        return b2f(v)
    if isinstance(v, FT) or v is UND:
        return v
    if isinstance(v, Mixed):
        return UND
    return b2f(v)


def ldf(p):
    v = load_slow(p, 4)
    if isinstance(v, FT) or v is UND:
        return v
    if isinstance(v, Mixed):
        return UND
    return b2f32(v)


def stf(p, v):
    if type(v) is float:
        v = f2b32(v)
    store_slow(p, v, 4)


def ldb(p):
    """load i1"""
    v = ld1(p)
    return terms.trunc(v, 1) if v is not UND else UND


def st1(p, v):
    if type(v) is int:
        try:
            o = OBJ[p >> 32]
            if not o.cells and not o.ro:
                off = p & 0xffffffff
                o.data[off] = v
                if o.mask is not None:
                    o.mask[off] = 0
                return
        except (KeyError, TypeError, IndexError):
            pass
    store_slow(p, v, 1)


def st8(p, v):
    if type(v) is int:
        try:
            o = OBJ[p >> 32]
            off = p & 0xffffffff
            if not o.cells and not o.ro and off + 8 <= o.size:
                pk_Q(o.data, off, v)
                if o.mask is not None:
                    o.mask[off:off + 8] = Z8
                return
        except (KeyError, TypeError):
            pass
    elif isinstance(v, BvT) and v.op == 'f2b':
        v = v.a[0]
    store_slow(p, v, 8)


def stn(p, v, n):
    if isinstance(v, BvT) and v.op == 'f2b32':
        v = v.a[0]
    store_slow(p, v, n)


def std(p, v):
    if type(v) is float:
        v = up_Q(struct.pack('<d', v))[0]
    store_slow(p, v, 8)


def stb(p, v):
    store_slow(p, terms.zext(v, 8) if v is not UND else v, 1)


def conc(v):
    if type(v) is int:
        return v
    if v is UND:
        raise UndefUse('uninitialised size or pointer')
    if isinstance(v, Mixed):
        raise UndefUse('partly uninitialised size or pointer')
    return PATH[0].concretise(v)


def memcpy(d, s, n):
    n = conc(n)
    if n == 0:
        return
    so, si = resolve(s, n)
    do, di = resolve(d, n, True)
    if so.cells:
        if so.mask[si] == 3:
            split_cell(so, si)
        if si + n < so.size and so.mask[si + n] == 3:
            split_cell(so, si + n)
        cells = [(k - si, v) for k, v in so.cells.items() if si <= k < si + n]
    else:
        cells = None
    data = so.data[si:si + n]
    mask = so.mask[si:si + n] if so.mask is not None else None
    if do.cells:
        kill(do, di, n)
    do.data[di:di + n] = data
    if mask is None:
        if do.mask is not None:
            do.mask[di:di + n] = bytes(n)
    else:
        if do.mask is None:
            do.mask = bytearray(do.size)
        do.mask[di:di + n] = mask
        if cells:
            if do.cells is None:
                do.cells = {}
            for k, v in cells:
                do.cells[di + k] = v


def memset(d, v, n):
    n = conc(n)
    if n == 0:
        return
    v = conc(v)
    o, off = resolve(d, n, True)
    if o.cells:
        kill(o, off, n)
    o.data[off:off + n] = bytes([v]) * n
    if o.mask is not None:
        o.mask[off:off + n] = bytes(n)


def memcmp(a, b, n):
    n = conc(n)
    for i in range(n):
        x, y = ld1(a + i), ld1(b + i)
        if x == y:
            continue
        return 1 if x > y else 0xffffffff
    return 0


def strlen(p):
    n = 0
    while conc(ld1(p + n)) != 0:
        n += 1
    return n


MAXALLOC = 1 << 26


def malloc(n):
    n = conc(n)
    if n > MAXALLOC:
        return 0
    return new_obj(n, 'heap')


def calloc(a, b):
    n = conc(a) * conc(b)
    if n > MAXALLOC:
        return 0
    return new_obj(n, 'heap', True)


def free(p):
    p = conc(p)
    if p == 0:
        return
    i = p >> 32
    o = OBJ.get(i)
    if o is None or p & 0xffffffff or o.kind != 'heap':
        raise Violation('memory', 'invalid free: ' + (where(p) if o is None else 'not the start of a heap object'))
    del OBJ[i]
    FREED[i] = 'heap'


def realloc(p, n):
    p = conc(p)
    n = conc(n)
    if n > MAXALLOC:
        return 0
    if p == 0:
        return malloc(n)
    o = OBJ.get(p >> 32)
    if o is None or p & 0xffffffff or o.kind != 'heap':
        raise Violation('memory', 'invalid realloc')
    r = new_obj(n, 'heap')
    memcpy(r, p, min(n, o.size))
    free(p)
    return r


def posix_memalign(out, al, n):
    p = malloc(n)
    if p == 0:
        return 12
    st8(out, p)
    return 0


def lifetime_start(p):
    if type(p) is int:
        o = OBJ.get(p >> 32)
        if o is not None and o.kind == 'stack' and not p & 0xffffffff:
            o.mask = bytearray(b'\1' * o.size)
            o.cells = None


def freeframe(ps):
    for p in ps:
        i = p >> 32
        if OBJ.pop(i, None) is not None:
            FREED[i] = 'stack'


def sel(c, a, b):
    """select on integers"""
    if c is True:
        return a
    if c is False:
        return b
    if c is UND:
        return UND
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if (ta is int or isinstance(a, BvT)) and (tb is int or isinstance(b, BvT)):
        if ta is int and tb is int:
            if a == b:
                return a
            n = 0
        return selbv(c, a, b)
    return a if c else b


def selbv(c, a, b):
    n = a.s if not type(a) is int else b.s if not type(b) is int else None
    if n is None:
        return a if c else b
    return mk('bite', n, c, a, b)


def selp(c, a, b):
    """select on pointers / aggregates: fork"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    return a if c else b


def selb(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if c is UND:
        if a is False or b is False:
            # select undef, x, false -- poison-safe "and"
            return UND
        return UND
    if a is UND or b is UND:
        return a if c else b
    return terms.ite(c, a, b)


def selN(c, a, b, n):
    """select on n-bit integers"""
    if c is True:
        return a
    if c is False:
        return b
    if c is UND:
        return UND
    if type(a) is int and type(b) is int:
        if a == b:
            return a
        return mk('bite', n, c, a, b)
    if isinstance(a, (BvT, int)) and isinstance(b, (BvT, int)):
        return a if a is b else mk('bite', n, c, a, b)
    return a if c else b


def self_(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if c is UND:
        return UND
    return fl.fite(c, a, b)


def freeze(v):
    if v is UND or isinstance(v, Mixed):
        return 0
    return v


def udiv(a, b, n):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise Violation('ub', 'division by zero')
        return a // b
    if a is UND or b is UND:
        return UND
    if type(b) is int and b & (b - 1) == 0 and b:
        return a >> (b.bit_length() - 1)
    return mk('bvudiv', n, a, b)


def urem(a, b, n):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise Violation('ub', 'division by zero')
        return a % b
    if a is UND or b is UND:
        return UND
    if type(b) is int and b & (b - 1) == 0 and b:
        return a & (b - 1)
    return mk('bvurem', n, a, b)


def sg(a, n):
    return a - (1 << n) if a >> (n - 1) else a


def sdiv(a, b, n):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise Violation('ub', 'division by zero')
        x, y = sg(a, n), sg(b, n)
        r = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            r = -r
        return r & ((1 << n) - 1)
    if a is UND or b is UND:
        return UND
    return mk('bvsdiv', n, a, b)


def srem(a, b, n):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise Violation('ub', 'division by zero')
        x, y = sg(a, n), sg(b, n)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & ((1 << n) - 1)
    if a is UND or b is UND:
        return UND
    return mk('bvsrem', n, a, b)


def shl(a, b, n):
    if type(a) is int and type(b) is int:
        return (a << b) & ((1 << n) - 1) if b < n else UND
    if a is UND or b is UND:
        return UND
    if isinstance(a, Mixed):
        return a << b
    if type(b) is int:
        return a << b
    return mk('bvshl', n, a, b)


def lshr(a, b, n):
    if type(a) is int and type(b) is int:
        return a >> b if b < n else UND
    if a is UND or b is UND:
        return UND
    if type(b) is int:
        return a >> b
    return mk('bvlshr', n, a, b)


def ashr(a, b, n):
    if type(a) is int and type(b) is int:
        return (sg(a, n) >> b) & ((1 << n) - 1) if b < n else UND
    if a is UND or b is UND:
        return UND
    return mk('bvashr', n, a, b)


def trunc(a, m, n):
    """m bits to n bits"""
    if a is UND:
        return UND
    if isinstance(a, Mixed):
        if n % 8 == 0:
            return norm_bytes(a.b[:n // 8])
        x = a.b[0]
        return UND if x is UND else terms.trunc(x, n)
    return terms.trunc(a, n)


def zext(a, n):
    if a is UND:
        return UND
    if isinstance(a, Mixed):
        return Mixed(a.b + [0] * (n // 8 - len(a.b)))
    return terms.zext(a, n)


def sext(a, m, n):
    if a is UND:
        return UND
    return terms.sext(a, m, n)


def ovf(op, a, b, n, signed):
    """add/sub/mul with overflow -> (value, flag)"""
    m = (1 << n) - 1
    if type(a) is int and type(b) is int:
        x, y = (sg(a, n), sg(b, n)) if signed else (a, b)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        if signed:
            f = not (-(1 << (n - 1)) <= r < (1 << (n - 1)))
        else:
            f = not (0 <= r <= m)
        return (r & m, f)
    if a is UND or b is UND:
        return (UND, UND)
    r = a + b if op == 'add' else a - b if op == 'sub' else a * b
    if op == 'sub' and not signed:
        return (r, terms.ult(a, b))
    if op == 'add' and not signed:
        return (r, terms.ult(r, b if type(a) is int else a))
    return (r, mk('ov_' + op + ('s' if signed else 'u'), 'B', a, b))


def sat(op, a, b, n, signed):
    if type(a) is int and type(b) is int:
        x, y = (sg(a, n), sg(b, n)) if signed else (a, b)
        r = x + y if op == 'add' else x - y
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        return max(lo, min(hi, r)) & ((1 << n) - 1)
    if a is UND or b is UND:
        return UND
    r, f = ovf(op, a, b, n, signed)
    if not signed:
        return selN(f, 0 if op == 'sub' else (1 << n) - 1, r, n)
    # signed: overflow direction by the sign of a
    neg = mk('bvslt', 'B', a, 0) if type(a) is not int else bool(a >> (n - 1))
    return selN(f, selN(neg, 1 << (n - 1), (1 << (n - 1)) - 1, n), r, n)


def minmax(k, a, b, n):
    if type(a) is int and type(b) is int:
        if k == 'umin':
            return min(a, b)
        if k == 'umax':
            return max(a, b)
        x, y = sg(a, n), sg(b, n)
        return (min(x, y) if k == 'smin' else max(x, y)) & ((1 << n) - 1)
    if a is UND or b is UND:
        return UND
    if k[0] == 'u':
        c = terms.ult(a, b)
    else:
        c = mk('bvslt', 'B', a, b)
    return selN(c, a, b, n) if k.endswith('min') else selN(c, b, a, n)


def threeway(a, b, n, signed, rn):
    """ucmp / scmp"""
    s = 1 << (n - 1) if signed else 0
    x, y = a ^ s, b ^ s
    if x == y:
        return 0
    return (1 << rn) - 1 if x < y else 1


def bit(a, i):
    return terms.trunc(lshr(a, i, a.s), 1)


def ctlz(a, n):
    if isinstance(a, BvT):
        r = n
        for i in range(n):
            r = selN(bit(a, i), n - 1 - i, r, n)
        return r
    a = conc(a)
    return n - a.bit_length()


def cttz(a, n):
    if isinstance(a, BvT):
        r = n
        for i in reversed(range(n)):
            r = selN(bit(a, i), i, r, n)
        return r
    a = conc(a)
    return n if a == 0 else (a & -a).bit_length() - 1


def ctpop(a):
    if isinstance(a, BvT):
        r = 0
        for i in range(a.s):
            r = (r + selN(bit(a, i), 1, 0, a.s)) & ((1 << a.s) - 1)
        return r
    return bin(conc(a)).count('1')


def iabs(a, n):
    if type(a) is int:
        return abs(sg(a, n)) & ((1 << n) - 1)
    return selN(mk('bvslt', 'B', a, 0), (0 - a) & ((1 << n) - 1), a, n)


def fsh(a, b, c, n, left):
    c = conc(c) % n
    if c == 0:
        return a if left else b
    if a is b and isinstance(a, BvT) and n == 64:
        # rotations only occur in hash functions: hash concrete values
        a = b = PATH[0].hashed(a)
    if left:
        return (shl(a, c, n) | lshr(b, n - c, n)) & ((1 << n) - 1)
    return (shl(a, n - c, n) | lshr(b, c, n)) & ((1 << n) - 1)


def bswap(a, n):
    a = conc(a)
    return int.from_bytes(a.to_bytes(n // 8, 'little'), 'big')


def bitrev(a, n):
    a = conc(a)
    return int(bin(a)[2:].zfill(n)[::-1], 2)


def load_relative(p, off):
    x = ldn(p + sg(off, 64), 4)
    return (p + sg(x, 32)) & M64


def vec_to_int(v, ew):
    """bitcast <n x iK> to an integer"""
    r = 0
    k = 0
    for x in v:
        if x is True:
            r |= 1 << k
        elif x is not False:
            if type(x) is int:
                r |= x << k
            elif x is UND:
                return UND
            else:
                x = terms.zext(x, ew) if isinstance(x, BoolT) else x
                x = conc(x)
                r |= x << k
        k += ew
    return r


def int_to_vec(v, n, ew):
    v = conc(v)
    m = (1 << ew) - 1
    if ew == 1:
        return tuple([bool((v >> i) & 1) for i in range(n)])
    return tuple([(v >> (i * ew)) & m for i in range(n)])


def to_bits(v, kind, n):
    """scalar or vector value -> integer of its bits"""
    if kind == 'd':
        return f2b(v)
    if kind == 'f':
        return f2b32(v)
    return v


def cstr(p, n):
    p = conc(p)
    n = conc(n)
    return bytes(ld1(p + i) for i in range(n)).decode('utf-8', 'replace')


def and_(a, c, n):
    """and with a constant that clears whole bytes"""
    if a is UND:
        return norm_bytes([UND if (c >> k) & 255 else 0 for k in range(0, n, 8)])
    return a & c


class Skip(Exception):
    pass
