"""Terms -> z3, numeric evaluation, and the equality prover."""
import math
import random
import struct
import time
from fractions import Fraction
import z3
import terms
import fl
from terms import T, BvT, BoolT, FT, mk, walk, vars_of, Unsupported, b_not
from fl import INF, NAN

STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'direct': 0, 'normalised': 0, 'slow': 0.0}


def qval(fr):
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def near32(x, e):
    """e is x rounded to single precision"""
    u = z3.Q(1, 1 << 23)
    t = z3.Q(1, 10 ** 44)
    return [z3.If(x >= 0, z3.And(e >= 0, e >= x - x * u - t, e <= x + x * u + t),
                  z3.And(e <= 0, e <= x - x * u + t, e >= x + x * u - t))]


class Conv:
    """term -> z3, one per mode; remembers side axioms per term"""

    def __init__(self, fp):
        self.fp = fp
        self.memo = {}
        self.ax = {}        # term id -> [axioms]
        self.ufs = {}
        self.keep = []

    def c(self, x, s):
        if not isinstance(x, T):
            if type(x) is bool:
                return z3.BoolVal(x)
            if type(x) is int:
                return z3.BitVecVal(x, s)
            if self.fp:
                return self.fpv(x)
            if x != x or x in (INF, -INF):
                raise Unsupported('non-finite constant in a real query')
            return qval(Fraction(x))
        return self.t(x)

    def fpv(self, x):
        if x != x:
            return z3.fpNaN(z3.Float64())
        if x == INF:
            return z3.fpPlusInfinity(z3.Float64())
        if x == -INF:
            return z3.fpMinusInfinity(z3.Float64())
        return z3.fpBVToFP(z3.BitVecVal(fl.f2b(x), 64), z3.Float64())

    def t(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r[1]
        for u in walk([t]):
            if u.id not in self.memo:
                self.memo[u.id] = (u, self.one(u))
        return self.memo[t.id][1]

    def uf(self, name, n):
        f = self.ufs.get(name)
        if f is None:
            f = self.ufs[name] = z3.Function('uf_' + name, *([z3.RealSort()] * (n + 1)))
        return f

    def one(self, t):
        op = t.op
        a = t.a
        s = t.s
        if op == 'var':
            if s == 'F':
                return z3.FP(a[0], z3.Float64()) if self.fp else z3.Real(a[0])
            if s == 'B':
                return z3.Bool(a[0])
            return z3.BitVec(a[0], s)
        if s == 'B':
            return self.boolop(t, op, a)
        if s == 'F':
            return self.fpop(t, op, a) if self.fp else self.realop(t, op, a)
        return self.bvop(t, op, a, s)

    def boolop(self, t, op, a):
        if op == 'not':
            return z3.Not(self.t(a[0]))
        if op == 'and':
            return z3.And(self.t(a[0]), self.t(a[1]))
        if op == 'or':
            return z3.Or(self.t(a[0]), self.t(a[1]))
        if op == 'xor':
            return z3.Xor(self.c(a[0], 'B'), self.c(a[1], 'B'))
        if op[:2] == 'bv':
            n = next(x.s for x in a if isinstance(x, T))
            x, y = self.c(a[0], n), self.c(a[1], n)
            if op == 'bveq':
                return x == y
            if op == 'bvult':
                return z3.ULT(x, y)
            if op == 'bvslt':
                return x < y
        if op[:3] == 'ov_':
            n = next(x.s for x in a if isinstance(x, T))
            x, y = self.c(a[0], n), self.c(a[1], n)
            signed = op[-1] == 's'
            k = op[3:6]
            ext = z3.SignExt if signed else z3.ZeroExt
            w = 2 * n
            xx, yy = ext(n, x), ext(n, y)
            r = xx + yy if k == 'add' else xx - yy if k == 'sub' else xx * yy
            lo = z3.Extract(n - 1, 0, r)
            return ext(n, lo) != r
        if op == 'feq':
            x, y = self.c(a[0], 'F'), self.c(a[1], 'F')
            return z3.fpEQ(x, y) if self.fp else x == y
        if op == 'flt':
            x, y = self.c(a[0], 'F'), self.c(a[1], 'F')
            return z3.fpLT(x, y) if self.fp else x < y
        if op == 'fle':
            x, y = self.c(a[0], 'F'), self.c(a[1], 'F')
            return z3.fpLEQ(x, y) if self.fp else x <= y
        if op == 'fnan':
            return z3.fpIsNaN(self.t(a[0]))
        raise Unsupported('bool op ' + op)

    def bvop(self, t, op, a, s):
        if op == 'bite':
            return z3.If(self.t(a[0]), self.c(a[1], s), self.c(a[2], s))
        if op == 'zext':
            return z3.ZeroExt(s - a[0].s, self.t(a[0]))
        if op == 'sext':
            return z3.SignExt(s - a[0].s, self.t(a[0]))
        if op == 'extract':
            return z3.Extract(a[1], a[2], self.t(a[0]))
        if op == 'concat':
            return z3.Concat(*[self.c(x, 8) for x in reversed(a)])
        if op == 'f2b':
            if self.fp:
                return z3.fpToIEEEBV(self.c(a[0], 'F'))
            # the bits of a real: its sign, never infinite, zero and only zero has no exponent
            v, x = z3.BitVec('f2b!%d' % t.id, 64), self.c(a[0], 'F')
            ex = z3.Extract(62, 52, v)
            self.ax[t.id] = [(z3.Extract(63, 63, v) == 1) == (x < 0), (v == 0) == (x == 0), (ex == 0) == (x == 0), ex != 2047]
            return v
        if op == 'f2b32':
            if self.fp:
                return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), self.c(a[0], 'F'), z3.Float32()))
            return z3.BitVec('f2b32!%d' % t.id, 32)
        if op in ('fp2si', 'fp2ui'):
            x = self.t(a[0])
            if op == 'fp2si':
                hi = z3.BitVecVal((1 << (s - 1)) - 1, s)
                lo = z3.BitVecVal(1 << (s - 1), s)
                return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, s),
                             z3.If(z3.fpGEQ(x, self.fpv(float(2 ** (s - 1)))), hi,
                                   z3.If(z3.fpLT(x, self.fpv(-float(2 ** (s - 1)))), lo,
                                         z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(s)))))
            hi = z3.BitVecVal((1 << s) - 1, s)
            return z3.If(z3.Or(z3.fpIsNaN(x), z3.fpLT(x, self.fpv(0.0))), z3.BitVecVal(0, s),
                         z3.If(z3.fpGEQ(x, self.fpv(float(2 ** s))), hi, z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(s))))
        x, y = self.c(a[0], s), self.c(a[1], s)
        if op == 'bvadd':
            return x + y
        if op == 'bvsub':
            return x - y
        if op == 'bvmul':
            return x * y
        if op == 'bvand':
            return x & y
        if op == 'bvor':
            return x | y
        if op == 'bvxor':
            return x ^ y
        if op == 'bvudiv':
            return z3.UDiv(x, y)
        if op == 'bvurem':
            return z3.URem(x, y)
        if op == 'bvsdiv':
            return x / y
        if op == 'bvsrem':
            return z3.SRem(x, y)
        if op == 'bvshl':
            return x << y
        if op == 'bvlshr':
            return z3.LShR(x, y)
        if op == 'bvashr':
            return x >> y
        raise Unsupported('bv op ' + op)

    def realop(self, t, op, a):
        if op == 'q':
            return qval(a[0])
        if op == 'fite':
            return z3.If(self.t(a[0]), self.c(a[1], 'F'), self.c(a[2], 'F'))
        x = self.c(a[0], 'F')
        if op == 'fneg':
            return -x
        if op == 'fabs':
            return z3.If(x >= 0, x, -x)
        if op == 'sqrt':
            v = z3.Real('sqrt!%d' % t.id)
            self.ax[t.id] = [v >= 0, v * v == x]
            return v
        if op in fl.UF1:
            e = self.uf(op, 1)(x)
            ax = []
            if op == 'exp':
                ax = [e > 0, z3.Implies(x <= 0, e <= 1), z3.Implies(x >= 0, e >= 1), e >= 1 + x]
            elif op == 'rnd32':
                ax = near32(x, e)
            elif op in ('cos', 'sin', 'tanh'):
                ax = [e >= -1, e <= 1]
            elif op == 'log':
                ax = [z3.Implies(x >= 1, e >= 0), z3.Implies(x <= 1, e <= 0), e <= x - 1]
            self.ax[t.id] = ax
            return e
        y = self.c(a[1], 'F')
        if op == 'fadd':
            return x + y
        if op == 'fmul':
            return x * y
        if op == 'fdiv':
            v = z3.Real('div!%d' % t.id)
            self.ax[t.id] = [v * y == x]
            return v
        if op == 'fmax':
            return z3.If(x >= y, x, y)
        if op == 'fmin':
            return z3.If(x <= y, x, y)
        raise Unsupported('real op ' + op)

    def fpop(self, t, op, a):
        rm = z3.RNE()
        if op == 'fite':
            return z3.If(self.t(a[0]), self.c(a[1], 'F'), self.c(a[2], 'F'))
        if op == 'frnd':
            m = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'away': z3.RNA(), 'even': z3.RNE()}[a[0]]
            return z3.fpRoundToIntegral(m, self.t(a[1]))
        if op == 'b2f':
            return z3.fpBVToFP(self.t(a[0]), z3.Float64())
        if op == 'ui2f':
            return z3.fpUnsignedToFP(rm, self.t(a[0]), z3.Float64())
        if op == 'si2f':
            return z3.fpSignedToFP(rm, self.t(a[0]), z3.Float64())
        x = self.c(a[0], 'F')
        if op == 'fneg':
            return z3.fpNeg(x)
        if op == 'fabs':
            return z3.fpAbs(x)
        if op == 'sqrt':
            return z3.fpSqrt(rm, x)
        if op == 'rnd32':
            return z3.fpFPToFP(rm, z3.fpFPToFP(rm, x, z3.Float32()), z3.Float64())
        y = self.c(a[1], 'F')
        if op == 'fadd':
            return z3.fpAdd(rm, x, y)
        if op == 'fsub':
            return z3.fpSub(rm, x, y)
        if op == 'fmul':
            return z3.fpMul(rm, x, y)
        if op == 'fdiv':
            return z3.fpDiv(rm, x, y)
        raise Unsupported('fp op ' + op)

    def axioms(self, ts):
        out = []
        if self.fp:
            return out
        exps = {}
        bits = []
        for u in walk(ts):
            if u.id in self.ax:
                out.extend(self.ax[u.id])
            if u.op == 'f2b':
                bits.append(u)
            if u.op in ('exp', 'log'):
                exps.setdefault(u.op, []).append(u)
        if len(bits) <= 12:
            # bit patterns are ordered like the numbers they stand for
            ks = [(self.c(u.a[0], 'F'), self.t(u)) for u in bits]
            ks = [(x, v, v ^ z3.LShR(v >> 63, 1)) for x, v in ks]
            for i, (x, v, k) in enumerate(ks):
                for y, w, l in ks[i + 1:]:
                    out += [(k < l) == (x < y), (v == w) == (x == y)]
        for op, us in exps.items():
            if len(us) <= 6:
                for i, u in enumerate(us):
                    for v in us[i + 1:]:
                        x, y = self.c(u.a[0], 'F'), self.c(v.a[0], 'F')
                        e, f = self.t(u), self.t(v)
                        out.append(z3.Implies(x < y, e < f))
                        out.append(z3.Implies(x > y, e > f))
        return out


CONV = {}


def conv():
    c = CONV.get(fl.MODE[0])
    if c is None:
        c = CONV[fl.MODE[0]] = Conv(fl.isfp())
    return c


class Model:
    """concrete values for named variables"""
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = dict(v or {})


def z3val(m, var, s):
    e = m.eval(var, model_completion=True)
    if s == 'F':
        if fl.isfp():
            b = z3.simplify(z3.fpToIEEEBV(e))
            try:
                return fl.b2f(b.as_long())
            except Exception:
                return NAN
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_algebraic_value(e):
            r = e.approx(40)
            return Fraction(r.numerator_as_long(), r.denominator_as_long())
        return Fraction(0)
    if s == 'B':
        return z3.is_true(e)
    return e.as_long()


VARSORT = {}


class OutOfTime(BaseException):
    pass


DEADLINE = [float('inf')]


def query(cons, timeout=4000, extra=None, kind='q'):
    """cons: list of BoolT (or True).  -> ('sat', {var: value}) | ('unsat', None) | ('unknown', None)"""
    c = conv()
    ts = []
    for x in cons:
        if x is True:
            continue
        if x is False:
            return 'unsat', None
        ts.append(x)
    t0 = time.time()
    if t0 > DEADLINE[0]:
        raise OutOfTime()
    names = set()
    for x in ts:
        names |= vars_of(x)
    es = [c.t(x) for x in ts] + c.axioms(ts)
    if extra:
        es += extra
    r, m = solve(es, timeout)
    STATS['queries'] += 1
    STATS[r] += 1
    STATS['time'] += time.time() - t0
    if r != 'unknown':
        STATS['slow'] = max(STATS['slow'], time.time() - t0)
    if r == 'sat':
        vals = {}
        for n in names:
            s = VARSORT[n]
            v = z3.Real(n) if s == 'F' and not fl.isfp() else z3.FP(n, z3.Float64()) if s == 'F' else z3.Bool(n) if s == 'B' else z3.BitVec(n, s)
            vals[n] = z3val(m, v, s)
        return r, vals
    return r, None


def solve(es, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.add(es)
    r = s.check()
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        return 'unsat', None
    if not fl.isfp():
        try:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', int(timeout))
            s.add(es)
            r = s.check()
            if r == z3.sat:
                return 'sat', s.model()
            if r == z3.unsat:
                return 'unsat', None
        except z3.Z3Exception:
            pass
    return 'unknown', None


# ---------------------------------------------------------------- evaluation
class NoVal(Exception):
    pass


def num(x):
    if type(x) is float and not fl.isfp() and x == x and x not in (INF, -INF):
        return Fraction(x)
    return x


def evalt(t, model, cache):
    """value of a term; Fractions (exact) or floats in real mode"""
    if not isinstance(t, T):
        return num(t)
    r = cache.get(t.id)
    if r is not None:
        return r[1]
    st = [t]
    while st:
        u = st[-1]
        if u.id in cache:
            st.pop()
            continue
        more = [x for x in u.a if isinstance(x, T) and x.id not in cache]
        if more:
            st.extend(more)
            continue
        st.pop()
        a = [cache[x.id][1] if isinstance(x, T) else num(x) for x in u.a]
        try:
            v = ev1(u, a, model)
        except OverflowError:
            v = NAN
        cache[u.id] = (u, v)
    return cache[t.id][1]


def fr2f(x):
    if type(x) is Fraction:
        try:
            return float(x)
        except OverflowError:
            return INF if x > 0 else -INF
    return x


def approx_eq(x, y):
    if type(x) is Fraction and type(y) is Fraction:
        return x == y
    x, y = fr2f(x), fr2f(y)
    return x == y or abs(x - y) <= 1e-12 * max(1e-3, abs(x), abs(y))


def mixed(x, y):
    """make both exact or both float"""
    if type(x) is Fraction and type(y) is Fraction:
        return x, y
    return fr2f(x), fr2f(y)


def ev1(u, a, model):
    op = u.op
    s = u.s
    if op == 'var':
        v = model.get(a[0])
        if v is None:
            raise KeyError(a[0])
        return v
    if op == 'q':
        return a[0]
    if op == 'not':
        return not a[0]
    if op == 'and':
        return a[0] and a[1]
    if op == 'or':
        return a[0] or a[1]
    if op == 'xor':
        return a[0] != a[1]
    if op in ('bite', 'fite'):
        return a[1] if a[0] else a[2]
    if s == 'B':
        if op == 'feq':
            return a[0] == a[1] if fl.isfp() else approx_eq(a[0], a[1])
        if op == 'flt':
            if not fl.isfp() and approx_eq(a[0], a[1]):
                return False
            return a[0] < a[1]
        if op == 'fle':
            return a[0] <= a[1]
        if op == 'fnan':
            return a[0] != a[0]
        n = next(x.s for x in u.a if isinstance(x, T))
        if op == 'bveq':
            return a[0] == a[1]
        if op == 'bvult':
            return a[0] < a[1]
        sg = lambda x: x - (1 << n) if x >> (n - 1) else x
        if op == 'bvslt':
            return sg(a[0]) < sg(a[1])
        if op[:3] == 'ov_':
            x, y = (sg(a[0]), sg(a[1])) if op[-1] == 's' else (a[0], a[1])
            k = op[3:6]
            r = x + y if k == 'add' else x - y if k == 'sub' else x * y
            return not (-(1 << (n - 1)) <= r < (1 << (n - 1))) if op[-1] == 's' else not (0 <= r < (1 << n))
        raise Unsupported('eval ' + op)
    if s == 'F':
        return evf(u, op, a)
    m = (1 << s) - 1
    if op == 'zext':
        return a[0]
    if op == 'sext':
        n = u.a[0].s
        return (a[0] - (1 << n) if a[0] >> (n - 1) else a[0]) & m
    if op == 'extract':
        return (a[0] >> a[2]) & m
    if op == 'concat':
        return int.from_bytes(bytes(a), 'little')
    if op == 'f2b':
        return struct.unpack('<Q', struct.pack('<d', fr2f(a[0])))[0]
    if op == 'f2b32':
        return struct.unpack('<I', struct.pack('<f', fr2f(a[0])))[0]
    if op == 'fp2si':
        x = a[0]
        if x != x:
            return 0
        lo, hi = -(1 << (s - 1)), (1 << (s - 1)) - 1
        return (hi if x == INF else lo if x == -INF else max(lo, min(hi, int(x)))) & m
    if op == 'fp2ui':
        x = a[0]
        if x != x:
            return 0
        return m if x == INF else 0 if x <= 0 else min(m, int(x))
    x, y = a
    sg = lambda x: x - (1 << s) if x >> (s - 1) else x
    if op == 'bvadd':
        return (x + y) & m
    if op == 'bvsub':
        return (x - y) & m
    if op == 'bvmul':
        return (x * y) & m
    if op == 'bvand':
        return x & y
    if op == 'bvor':
        return x | y
    if op == 'bvxor':
        return x ^ y
    if op == 'bvudiv':
        return x // y if y else m
    if op == 'bvurem':
        return x % y if y else x
    if op in ('bvsdiv', 'bvsrem'):
        p, q_ = sg(x), sg(y)
        if q_ == 0:
            return (1 if p < 0 else m) if op == 'bvsdiv' else x
        d = abs(p) // abs(q_)
        if (p < 0) != (q_ < 0):
            d = -d
        return d & m if op == 'bvsdiv' else (p - d * q_) & m
    if op == 'bvshl':
        return (x << y) & m if y < s else 0
    if op == 'bvlshr':
        return x >> y if y < s else 0
    if op == 'bvashr':
        return (sg(x) >> min(y, s)) & m
    raise Unsupported('eval ' + op)


def evf(u, op, a):
    if fl.isfp():
        if op == 'frnd':
            x = a[1]
            if x != x or x in (INF, -INF):
                return x
            return {'floor': fl.ffloor, 'ceil': fl.fceil, 'trunc': fl.ftrunc, 'away': fl.fround, 'even': fl.frint}[a[0]](x)
        if op == 'b2f':
            return struct.unpack('<d', struct.pack('<Q', a[0]))[0]
        if op == 'ui2f':
            return float(a[0])
        if op == 'si2f':
            n = u.a[0].s
            return float(a[0] - (1 << n) if a[0] >> (n - 1) else a[0])
        if op == 'fneg':
            return -a[0]
        if op == 'fabs':
            return abs(a[0])
        if op == 'sqrt':
            return fl.fsqrt(a[0])
        if op == 'rnd32':
            return fl.to32(a[0])
        x, y = a
        if op == 'fadd':
            return x + y
        if op == 'fsub':
            return x - y
        if op == 'fmul':
            return x * y
        if op == 'fdiv':
            return fl.pydiv(x, y)
        raise Unsupported('eval ' + op)
    if op == 'fneg':
        return -a[0]
    if op == 'fabs':
        return abs(a[0])
    if op == 'sqrt':
        x = a[0]
        if type(x) is Fraction:
            if x < 0:
                return NAN
            r = fl.isqrt_frac(x)
            return r if r is not None else math.sqrt(x)
        return math.sqrt(x) if x >= 0 else NAN
    if op == 'rnd32':
        x = fl.to32(fr2f(a[0]))
        return Fraction(x) if x - x == 0 else x
    if op in fl.UF1:
        return fl.pyuf(op, fr2f(a[0]))
    x, y = mixed(*a)
    if op == 'fadd':
        return x + y
    if op == 'fmul':
        return x * y
    if op == 'fdiv':
        if y == 0:
            return NAN
        return x / y
    if op == 'fmax':
        return x if x >= y else y
    if op == 'fmin':
        return x if x <= y else y
    raise Unsupported('eval ' + op)


# ---------------------------------------------------------------- polynomials
# A polynomial is a dict {monomial: Fraction}; a monomial a sorted tuple of
# (atom, exponent).  Atoms are integers; ATOM[a] tells what they stand for.
ATOM = {}
ATOMK = {}
LIMIT_MONOS = 6000


class TooBig(Exception):
    pass


def atom(kind, *key):
    k = (kind,) + key
    a = ATOMK.get(k)
    if a is None:
        a = ATOMK[k] = len(ATOMK) + 1
        ATOM[a] = k
    return a


ONE = ()


def pconst(c):
    return {ONE: c} if c != 0 else {}


def patom(a, e=1):
    return {((a, e),): Fraction(1)}


def padd(p, q_):
    if len(p) < len(q_):
        p, q_ = q_, p
    r = dict(p)
    for m, c in q_.items():
        x = r.get(m, 0) + c
        if x == 0:
            del r[m]
        else:
            r[m] = x
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k != 0 else {}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        x = d.get(a, 0) + e
        if x == 0:
            del d[a]
        else:
            d[a] = x
    return tuple(sorted(d.items()))


def pmul(p, q_):
    if len(p) * len(q_) > LIMIT_MONOS * 4:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q_.items():
            k = mmul(m, n)
            x = r.get(k, 0) + c * d
            r[k] = x
    r = {m: c for m, c in r.items() if c != 0}
    if len(r) > LIMIT_MONOS:
        raise TooBig()
    return reduce(r)


def ppow(p, n):
    r = pconst(Fraction(1))
    for _ in range(n):
        r = pmul(r, p)
    return r


def reduce(p):
    """sqrt(u)^2 -> u, inv(p)*... left alone"""
    while True:
        hit = None
        for m in p:
            for a, e in m:
                if ATOM[a][0] == 'sqrt' and (e >= 2 or e < 0):
                    hit = (m, a, e)
                    break
            if hit:
                break
        if not hit:
            return p
        out = {}
        for m, c in p.items():
            for a, e in m:
                if ATOM[a][0] == 'sqrt' and (e >= 2 or e < 0):
                    break
            else:
                x = out.get(m, 0) + c
                if x == 0:
                    out.pop(m, None)
                else:
                    out[m] = x
                continue
            arg = ATOM[a][2]
            rest = tuple(x for x in m if x[0] != a)
            k = e // 2
            f = {rest: c}
            if e % 2:
                f = {mmul(rest, ((a, 1),)): c}
            f = rawmul(f, ppow(arg, k) if k >= 0 else ppow(pinv(arg), -k))
            out = padd(out, f)
        p = out


def rawmul(p, q_):
    r = {}
    for m, c in p.items():
        for n, d in q_.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c != 0}


def pkey(p):
    return tuple(sorted(p.items()))


def lead(p):
    return max(p)


def content(p):
    """p = c * m * q with q monic and without a common monomial factor"""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
    # atoms with negative exponents only in some monomials
    allneg = {}
    for m in ms:
        for a, e in m:
            if e < 0:
                allneg[a] = min(allneg.get(a, 0), e)
    for a, e in allneg.items():
        common[a] = min(common.get(a, 0), e)
    common = {a: e for a, e in common.items() if e != 0 and ATOM[a][0] != 'sqrt'}
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in cm)
    q_ = {mmul(m, inv): c for m, c in p.items()}
    c = q_[lead(q_)]
    return c, cm, {m: x / c for m, x in q_.items()}


def pinv(p):
    if not p:
        raise ZeroDivisionError
    c, cm, q_ = content(p)
    r = {tuple((a, -e) for a, e in cm): 1 / c}
    # invert inverse atoms back
    r = fixinv(r)
    if len(q_) == 1 and ONE in q_:
        return reduce(r)
    if len(q_) == 1:
        m = next(iter(q_))
        return reduce(rawmul(r, fixinv({tuple((a, -e) for a, e in m): Fraction(1)})))
    return reduce(rawmul(r, patom(atom('inv', pkey(q_), Frozen(q_)))))


class Frozen(dict):
    __slots__ = ()

    def __hash__(self):
        return 0

    def __eq__(self, o):
        return True


def fixinv(p):
    """inv(q)^-k -> q^k"""
    out = {}
    for m, c in p.items():
        f = {tuple(x for x in m if not (ATOM[x[0]][0] == 'inv' and x[1] < 0)): c}
        for a, e in m:
            if ATOM[a][0] == 'inv' and e < 0:
                f = rawmul(f, ppow(ATOM[a][2], -e))
        out = padd(out, f)
    return out


def psqrt(p):
    if not p:
        return {}
    c, cm, q_ = content(p)
    if c < 0:
        c, q_ = Fraction(1), p
        cm = ()
    out = {}
    f = {}
    outm = {}
    inm = []
    for a, e in cm:
        if e % 2 == 0:
            outm[a] = e // 2
        else:
            inm.append((a, e))
    r = pconst(Fraction(1))
    for a, e in outm.items():
        # sqrt(a^2) = |a|; inverse, exp and sqrt atoms are kept as |.| of themselves
        r = rawmul(r, ppow(pabs(patom(a)), e) if e > 0 else ppow(pinv(pabs(patom(a))), -e))
    rc = fl.isqrt_frac(c)
    if rc is not None:
        r = pscale(r, rc)
    else:
        n = c.numerator * c.denominator
        r = rawmul(r, patom(atom('sqrt', pkey(pconst(Fraction(n))), Frozen(pconst(Fraction(n))))))
        r = pscale(r, Fraction(1, c.denominator))
    inner = rawmul({tuple(inm): Fraction(1)}, q_)
    if inner == {ONE: Fraction(1)}:
        return reduce(r)
    return reduce(rawmul(r, patom(atom('sqrt', pkey(inner), Frozen(inner)))))


def pabs(p):
    if not p:
        return {}
    if len(p) == 1:
        m, c = next(iter(p.items()))
        r = pconst(abs(c))
        for a, e in m:
            k = ATOM[a][0]
            if e % 2 == 0 or k in ('sqrt', 'exp', 'abs', 'cosh'):
                r = rawmul(r, {((a, e),): Fraction(1)})
            else:
                b = atom('abs', pkey(patom(a)), Frozen(patom(a)))
                r = rawmul(r, {((b, e),): Fraction(1)})
        return r
    c, cm, q_ = content(p)
    r = pabs({cm: c})
    return rawmul(r, patom(atom('abs', pkey(q_), Frozen(q_))))


class Norm:
    def __init__(self, env):
        self.env = env      # condition term id -> bool
        self.memo = {}

    def n(self, t):
        if not isinstance(t, T):
            return pconst(Fraction(t))
        r = self.memo.get(t.id)
        if r is not None:
            return r
        for u in walk([t]):
            if u.s == 'F' and u.id not in self.memo:
                self.memo[u.id] = self.one(u)
        return self.memo[t.id]

    def g(self, x):
        return self.memo[x.id] if isinstance(x, T) else pconst(Fraction(x))

    def one(self, u):
        op, a = u.op, u.a
        if op == 'var':
            return patom(atom('var', a[0]))
        if op == 'q':
            return pconst(a[0])
        if op == 'fite':
            v = self.env.get(a[0].id)
            p, q_ = self.g(a[1]), self.g(a[2])
            if v is not None:
                return p if v else q_
            if p == q_:
                return p
            return patom(atom('ite', a[0].id, pkey(p), pkey(q_), Frozen(p), Frozen(q_)))
        x = self.g(a[0])
        if op == 'fneg':
            return pneg(x)
        if op == 'sqrt':
            return psqrt(x)
        if op == 'fabs':
            v = self.env.get(abscond(u).id) if isinstance(abscond(u), T) else None
            if v is not None:
                return pneg(x) if v else x
            return pabs(x)
        if op in fl.UF1:
            if op in fl.EVEN and x:
                if x[lead(x)] < 0:
                    x = pneg(x)
            if op in fl.ODD and x and x[lead(x)] < 0:
                y = pneg(x)
                return pneg(patom(atom(op, pkey(y), Frozen(y))))
            if op == 'exp' and not x:
                return pconst(Fraction(1))
            if op == 'exp' and x[lead(x)] > 0:
                y = pneg(x)                     # exp(y) = 1 / exp(-y): one form for both
                return pinv(patom(atom(op, pkey(y), Frozen(y))))
            if op == 'cos' and not x:
                return pconst(Fraction(1))
            if op == 'log' and x == {ONE: Fraction(1)}:
                return {}
            return patom(atom(op, pkey(x), Frozen(x)))
        y = self.g(a[1])
        if op == 'fadd':
            return padd(x, y)
        if op == 'fmul':
            return pmul(x, y)
        if op == 'fdiv':
            return pmul(x, pinv(y))
        if op in ('fmax', 'fmin'):
            c = maxcond(u)
            v = self.env.get(c.id) if isinstance(c, T) else c
            if v is not None:
                return (y if v else x) if op == 'fmax' else (x if v else y)
            if x == y:
                return x
            kx, ky = pkey(x), pkey(y)
            if kx > ky:
                x, y, kx, ky = y, x, ky, kx
            return patom(atom(op, kx, ky, Frozen(x), Frozen(y)))
        raise Unsupported('normalise ' + op)


def abscond(u):
    return fl.flt(u.a[0], 0.0)


def maxcond(u):
    return fl.flt(u.a[0], u.a[1])


def clear_inv(p):
    """multiply by the denominators so that no inverse or negative power remains"""
    for _ in range(40):
        tgt = None
        for m in p:
            for a, e in m:
                if e < 0 or ATOM[a][0] == 'inv':
                    tgt = a
                    break
            if tgt:
                break
        if tgt is None:
            return p
        k = max((abs(dict(m).get(tgt, 0)) if (ATOM[tgt][0] == 'inv' or dict(m).get(tgt, 0) < 0) else 0) for m in p)
        out = {}
        if ATOM[tgt][0] == 'inv':
            den = ATOM[tgt][2]
            pw = [pconst(Fraction(1))]
            for _ in range(k):
                pw.append(pmul(pw[-1], den))
            for m, c in p.items():
                e = dict(m).get(tgt, 0)
                rest = tuple(x for x in m if x[0] != tgt)
                out = padd(out, rawmul({rest: c}, pw[k - e]))
                if len(out) > LIMIT_MONOS:
                    raise TooBig()
        else:
            sh = ((tgt, k),)
            for m, c in p.items():
                out[mmul(m, sh)] = c
        p = reduce(out)
    return p


def poly_z3(p, C, defs, seen):
    """polynomial -> z3 real expression, collecting atom definitions"""
    ts = []
    for m, c in sorted(p.items()):
        e = qval(c)
        for a, k in m:
            x = atom_z3(a, C, defs, seen)
            for _ in range(abs(k)):
                e = e * x if k > 0 else e / x
        ts.append(e)
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def atom_z3(a, C, defs, seen):
    if a in seen:
        return seen[a]
    d = ATOM[a]
    k = d[0]
    if k == 'var':
        r = z3.Real(d[1])
        seen[a] = r
        return r
    r = z3.Real('atom!%d' % a)
    seen[a] = r
    if k == 'sqrt':
        x = poly_z3(d[2], C, defs, seen)
        defs += [r >= 0, r * r == x]
    elif k == 'inv':
        x = poly_z3(d[2], C, defs, seen)
        defs += [r * x == 1]
    elif k == 'abs':
        x = poly_z3(d[2], C, defs, seen)
        defs += [r == z3.If(x >= 0, x, -x)]
    elif k in ('fmax', 'fmin'):
        x, y = poly_z3(d[3], C, defs, seen), poly_z3(d[4], C, defs, seen)
        defs += [r == (z3.If(x >= y, x, y) if k == 'fmax' else z3.If(x <= y, x, y))]
    elif k in fl.UF1:
        x = poly_z3(d[2], C, defs, seen)
        defs += [r == C.uf(k, 1)(x)]
        if k == 'exp':
            defs += [r > 0]
        if k == 'rnd32':
            defs += near32(x, r)
        if k in ('cos', 'sin'):
            defs += [r <= 1, r >= -1]
    else:
        raise Unsupported('atom ' + k)
    return r


class Prover:
    """decides  pc |= a = b  in real mode"""
    lost = 0        # direct attempts without an answer in a row

    def __init__(self, pc, slicer, deadline):
        self.pc = pc
        self.slicer = slicer
        self.cases = 0
        self.deadline = deadline

    def prove_eq(self, a, b):
        """-> ('unsat', None) proven | ('sat', model) | ('unknown', reason)"""
        d = mk('feq', 'B', *fl.ford(a, b))
        neq = b_not(d)
        sl = self.slicer(neq)
        # 1. the solver on the terms as they are
        r, m = query(sl + [neq], timeout=250 if self.lost < 4 else 40)
        if r == 'unsat':
            STATS['direct'] += 1
            Prover.lost = 0
            return r, None
        Prover.lost += 1
        if r == 'sat':
            if any(u.op in fl.UF1 for u in walk([a, b])):
                # the solver does not know that cos is even, for one
                x, y = self.split(a, b, {}, [])
                if x == 'unsat':
                    return x, y
            return r, m
        # 2. case split on the conditions inside the terms, algebraic normal form, then the solver
        return self.split(a, b, {}, [])

    def conds(self, a, b, env):
        out = []
        for u in walk([a, b]):
            if u.op == 'fite':
                c = u.a[0]
            elif u.op == 'fabs':
                c = abscond(u)
            elif u.op in ('fmax', 'fmin'):
                c = maxcond(u)
            else:
                continue
            if isinstance(c, T) and c.id not in env:
                out.append(c)
        return out

    def split(self, a, b, env, extra):
        self.cases += 1
        if self.cases > 300 or time.time() > self.deadline:
            return 'unknown', 'case limit'
        try:
            nm = Norm(env)
            r = padd(nm.n(a), pneg(nm.n(b)))
            if r:
                r = clear_inv(r)
        except TooBig:
            r = None
        except ZeroDivisionError:
            r = None
        if r is not None and not r:
            return self.final(r, extra)
        cs = self.conds(a, b, env)
        if cs:
            c = cs[0]
            res = 'unsat'
            for v in (True, False):
                t = c if v else b_not(c)
                sl = self.slicer(t)
                q_, m = query(sl + extra + [t], timeout=1500)
                if q_ == 'unsat':
                    continue
                x, y = self.split(a, b, dict(env, **{}) | {c.id: v}, extra + [t])
                if x == 'sat':
                    return x, y
                if x == 'unknown':
                    res = 'unknown'
            return res, None
        if r is None:
            # polynomials too large: leave it to the solver
            d = b_not(mk('feq', 'B', *fl.ford(a, b)))
            q_, m = query(self.slicer(d) + extra + [d], timeout=15000)
            return q_, m
        return self.final(r, extra, a, b)

    def final(self, r, extra, a=None, b=None):
        C = conv()
        defs, seen = [], {}
        e = poly_z3(r, C, defs, seen)
        t0 = time.time()
        cons = list(extra)
        es = defs + [e != 0]
        names = set(d[1] for d in (ATOM[x] for x in seen) if d[0] == 'var')
        if r:
            neq = b_not(mk('feq', 'B', *fl.ford(a, b)))
            cons = self.slicer(neq) + extra
            for x in cons:
                names |= vars_of(x)
            es += [C.t(x) for x in cons] + C.axioms(cons)
        q_, m = solve(es, 8000)
        STATS['queries'] += 1
        STATS[q_] += 1
        STATS['normalised'] += 1
        STATS['time'] += time.time() - t0
        if q_ == 'sat':
            vals = {}
            for n in names:
                vals[n] = z3val(m, z3.Real(n) if VARSORT[n] == 'F' else z3.BitVec(n, VARSORT[n]), VARSORT[n])
            return 'sat', vals
        return q_, None
