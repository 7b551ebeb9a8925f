"""Cheap bounds of real terms: settles most sign questions without the solver.

A range is (lo, hi, lo is excluded, hi is excluded); None is unbounded.  Every
rule is a theorem about real numbers, so a verdict from here is as good as one
from the solver; no verdict means that the solver is asked."""
import math
from fractions import Fraction
import fl
from terms import T, mk

ANY = (None, None, False, False)


def trim(f, up):
    """a short fraction on the safe side"""
    if f is None or (f.numerator.bit_length() < 400 and f.denominator.bit_length() < 400):
        return f
    try:
        x = float(f)
        x = math.nextafter(x, math.inf if up else -math.inf)
        if math.isinf(x):
            return None
        return Fraction(x)
    except OverflowError:
        return None


def fix(lo, hi, lx, hx):
    l, h = trim(lo, False), trim(hi, True)
    if l is not None and l != lo:
        lx = True
    if h is not None and h != hi:
        hx = True
    return (l, h, lx and l is not None, hx and h is not None)


def add(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[1] is None or b[1] is None else a[1] + b[1]
    return fix(lo, hi, a[2] or b[2], a[3] or b[3])


def neg(a):
    return (None if a[1] is None else -a[1], None if a[0] is None else -a[0], a[3], a[2])


def nonneg(a):
    return a[0] is not None and a[0] >= 0


def positive(a):
    return a[0] is not None and (a[0] > 0 or (a[0] == 0 and a[2]))


def mul(a, b):
    if nonneg(a) and nonneg(b):
        lo = a[0] * b[0]
        lx = positive(a) and positive(b) if lo == 0 else a[2] or b[2]
        hi = None if a[1] is None or b[1] is None else a[1] * b[1]
        return fix(lo, hi, lx, False)
    if a[1] is not None and a[1] <= 0:
        return neg(mul(neg(a), b))
    if b[1] is not None and b[1] <= 0:
        return neg(mul(a, neg(b)))
    if None in a[:2] or None in b[:2]:
        return ANY
    p = [x * y for x in a[:2] for y in b[:2]]
    return fix(min(p), max(p), False, False)


def absolute(a):
    if nonneg(a):
        return a
    if a[1] is not None and a[1] <= 0:
        return neg(a)
    hi = None if None in a[:2] else max(-a[0], a[1])
    return (Fraction(0), hi, False, False)


def join(a, b):
    def low(x, y, xe, ye):
        if x is None or y is None:
            return None, False
        if x == y:
            return x, xe and ye
        return (x, xe) if x < y else (y, ye)
    lo, lx = low(a[0], b[0], a[2], b[2])
    n = neg(a), neg(b)
    hi, hx = low(n[0][0], n[1][0], n[0][2], n[1][2])
    return (lo, None if hi is None else -hi, lx, hx)


def root(f, up):
    """a bound of the square root of a fraction"""
    x = math.sqrt(f)
    for _ in range(3):
        x = math.nextafter(x, math.inf if up else 0.0)
    return Fraction(x)


def of(path, t):
    c = fl.const(t)
    if c is not None:
        c = Fraction(c)
        return (c, c, False, False)
    if not isinstance(t, T):
        return ANY
    memo = path.ranges
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = compute(path, t)
    return r


def compute(path, t):
    op, a = t.op, t.a
    if op == 'var':
        lo = hi = None
        lx = hx = False
        for k, lower, excl in path.facts.get(t.id, ()):
            if lower and (lo is None or k > lo or (k == lo and excl)):
                lo, lx = k, excl
            if not lower and (hi is None or k < hi or (k == hi and excl)):
                hi, hx = k, excl
        return (lo, hi, lx, hx)
    if op == 'fadd':
        return add(of(path, a[0]), of(path, a[1]))
    if op == 'fneg':
        return neg(of(path, a[0]))
    if op == 'fmul':
        # x * c * x is as good as a square
        fs, st, flip = {}, [t], False
        while st:
            x = st.pop()
            if isinstance(x, T) and x.op == 'fmul' and len(fs) < 12:
                st.extend(x.a)
            elif isinstance(x, T) and x.op == 'fneg':
                flip = not flip
                st.append(x.a[0])
            else:
                k = x.id if isinstance(x, T) else x
                fs[k] = (x, fs.get(k, (x, 0))[1] + 1)
        r = (Fraction(1), Fraction(1), False, False)
        for x, n in fs.values():
            y = of(path, x)
            z = absolute(y)
            for _ in range(n // 2):
                r = mul(r, mul(z, z))
            if n % 2:
                r = mul(r, y)
        return neg(r) if flip else r
    if op == 'fdiv':
        x, y = of(path, a[0]), of(path, a[1])
        if y[1] is not None and y[1] <= 0:
            x, y = neg(x), neg(y)
        if not nonneg(y):
            return ANY
        # the divisor is not zero
        inv = (Fraction(0) if y[1] is None else 1 / y[1] if y[1] > 0 else Fraction(0), None if y[0] == 0 else 1 / y[0], y[1] is None or y[3], False)
        return mul(x, inv)
    if op == 'fabs':
        return absolute(of(path, a[0]))
    if op == 'sqrt':
        x = of(path, a[0])
        if not nonneg(x):
            return (Fraction(0), None, False, False)
        lo = root(x[0], False) if 1e-250 < x[0] < 1e250 else Fraction(0)
        hi = root(x[1], True) if x[1] is not None and 1e-250 < x[1] < 1e250 else None
        return (lo, hi, x[2] if x[0] == 0 else lo == 0, False)
    if op == 'fite':
        return join(of(path, a[1]), of(path, a[2]))
    if op == 'exp':
        return (Fraction(0), None, True, False)
    if op == 'cos' or op == 'sin':
        return (Fraction(-1), Fraction(1), False, False)
    if op == 'ui2f':
        return (Fraction(0), None, False, False)
    return ANY


def less(path, x, y):
    """True / False if x < y is certain, else None"""
    a, b = of(path, x), of(path, y)
    if a[1] is not None and b[0] is not None and (a[1] < b[0] or (a[1] == b[0] and (a[3] or b[2]))):
        return True
    if a[0] is not None and b[1] is not None and a[0] >= b[1]:
        return False
    return None


def verdict(path, b):
    if b.op == 'not':
        r = verdict(path, b.a[0])
        return None if r is None else not r
    if b.op == 'flt':
        return less(path, *b.a)
    if b.op == 'feq':
        x, y = b.a
        p, q = less(path, x, y), less(path, y, x)
        if p is True or q is True:
            return False
    return None


def learn(path, b, v):
    """note a comparison of a variable with a constant"""
    if b.op != 'flt':
        return
    x, y = b.a
    for s, k, lower in ((x, y, False), (y, x, True)):
        if isinstance(s, T) and s.op == 'var':
            c = fl.const(k)
            if c is not None and not (type(c) is float and (math.isinf(c) or c != c)):
                # v: s < k or k < s; not v: s >= k or k >= s
                path.facts.setdefault(s.id, []).append((Fraction(c), lower if v else not lower, v))
                path.ranges.clear()
