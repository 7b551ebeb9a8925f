"""Functions of the program that the engine does not execute from their IR."""
import re
import runtime as R
import fl
import terms
from terms import T, mk, Unsupported
from fl import UND

PATH = fl.PATH


def location(p):
    """render a core::panic::Location"""
    try:
        ptr = R.ld8(p)
        n = R.ld8(p + 8)
        line = R.ldn(p + 16, 4)
        if type(n) is int and n < 400 and type(line) is int:
            s = R.cstr(ptr, n - 1 if n and R.ld1(ptr + n - 1) == 0 else n)
            return '%s:%d' % (s, line)
    except Exception:
        pass
    return '?'


def panic(*a):
    loc = '?'
    for x in reversed(a):
        if type(x) is int and x >> 32:
            loc = location(x)
            if loc != '?':
                break
    PATH[0].panics.append(loc)
    e = R.Unwind(loc)
    raise e


def abort(*a):
    raise R.Violation('abort', 'the process aborts (%s)' % (PATH[0].panics[-1] if PATH[0].panics else 'no panic location'))


def random_keys():
    return PATH[0].hash_keys


def noop(*a):
    return None


def trap(*a):
    raise R.Violation('abort', 'trap')


def assume_(c):
    if c is False:
        raise R.Violation('ub', 'violated compiler assumption')


def landing(e):
    i = (1 << 40) + len(R.EXC) + 1
    R.EXC[i] = e
    return (i, 0)


def insval(x, y, path):
    i = path[0]
    l = list(x)
    l[i] = y if len(path) == 1 else insval(x[i], y, path[1:])
    return tuple(l)


def shuffle(x, y, m):
    z = tuple(x) + tuple(y) if y is not UND else tuple(x)
    return tuple([UND if (i is UND or i >= len(z)) else z[i] for i in m])


def ldv16(p):
    try:
        o = R.OBJ[p >> 32]
        off = p & 0xffffffff
        if off + 16 <= o.size and (o.mask is None or o.mask[off:off + 16] == R.Z[16]):
            return tuple(o.data[off:off + 16])
    except (KeyError, TypeError):
        pass
    return tuple([R.ld1(p + i) for i in range(16)])


# ---------------------------------------------------------------- harness API
def sym_f64():
    return PATH[0].new_f64(None, None)


def sym_f64_in(lo, hi):
    return PATH[0].new_f64(lo, hi)


def sym_u64():
    return PATH[0].new_u64()


def sym_choose(n):
    return PATH[0].choose(R.conc(n))


def sym_assume(c):
    PATH[0].assume(boolarg(c))


def boolarg(c):
    if c is UND:
        raise fl.UndefUse('uninitialised condition')
    if isinstance(c, terms.BvT):
        return terms.trunc(c, 1) if c.s == 1 else c != 0
    if type(c) is int:
        return c != 0
    return c


def sym_assert(c, p, n):
    PATH[0].check(boolarg(c), R.cstr(p, n))


def sym_assert_eq(a, b, p, n):
    PATH[0].check_eq(a, b, R.cstr(p, n))


def sym_assert_le(a, b, p, n):
    PATH[0].check_le(a, b, R.cstr(p, n))


def sym_catch(f, d):
    g = PATH[0].gen
    np = len(PATH[0].panics)
    try:
        g.callptr(f, d)
    except R.Unwind:
        del PATH[0].panics[np:]
        return True
    return False


def sym_mode():
    return 1 if fl.isfp() else 0


def sym_tier():
    return PATH[0].tier


TABLE = {
    'malloc': R.malloc, 'free': R.free, 'realloc': R.realloc, 'calloc': R.calloc,
    'posix_memalign': R.posix_memalign, 'memcmp': R.memcmp, 'bcmp': R.memcmp, 'strlen': R.strlen,
    'memcpy': lambda d, s, n: (R.memcpy(d, s, n), d)[1], 'memmove': lambda d, s, n: (R.memcpy(d, s, n), d)[1],
    'memset': lambda d, v, n: (R.memset(d, v & 255, n), d)[1],
    'abort': abort, '__cxa_thread_atexit_impl': lambda f, p, d: 0,
    'sym_f64': sym_f64, 'sym_f64_in': sym_f64_in, 'sym_u64': sym_u64, 'sym_choose': sym_choose,
    'sym_assume': sym_assume, 'sym_assert': sym_assert, 'sym_assert_eq': sym_assert_eq,
    'sym_assert_le': sym_assert_le, 'sym_catch': sym_catch, 'sym_mode': sym_mode, 'sym_tier': sym_tier,
    'pow': fl.fpow, 'hypot': fl.fhypot, 'fmod': fl.frem, 'fma': fl.fma,
    'floor': fl.ffloor, 'ceil': fl.fceil, 'trunc': fl.ftrunc, 'round': fl.fround, 'sqrt': fl.fsqrt,
    'fmax': fl.fmax, 'fmin': fl.fmin, 'fabs': fl.fabs,
}
for _n in fl.UF1:
    if _n != 'rnd32':
        TABLE[_n] = (lambda n: lambda x: fl.uf(n, x))(_n)
for _n in list(TABLE):
    if _n in fl.UF1 or _n in ('pow', 'hypot', 'fmod', 'fma', 'floor', 'ceil', 'trunc', 'round', 'sqrt', 'fmax', 'fmin', 'fabs'):
        TABLE[_n + 'f'] = (lambda f: lambda *x: fl.rnd32(f(*x)))(TABLE[_n])

RULES = [
    (re.compile(r'9panicking\d+panic_(nounwind|cannot_unwind|in_cleanup|nounwind_fmt|nounwind_nobacktrace|null_pointer|misaligned|null_reference)'), abort),
    (re.compile(r'9panicking9panic_fmt'), panic),
    (re.compile(r'17rust_begin_unwind|10rust_panic|15begin_panic_handler|11begin_panic|13resume_unwind|23panic_with_hook|20rust_panic_with_hook'), panic),
    (re.compile(r'19hashmap_random_keys'), random_keys),
    (re.compile(r'18handle_alloc_error|8rust_oom'), abort),
    (re.compile(r'__rust_no_alloc_shim_is_unstable'), noop),
]


def display(ptr, _f):
    # an integer nobody knows: writing it digit by digit would take a path for
    # every length, so that messages say nothing of such integers
    return None if type(R.ld8(ptr)) is int else False


# a handler that returns None leaves the call to the function itself
WRAPS = [(re.compile(r'4core3fmt3num3imp[jyi][A-Z].*7Display3fmt$|4core3fmt3num3imp[jy]NtB\d+_7Display3fmt$'), display)]


def wrapped(name):
    for rx, fn in WRAPS:
        if rx.search(name):
            return fn
    return None


def intercept(name, gen):
    h = TABLE.get(name)
    if h is not None:
        return h
    if name not in gen.mod.defines and not name.startswith('_R'):
        return None
    for rx, fn in RULES:
        if rx.search(name):
            return fn
    return None


R.assume_ = assume_
R.trap_ = trap
R.landing = landing
R.insval = insval
R.shuffle = shuffle
R.ldv16 = ldv16
