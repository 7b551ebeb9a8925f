"""Path exploration: one Path per execution, a frontier of unexplored decisions."""
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction
import api
import codegen
import fl
import ranges
import runtime as R
import smt
import terms
from terms import T, BvT, b_not, b_and, mk, vars_of, Unsupported
from fl import UND, UndefUse, INF, NAN

sys.setrecursionlimit(20000)

HASH_KEYS = [(0x0123456789abcdef, 0xfedcba9876543210), (0x5bd1e9955bd1e995, 0x27d4eb2f165667c5)]


class EndPath(Exception):
    pass


class Diverged(Exception):
    pass


DEFAULTS = [Fraction(x, 8) for x in (12, -6, 20, 5, -11, 7, 25, -3, 18, -14, 9, 30, -21, 4, 13, -9)]


class Cand(list):
    """a list of inputs; d: by how much two values that should be equal differ, exactly"""
    d = None


class Path:
    def __init__(self, gen, prefix, model, tier, opts):
        self.gen = gen
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.model = dict(model) if model is not None else None
        self.pc = []
        self.pcset = set()
        self.known = {}
        self.cache = {}
        self.inputs = []          # ('f', name) ('u', name) ('c', value)
        self.bounds = {}          # name -> (lo, hi)
        self.nvar = 0
        self.tier = tier
        self.panics = []
        self.hash_keys = HASH_KEYS[opts.get('hash', 0)]
        self.opts = opts
        self.checks = 0
        self.fails = []           # (msg, [candidate input lists])
        self.unresolved = []
        self.rng = random.Random(opts.get('seed', 1) * 7919 + len(prefix))
        self.groups = None
        self.unknowns = 0
        self.fixed = {}           # terms with a value fixed by hashed()
        self.ranges = {}          # memo of ranges.of
        self.facts = {}           # variable -> comparisons with constants
        self.ident = []           # equalities whose two sides became the same term

    # ------------------------------------------------------------- inputs
    def newname(self, k):
        n = '%s%d' % (k, self.nvar)
        self.nvar += 1
        return n

    def new_f64(self, lo, hi):
        n = self.newname('f')
        smt.VARSORT[n] = 'F'
        v = mk('var', 'F', n)
        self.inputs.append(('f', n))
        lo = None if type(lo) is float and lo == -INF else lo
        hi = None if type(hi) is float and hi == INF else hi
        if self.model is not None and n not in self.model:
            d = DEFAULTS[(self.nvar - 1) % len(DEFAULTS)]
            if self.nvar > len(DEFAULTS):
                d += Fraction(self.nvar // len(DEFAULTS), 2)
            l = None if lo is None else Fraction(lo) if type(lo) is float else None
            h = None if hi is None else Fraction(hi) if type(hi) is float else None
            if l is not None and h is not None and not l < d < h:
                d = l + (h - l) * Fraction(1 + 2 * (self.nvar % 7), 16)
            elif l is not None and d < l:
                d = l + abs(d)
            elif h is not None and d > h:
                d = h - abs(d)
            self.model[n] = float(d) if fl.isfp() else d
        self.bounds[n] = (lo, hi)
        if lo is not None:
            self.assume(fl.fle(lo, v))
        if hi is not None:
            self.assume(fl.fle(v, hi))
        return v

    def new_u64(self):
        n = self.newname('u')
        smt.VARSORT[n] = 64
        self.inputs.append(('u', n))
        if self.model is not None and n not in self.model:
            self.model[n] = 1
        return mk('var', 64, n)

    def choose(self, n):
        if n <= 0:
            raise EndPath()
        if self.pos < len(self.prefix):
            k, v, _ = self.prefix[self.pos]
            if k != 'c':
                raise Diverged()
            self.pos += 1
        else:
            v = 0
            for i in range(n - 1, 0, -1):
                self.alts.append((self.trace + [('c', i, None)], None if self.model is None else dict(self.model)))
        self.trace.append(('c', v, None))
        self.inputs.append(('c', v))
        return v

    # ------------------------------------------------------------- constraints
    def slicer(self, b):
        """constraints of the path condition connected to b through variables"""
        if not isinstance(b, T):
            return []
        want = set(vars_of(b))
        rest = self.pc
        out = []
        while True:
            nxt, hit = [], False
            for c in rest:
                vs = vars_of(c)
                if not want.isdisjoint(vs):
                    out.append(c)
                    want |= vs
                    hit = True
                else:
                    nxt.append(c)
            if not hit:
                return out
            rest = nxt

    def add(self, b):
        if isinstance(b, T):
            if b.id not in self.pcset:
                self.pcset.add(b.id)
                if b.op == 'and':
                    self.add(b.a[0])
                    self.add(b.a[1])
                else:
                    self.pc.append(b)
            self.learn(b, True)

    def learn(self, b, v):
        if not isinstance(b, T):
            return
        if b.op == 'not':
            self.known[b.a[0].id] = not v
            b = b.a[0]
            v = not v
        self.known[b.id] = v
        if not fl.isfp():
            ranges.learn(self, b, v)
        if b.op == 'and' and v:
            self.learn(b.a[0], True)
            self.learn(b.a[1], True)
        elif b.op == 'or' and not v:
            self.learn(b.a[0], False)
            self.learn(b.a[1], False)

    def lookup(self, b):
        """what the path already settles"""
        neg = b.op == 'not'
        if neg:
            b = b.a[0]
        r = self.known.get(b.id)
        if r is None and not fl.isfp():
            r = ranges.verdict(self, b)
            if r is not None:
                self.known[b.id] = r
        return None if r is None else r != neg

    def ev(self, t):
        """value under the current model, None if unavailable"""
        if self.model is None:
            return None
        try:
            v = smt.evalt(t, self.model, self.cache)
        except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError):
            return None
        if type(v) is float and v != v and not fl.isfp():
            return None
        return v

    def setmodel(self, vals):
        """merge solver values; verify"""
        m = dict(self.model or {})
        m.update(vals)
        return self.good(m)

    def good(self, m, extra=()):
        """does m satisfy the path condition under true evaluation?"""
        cache = {}
        try:
            for c in list(self.pc) + list(extra):
                if not smt.evalt(c, m, cache):
                    return None
        except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError):
            return None
        return m

    def decide(self, b):
        if b is True or b is False:
            return b
        if b is UND:
            raise UndefUse('branch on an uninitialised value')
        r = self.lookup(b)
        if r is not None:
            return r
        return self.branch(b, 'b')

    def recorded(self, b, tag):
        """the recorded decision on b, None if there is none because b was settled then"""
        e = self.prefix[self.pos]
        if e[0] == tag and e[2] in (b.h, None):
            self.pos += 1
            return e
        if tag == 'b':
            # what is settled now but was not when the prefix was recorded
            for i in range(self.pos + 1, len(self.prefix)):
                e = self.prefix[i]
                if e[0] != 'b':
                    break
                if e[2] == b.h:
                    self.pos = i + 1
                    return e
            return None
        raise Diverged()

    def settle(self, b):
        for v, c in ((False, b), (True, b_not(b))):
            if smt.query(self.slicer(c) + [c], 20000)[0] == 'unsat':
                self.learn(b, v)
                return v
        raise Diverged()

    def branch(self, b, tag):
        if b is True or b is False:
            return b
        r = self.lookup(b)
        if self.pos < len(self.prefix):
            e = self.recorded(b, tag)
            if e is None:
                # settled when this prefix was recorded
                v = self.settle(b) if r is None else r
                if tag != 'b':
                    self.trace.append((tag, v, b.h))
                return v
            v = e[1]
            self.trace.append(e)
            if v:
                self.add(b)
            else:
                self.add(b_not(b))
            return v
        if r is not None:
            self.trace.append((tag, r, b.h))
            return r
        nb = b_not(b)
        v = self.ev(b)
        to = self.opts.get('branch_ms', 6000)
        if v is None:
            q1, m1 = smt.query(self.slicer(b) + [b], to)
            if q1 == 'unsat':
                v = False
                self.learn(b, False)
                self.trace.append((tag, False, b.h))
                return False
            v = True
            if q1 == 'sat' and self.model is not None:
                m = self.setmodel(m1)
                if m is not None:
                    self.model = m
                    self.cache = {}
        v = bool(v)
        take, other = (b, nb) if v else (nb, b)
        q2, m2 = smt.query(self.slicer(other) + [other], to)
        if q2 == 'unsat':
            self.learn(b, v)
            self.trace.append((tag, v, b.h))
            return v
        if q2 == 'unknown':
            self.unknowns += 1
            m = self.sample_for(other) if self.model is not None else None
        else:
            m = dict(self.model or {})
            m.update(m2)
            m = self.good(m, [other])
            if m is None and self.model is not None:
                m = self.sample_for(other)
        self.alts.append((self.trace + [(tag, not v, b.h)], m))
        self.trace.append((tag, v, b.h))
        self.add(take)
        return v

    def concretise(self, t):
        if type(t) is int:
            return t
        if t is UND:
            raise UndefUse('uninitialised integer')
        lim = self.opts.get('conc', 150)
        for n in range(lim):
            v = None
            if self.pos < len(self.prefix):
                e = self.prefix[self.pos]
                if type(e[0]) is not tuple:
                    raise Diverged()
                v = e[0][1]
            else:
                v = self.ev(t)
                if v is None:
                    v = self.any_value(t)
            c = t == v
            if self.branch2(c, ('v', v)):
                return v
        raise Unsupported('too many values for a symbolic integer')

    def hashed(self, x):
        """concrete value of a term inside a hash function: fork on the values that were hashed"""
        leaves = {}
        st = [x]
        seen = set()
        while st:
            t = st.pop()
            if not isinstance(t, T) or t.id in seen:
                continue
            seen.add(t.id)
            if t.op in ('bvxor', 'bvadd', 'bvsub', 'bvor', 'bvshl', 'bvlshr') and t.id not in self.fixed:
                st.extend(t.a)
            else:
                leaves[t.id] = t
        cache = {}
        for i, t in sorted(leaves.items(), key=lambda x: (x[1].h, x[0])):
            v = self.fixed.get(i)
            if v is None:
                v = self.fixed[i] = self.concretise(t)
            cache[i] = (t, v)
        return smt.evalt(x, {}, cache)

    def branch2(self, c, tag):
        if c is True or c is False:
            # keep the trace aligned with the recorded one
            if self.pos < len(self.prefix):
                self.pos += 1
            self.trace.append((tag, c, None))
            return c
        return self.branch(c, tag)

    def any_value(self, t):
        n = 't!%d' % t.id
        smt.VARSORT[n] = t.s
        x = mk('var', t.s, n)
        c = x == t
        r, m = smt.query(self.slicer(c) + [c], 5000)
        if r == 'sat':
            return m[n]
        if r == 'unsat':
            raise R.Infeasible()
        m = next(self.samples(1), None)
        if m is not None:
            self.model = m
            self.cache = {}
            return smt.evalt(t, m, {})
        for k in list(range(24)) + [(1 << t.s) - j for j in range(1, 9)]:
            e = t == k
            if e is True:
                return k
            if e is False or self.lookup(e) is False:
                continue
            if smt.query(self.slicer(e) + [e], 1000)[0] != 'unsat':
                return k
        # most likely no input takes this path
        if smt.query(list(self.pc), 30000)[0] == 'unsat':
            raise R.Infeasible()
        r, m = smt.query(self.slicer(c) + [c], 60000)
        if r == 'sat':
            return m[n]
        if r == 'unsat':
            raise R.Infeasible()
        raise Unsupported('cannot find a value for a symbolic integer')

    def floor_int(self, x):
        """fork on the integer part of a real term"""
        c = fl.const(x)
        if c is not None:
            return math.floor(c)
        lim = self.opts.get('conc', 150)
        for n in range(lim):
            if self.pos < len(self.prefix):
                e = self.prefix[self.pos]
                if type(e[0]) is not tuple:
                    raise Diverged()
                k = e[0][1]
            else:
                v = self.ev(x)
                if v is None or v in (INF, -INF):
                    k = self.any_floor(x)
                else:
                    k = math.floor(v)
            c = b_and(fl.fle(float(k), x), fl.flt(x, float(k + 1)))
            if self.branch2(c, ('k', k)):
                return k
        raise Unsupported('too many integer parts for a real term')

    def any_floor(self, x):
        for k in list(range(0, 12)) + list(range(-1, -12, -1)):
            c = b_and(fl.fle(float(k), x), fl.flt(x, float(k + 1)))
            if c is True:
                return k
            if c is False:
                continue
            r, m = smt.query(self.slicer(c) + [c], 2000)
            if r == 'sat':
                return k
        raise Unsupported('cannot find the integer part of a real term')

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise R.Infeasible()
        r = self.lookup(c)
        if r is not None:
            if r:
                return
            raise R.Infeasible()
        v = self.ev(c)
        if v is True:
            self.add(c)
            return
        q, m = smt.query(self.slicer(c) + [c], self.opts.get('assume_ms', 5000))
        if q == 'unsat':
            raise R.Infeasible()
        if q == 'sat':
            mm = dict(self.model or {})
            mm.update(m)
            g = self.good(mm, [c])
            if g is None and self.model is not None:
                g = self.sample_for(c)
        else:
            g = self.sample_for(c) if self.model is not None else None
        self.add(c)
        self.model = g
        self.cache = {}

    # ------------------------------------------------------------- checks
    def tolist(self, m):
        out = Cand()
        for k, v in self.inputs:
            if k == 'c':
                out.append(('c', v))
            else:
                x = m.get(v)
                if k == 'f':
                    x = smt.fr2f(x) if x is not None else 0.0
                out.append((k, x if x is not None else 0))
        return out

    def names(self):
        return [v for k, v in self.inputs if k != 'c']

    def randval(self, n):
        if n[0] == 'u':
            return self.rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 1 << 32, (1 << 64) - 1, self.rng.getrandbits(64)])
        lo, hi = self.bounds.get(n, (None, None))
        if fl.isfp():
            l = -8.0 if lo is None or lo in (INF, -INF) else lo
            h = 8.0 if hi is None or hi in (INF, -INF) else hi
            return self.rng.choice([l, h, self.rng.uniform(l, h), self.rng.uniform(l, h), 0.0 if l <= 0 <= h else l])
        l = Fraction(lo) if type(lo) is float else Fraction(-6)
        h = Fraction(hi) if type(hi) is float else Fraction(6)
        if h < l:
            h = l + 6
        r = self.rng.random()
        if r < 0.12:
            for v in (Fraction(0), Fraction(1), Fraction(-1)):
                if l <= v <= h and self.rng.random() < 0.6:
                    return v
        d = self.rng.choice([8, 16, 64])
        k = self.rng.randint(0, d)
        x = l + (h - l) * Fraction(k, d)
        if fl.F32[0] and self.rng.random() < 0.7:
            return Fraction(self.rng.uniform(float(l), float(h)))
        return Fraction(float(x))

    def samples(self, count):
        """assignments satisfying the path condition, nice values first"""
        names = [n for n in self.names()]
        base = dict(self.model) if self.model is not None else {}
        for n in names:
            if n not in base:
                base[n] = self.randval(n)
        # exact doubles only
        for n in names:
            if type(base[n]) is Fraction:
                base[n] = Fraction(float(base[n]))
        got = 0
        t0 = time.time()
        for i in range(count * 6):
            if time.time() - t0 > 4:
                break
            m = dict(base)
            if i > 0:
                p = self.rng.choice([0.15, 0.4, 1.0])
                for n in names:
                    if self.rng.random() < p:
                        m[n] = self.randval(n)
            g = self.good(m)
            if g is not None:
                yield g
                if self.rng.random() < 0.3:
                    base = g
                got += 1
                if got >= count:
                    return

    def sample_for(self, c):
        for m in self.samples(60):
            try:
                if smt.evalt(c, m, {}):
                    return m
            except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError):
                pass
        return None

    def candidates(self, cond, solver_model=None):
        """input lists on which `cond` (a python predicate on (model, cache)) seems false"""
        out = []
        for m in self.samples(240):
            try:
                if cond(m):
                    out.append(self.tolist(m))
            except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError, OverflowError):
                pass
            if len(out) >= 8:
                break
        if solver_model is not None and not fl.isfp():
            # the solver's values are not doubles: try near ones too
            for k in (Fraction(1, 1 << 30), Fraction(-1, 1 << 30)):
                m = dict(self.model or {})
                for n in self.names():
                    m.setdefault(n, Fraction(0) if n[0] == 'f' else 0)
                m.update(solver_model)
                for n in m:
                    if n[0] == 'f' and type(m[n]) is Fraction:
                        m[n] = Fraction(smt.fr2f(m[n] * (1 + k))) if abs(m[n]) < 10 ** 308 else m[n]
                try:
                    if self.good(m) is not None:
                        out.append(self.tolist(m))
                except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError, OverflowError):
                    pass
            # a value chosen for an uninterpreted cosine need not be the real one's
            for i in range(6):
                m = dict(self.model or {})
                for n in self.names():
                    m.setdefault(n, Fraction(0) if n[0] == 'f' else 0)
                m.update(solver_model)
                for j, n in enumerate(sorted(m)):
                    if n[0] == 'f' and type(m[n]) is Fraction and abs(m[n]) < 10 ** 9:
                        m[n] = Fraction(smt.fr2f(m[n])) + Fraction((i * 7919 + j * 104729 + 12345) * 2654435761 % 4096 - 2048, 1 << (20 if i % 2 else 12))
                try:
                    if self.good(m) is not None:
                        out.append(self.tolist(m))
                except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError, OverflowError):
                    pass
        if solver_model is not None:
            m = dict(self.model or {})
            for n in self.names():
                m.setdefault(n, Fraction(0) if n[0] == 'f' and not fl.isfp() else 0.0 if n[0] == 'f' else 0)
            m.update(solver_model)
            out.append(self.tolist(m))
        return out

    def boxed(self, cons, size=64.0):
        """try for a solver model with tame values"""
        if fl.isfp():
            return None
        box = []
        names = set()
        for c in cons:
            if isinstance(c, T):
                names |= vars_of(c)
        for n in names:
            if smt.VARSORT.get(n) == 'F':
                v = mk('var', 'F', n)
                box += [fl.fle(-size, v), fl.fle(v, size)]
        r, m = smt.query(cons + box, 4000)
        return m if r == 'sat' else None

    def feasible(self):
        """a path the solver could not decide earlier may be impossible"""
        if self.pc and (self.model is None or self.good(self.model) is None):
            if smt.query(list(self.pc), self.opts.get('check_ms', 20000))[0] == 'unsat':
                raise R.Infeasible()

    def exactly(self, a, b, cands):
        """note the exact difference of a and b on each candidate"""
        for c in cands:
            m = {n: Fraction(x) if k == 'f' and not math.isinf(x) and x == x else x
                 for (k, n), (_, x) in zip(self.inputs, c) if k != 'c'}
            try:
                memo = {}
                x, y = smt.evalt(a, m, memo), smt.evalt(b, m, memo)
                if type(x) is Fraction and type(y) is Fraction and x != y:
                    c.d = float(abs(x - y))
            except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError, OverflowError):
                pass
        return cands

    def fail(self, msg, cands):
        self.feasible()
        self.fails.append((msg, cands))
        raise EndPath()

    def check(self, c, msg):
        self.checks += 1
        if c is True:
            return
        if self.pos < len(self.prefix) and isinstance(c, T):
            # decided on the path this one branched off from, under the same path condition
            if self.lookup(c) is not True:
                self.learn(c, True)
            return
        if c is UND:
            raise UndefUse('assertion on an uninitialised value')
        if c is False:
            self.fail(msg, self.candidates(lambda m: True, self.model or {}))
        r = self.lookup(c)
        if r is True:
            return
        nc = b_not(c)
        v = self.ev(c)
        if v is False:
            self.fail(msg, self.candidates(lambda m: not smt.evalt(c, m, {}), self.model))
        sl = self.slicer(nc)
        q, m = smt.query(sl + [nc], self.opts.get('check_ms', 20000))
        if q == 'unsat':
            self.learn(c, True)
            return
        cands = self.candidates(lambda m: not smt.evalt(c, m, {}), m)
        if q == 'sat':
            b = self.boxed(sl + [nc])
            if b is not None:
                mm = dict(self.model or {})
                mm.update(b)
                cands.append(self.tolist(mm))
            self.fail(msg, cands)
        if cands:
            self.fails.append((msg + ' (found by evaluation after the solver gave up)', cands))
            raise EndPath()
        self.unresolved.append('solver gave up on: ' + msg)

    def check_eq(self, a, b, msg):
        self.checks += 1
        if a is UND or b is UND:
            raise UndefUse('assertion on an uninitialised value')
        if fl.isfp():
            if type(a) is float and type(b) is float:
                ok = a == b or (a != a and b != b)
                self.checks -= 1
                return self.check(ok, msg)
            if fl.bare(a) is fl.bare(b):
                return
            c = terms.b_or(fl.feq(a, b), b_and(fl.fisnan(a), fl.fisnan(b)))
            self.checks -= 1
            return self.check(c, msg)
        if fl.special(a) or fl.special(b):
            ok = type(a) is float and type(b) is float and (a == b or (a != a and b != b))
            self.checks -= 1
            return self.check(ok, msg)
        e = fl.feq(a, b)
        if self.pos < len(self.prefix) and e is not False:
            return
        if e is True:
            self.ident.append((a, b))
            return

        def differs(m):
            c = {}
            x, y = smt.fr2f(smt.evalt(a, m, c)), smt.fr2f(smt.evalt(b, m, c))
            return abs(x - y) > 3e-6 * (1 + abs(x) + abs(y))
        if self.model is not None:
            try:
                if differs(self.model):
                    self.fail(msg, self.candidates(differs, self.model))
            except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError, OverflowError):
                pass
        if e is False:
            if self.rounding(a, b, None):
                return
            self.fail(msg, self.exactly(a, b, self.candidates(differs, self.model or {})))
        pr = smt.Prover(self.pc, self.slicer, time.time() + self.opts.get('prove_s', 60))
        q, m = pr.prove_eq(a, b)
        if q == 'unsat':
            return
        if q == 'sat' and self.rounding(a, b, m):
            return
        cands = self.candidates(differs, m if q == 'sat' else None)
        if q == 'sat' and len(cands) < 3:
            d = fl.fsub(a, b)
            for mar, size in ((0.125, 64.0), (0.001, 64.0), (16.0, 1e13)):
                big = terms.b_or(fl.flt(mar, d), fl.flt(d, -mar))
                if size > 64.0:
                    # a difference that stands out of the values it lies between
                    big = b_and(big, b_and(fl.fle(-1.0, a), fl.fle(a, 1.0)))
                bm = self.boxed(self.slicer(big) + [big], size)
                if bm is not None:
                    mm = dict(self.model or {})
                    mm.update(bm)
                    cands.append(self.tolist(mm))
                    break
        if q == 'sat':
            self.fail(msg, self.exactly(a, b, cands))
        if cands:
            self.fail(msg, cands)
        self.unresolved.append('solver gave up on: ' + msg)

    def rounding(self, a, b, solver_model):
        """do a and b differ only because constants in the code are rounded to doubles
        (at generic points by less than 1e-12 of their size, nowhere by more than 1e-9)?"""
        n = 0
        pts = list(self.samples(6))
        if solver_model:
            pts.append(dict(self.model or {}, **solver_model))
        for i, m in enumerate(pts):
            if solver_model and n and i == len(pts) - 1:
                break
            try:
                memo = {}
                x, y = smt.evalt(a, m, memo), smt.evalt(b, m, memo)
            except (KeyError, Unsupported, ZeroDivisionError, ValueError, TypeError, OverflowError):
                return False
            if x == y:
                continue
            if abs(smt.fr2f(x) - smt.fr2f(y)) > 1e-12 * (abs(smt.fr2f(x)) + abs(smt.fr2f(y))):
                return False
            n += 1
        if not n:
            return False
        return self.within(a, b) and self.within(b, a)

    def within(self, a, b):
        """a <= b up to the tolerance of the native replay"""
        tol = fl.fmul(1e-9, fl.fadd(1.0, fl.fadd(fl.fabs(a), fl.fabs(b))))
        c = fl.flt(fl.fadd(b, tol), a)
        if c is False:
            return True
        return c is not True and smt.query(self.slicer(c) + [c], self.opts.get('check_ms', 20000))[0] == 'unsat'

    def flush(self):
        """one query for the equalities that construction of the terms already settled"""
        if not self.ident:
            return
        c = smt.conv()
        es = []
        for a, b in self.ident:
            x, y = c.c(a, 'F') if not fl.special(a) else None, c.c(b, 'F') if not fl.special(b) else None
            if x is not None and y is not None:
                es.append(smt.z3.Not(smt.z3.fpEQ(x, y)) if fl.isfp() else x != y)
        self.ident = []
        if not es:
            return
        t0 = time.time()
        r, _ = smt.solve([smt.z3.Or(es)], 4000)
        if r != 'unsat':
            r, _ = smt.query(self.pc, 8000, [smt.z3.Or(es)])
        smt.STATS['queries'] += 1
        smt.STATS[r] += 1
        smt.STATS['time'] += time.time() - t0
        if r != 'unsat':
            self.unresolved.append('solver does not confirm equal terms')

    def check_le(self, a, b, msg):
        if a is UND or b is UND:
            raise UndefUse('assertion on an uninitialised value')
        c = fl.fle(a, b)
        if not fl.isfp() and not fl.special(a) and not fl.special(b):
            c = self.lenient(c, a, b)
        self.check(c, msg)

    def lenient(self, c, a, b):
        if c is True or self.pos < len(self.prefix):
            return c
        nc = b_not(c)
        if c is not False:
            if self.lookup(c) is True or smt.query(self.slicer(nc) + [nc], self.opts.get('check_ms', 20000))[0] != 'sat':
                return c
        # too small an excess to tell from rounding
        return True if self.within(a, b) else c


# ------------------------------------------------------------------ running
def reset():
    R.OBJ.clear()
    R.FREED.clear()
    R.EXC.clear()
    R.NEXT[0] = 1
    R.S[0] = 0


def run_path(gen, harness, prefix, model, tier, opts):
    """-> (path, status)"""
    p = Path(gen, prefix, model, tier, opts)
    fl.PATH[0] = p
    terms.DECIDE[0] = p.decide
    terms.FPGE[0] = fl.fpge if fl.isfp() else None
    terms.REALEQ[0] = None if fl.isfp() else fl.realeq
    reset()
    R.LOADER[0] = gen.load_object
    R.LIM[0] = opts.get('steps', 3000000)
    status = 'ok'
    entry = gen.entry(harness)
    try:
        entry()
    except EndPath:
        status = 'fail' if p.fails else 'end'
    except R.Infeasible:
        status = 'infeasible'
    except R.Unwind as e:
        status = 'fail'
        p.fails.append(('panic at %s' % (p.panics[-1] if p.panics else '?'), p.candidates(lambda m: True, p.model or {})))
    except R.Violation as e:
        status = 'fail'
        if os.environ.get('ENGINE_DEBUG'):
            traceback.print_exc()
        p.fails.append(('%s: %s' % (e.kind, e.msg), p.candidates(lambda m: True, p.model or {})))
    except UndefUse as e:
        status = 'fail'
        if os.environ.get('ENGINE_DEBUG'):
            traceback.print_exc()
        p.fails.append(('memory: %s' % e, p.candidates(lambda m: True, p.model or {})))
    except R.StepLimit:
        status = 'fail'
        p.fails.append(('no termination within the step limit', p.candidates(lambda m: True, p.model or {})))
    except Unsupported as e:
        status = 'unsupported'
        if os.environ.get('ENGINE_DEBUG'):
            traceback.print_exc()
        p.unresolved.append('unsupported: %s' % e)
    except smt.OutOfTime:
        return p, 'late'
    except Diverged:
        status = 'unsupported'
        p.unresolved.append('replay diverged')
    except RecursionError:
        status = 'unsupported'
        p.unresolved.append('recursion too deep')
    except Exception as e:
        status = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)
        p.unresolved.append('engine error: %r at %s' % (e, '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])))
        if os.environ.get('ENGINE_DEBUG'):
            traceback.print_exc()
    if status == 'fail':
        try:
            p.feasible()
        except R.Infeasible:
            p.fails = []
            p.checks = 0
            return p, 'infeasible'
        except smt.OutOfTime:
            return p, 'late'
    try:
        p.flush()
    except smt.OutOfTime:
        return p, 'late'
    except Exception as e:
        p.unresolved.append('engine error: %r' % e)
    return p, status
