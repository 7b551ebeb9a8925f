"""LLVM IR function -> Python function, lazily."""
import re
import struct
import llparse
from llparse import S, toks, unq, ity, D, P, F32, FLAGS, BINOPS, FBIN, CASTS, CCONV, ParseError
import runtime as R
import fl
import terms
from terms import Unsupported
import api

MAXIND = 24


def size_align(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        if n == 1:
            return 1, 1
        b = (n + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p if n <= 64 or n == 128 else b, min(p, 16)
    if k in 'dp':
        return 8, 8
    if k == 'f':
        return 4, 4
    if k == 'a':
        s, a = size_align(t[2])
        return s * t[1], a
    if k == 'x':
        if t[2] == ity(1):
            return (t[1] + 7) // 8, 1
        s, a = size_align(t[2])
        return s * t[1], s * t[1]
    if k == 's':
        off = 0
        al = 1
        for e in t[1]:
            s, a = size_align(e)
            if not t[2]:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        return ((off + al - 1) // al * al if not t[2] else off), al
    raise Unsupported('size of %r' % (t,))


def field_off(t, i):
    off = 0
    for j, e in enumerate(t[1]):
        s, a = size_align(e)
        if not t[2]:
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += s
    raise IndexError


def store_size(t):
    if t[0] == 'i':
        return (t[1] + 7) // 8
    return size_align(t)[0]


class Gen:
    def __init__(self, mod):
        self.mod = mod
        self.G = {}           # globals of generated code
        for m in (R, fl):
            for k, v in vars(m).items():
                if not k.startswith('__'):
                    self.G[k] = v
        self.G['fselect'] = R.self_
        self.G['callptr'] = self.callptr
        self.fnid = {}        # name -> python identifier
        self.fnobj = {}       # object id -> name
        self.fnptr = {}
        self.gid = {}         # global name -> object id
        self.gname = {}
        self.proto = {}
        self.hit = {}         # function name -> bytearray of executed blocks
        self.blkdbg = {}      # function name -> [ [dbg ids] per block ]
        self.K = []
        self.G['K'] = self.K
        R.LOADER[0] = self.load_object
        self.n = 0

    # ------------------------------------------------------------ addresses
    def addr(self, name):
        if name in self.mod.globals:
            g = self.mod.global_(name)
            if g[0] == 'alias':
                return self.const(g[1], P)
            i = self.gid.get(name)
            if i is None:
                i = self.gid[name] = R.GLOB_BASE + len(self.gid)
                self.gname[i] = name
            return i << 32
        i = self.fnptr.get(name)
        if i is None:
            i = self.fnptr[name] = R.FUNC_BASE + len(self.fnptr)
            self.fnobj[i] = name
        return i << 32

    def load_object(self, i):
        """materialise a global in this path"""
        name = self.gname.get(i)
        if name is None:
            return None
        p = self.proto.get(i)
        g = self.mod.global_(name)
        if p is None:
            if g[2] is None:
                raise Unsupported('external global ' + name)
            o = R.Obj()
            o.size = size_align(g[1])[0]
            o.data = bytearray(o.size)
            o.mask = None
            o.cells = None
            o.kind = 'global'
            o.ro = g[3]
            self.fill(o, 0, g[1], g[2])
            p = self.proto[i] = o
        if p.ro:
            R.OBJ[i] = p
            return p
        o = R.Obj()
        o.size = p.size
        o.data = bytearray(p.data)
        o.mask = bytearray(p.mask) if p.mask is not None else None
        o.cells = None
        o.kind = 'global'
        o.ro = False
        R.OBJ[i] = o
        return o

    def fill(self, o, off, t, v):
        k = v[0]
        if k == 'zero' or k == 'null':
            return
        if k == 'undef':
            n = size_align(t)[0]
            if o.mask is None:
                o.mask = bytearray(o.size)
            o.mask[off:off + n] = b'\1' * n
            return
        if k == 'bytes':
            o.data[off:off + len(v[1])] = v[1]
            return
        if k == 'agg':
            if t[0] == 'a' or t[0] == 'x':
                s = size_align(t[2])[0]
                for i, e in enumerate(v[2]):
                    self.fill(o, off + i * s, t[2], e)
            else:
                for i, e in enumerate(v[2]):
                    self.fill(o, off + field_off(t, i), t[1][i], e)
            return
        if k == 'fc':
            if t[0] == 'd':
                o.data[off:off + 8] = v[2].to_bytes(8, 'little')
            else:
                d = struct.unpack('<d', struct.pack('<Q', v[2]))[0]
                o.data[off:off + 4] = struct.pack('<f', d)
            return
        x = self.const(v, t)
        n = store_size(t)
        o.data[off:off + n] = int(x).to_bytes(n, 'little')

    def const(self, v, t):
        """concrete value of a constant operand"""
        k = v[0]
        if k == 'c':
            return v[2]
        if k == 'null':
            return 0
        if k == 'g':
            return self.addr(v[1])
        if k == 'undef':
            return fl.UND if t[0] not in 'asx' else self.undef_agg(t)
        if k == 'fc':
            d = struct.unpack('<d', struct.pack('<Q', v[2]))[0]
            return d if fl.isfp() else fl.snap(d)
        if k == 'zero':
            return self.zero(t)
        if k == 'agg':
            if t[0] == 's':
                return tuple(self.const(e, et) for e, et in zip(v[2], t[1]))
            return tuple(self.const(e, t[2]) for e in v[2])
        if k == 'bytes':
            return tuple(v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const(v[3], P)
                idx = []
                for it, iv in v[4]:
                    c = self.const(iv, it)
                    idx.append(R.sg(c, it[1]))
                return (base + self.gep_const(v[2], idx)) & R.M64
            if v[1] == 'cast':
                op, t1, x, t2 = v[2:]
                c = self.const(x, t1)
                if op in ('ptrtoint', 'inttoptr', 'bitcast', 'zext', 'ptrtoaddr', 'addrspacecast'):
                    return c
                if op == 'trunc':
                    return terms.trunc(c, t2[1])
            if v[1] == 'bin':
                op, t1, a, b = v[2:]
                x, y = self.const(a, t1), self.const(b, t1)
                m = (1 << t1[1]) - 1
                if op == 'sub':
                    return (x - y) & m
                if op == 'add':
                    return (x + y) & m
        raise Unsupported('constant %r' % (v,))

    def undef_agg(self, t):
        if t[0] == 's':
            return tuple(self.undef_agg(e) for e in t[1])
        if t[0] in 'ax':
            return tuple(self.undef_agg(t[2]) for _ in range(t[1]))
        return fl.UND

    def zero(self, t):
        if t[0] == 'i':
            return False if t[1] == 1 else 0
        if t[0] == 'p':
            return 0
        if t[0] in 'df':
            return 0.0
        if t[0] == 's':
            return tuple(self.zero(e) for e in t[1])
        return tuple(self.zero(t[2]) for _ in range(t[1]))

    def gep_const(self, t, idx):
        off = idx[0] * size_align(t)[0]
        for i in idx[1:]:
            if t[0] == 's':
                off += field_off(t, i)
                t = t[1][i]
            else:
                t = t[2]
                off += i * size_align(t)[0]
        return off

    # ------------------------------------------------------------ calls
    def callptr(self, p, *args):
        p = R.conc(p)
        name = self.fnobj.get(p >> 32)
        if name is None or p & 0xffffffff:
            raise R.Violation('memory', 'call through an invalid function pointer')
        return self.G[self.ident(name)](*args)

    def ident(self, name):
        i = self.fnid.get(name)
        if i is None:
            i = self.fnid[name] = 'f%d' % len(self.fnid)
            h = api.intercept(name, self)
            if h is not None:
                self.G[i] = h
            elif name in self.mod.defines:
                w = api.wrapped(name)
                if w is not None:
                    j = i + 'w'

                    def around(*a, _j=j, _w=w):
                        r = _w(*a)
                        return self.G[_j](*a) if r is None else r
                    self.G[i] = around
                    i, keep = j, i
                else:
                    keep = i

                def tramp(*a, _n=name, _i=i):
                    self.compile(_n, _i)
                    return self.G[_i](*a)
                self.G[i] = tramp
                i = keep
            else:
                def missing(*a, _n=name):
                    raise Unsupported('call to external function ' + _n)
                self.G[i] = missing
        return i

    def entry(self, name):
        return self.G[self.ident(name)]

    def compile(self, name, ident):
        f = self.mod.fn(name)
        src = FnGen(self, f, ident).run()
        try:
            code = compile(src, '<%s>' % name[-60:], 'exec')
        except (SyntaxError, MemoryError, RecursionError) as e:
            raise Unsupported('cannot translate %s: %s' % (name, e))
        exec(code, self.G)


RETATTR = re.compile(r'\b(noundef|nonnull|noalias|zeroext|signext|inreg|noext)\b')


class FnGen:
    def __init__(self, gen, f, ident):
        self.g = gen
        self.f = f
        self.ident = ident
        self.names = {}
        self.types = {}
        self.out = []
        self.emitted = set()
        self.pending = []
        self.allocas = []

    def nm(self, reg):
        v = self.names.get(reg)
        if v is None:
            v = self.names[reg] = 'v%d' % len(self.names)
        return v

    def K(self, val):
        self.g.K.append(val)
        i = 'k%d' % (len(self.g.K) - 1)
        self.g.G[i] = val
        return i

    def ex(self, v, t):
        k = v[0]
        if k == 'r':
            return self.nm(v[1])
        if k == 'c':
            return repr(v[2])
        if k == 'null':
            return '0'
        if k == 'undef':
            if t[0] in 'asx':
                return self.K(self.g.undef_agg(t))
            return 'UND'
        c = self.g.const(v, t)
        if type(c) is int:
            return str(c)
        if type(c) is bool:
            return repr(c)
        return self.K(c)

    # ------------------------------------------------------------ parsing
    def run(self):
        f = self.f
        self.index = {lab: i for i, lab in enumerate(f.order)}
        parsed = {}
        self.dbg = []
        for lab in f.order:
            ins = []
            dbg = set()
            for s in f.blocks[lab]:
                m = re.search(r'!dbg (![0-9]+)', s)
                if m:
                    dbg.add(m.group(1))
                ins.append(self.split(s))
            parsed[lab] = ins
            self.dbg.append(dbg)
        self.parsed = parsed
        # predecessors and phis
        self.preds = {lab: 0 for lab in f.order}
        self.phis = {lab: [] for lab in f.order}
        for lab in f.order:
            for (res, op, st) in parsed[lab]:
                if op == 'phi':
                    self.phis[lab].append((res, self.parse_phi(st)))
            for t in self.succs(parsed[lab][-1]):
                self.preds[t] += 1
        n = len(f.order)
        g = self.g
        g.hit[f.name] = bytearray(n)
        g.blkdbg[f.name] = self.dbg
        self.hitk = self.K(g.hit[f.name])
        head = 'def %s(%s):\n' % (self.ident, ', '.join(self.nm(p) for _, p in f.params))
        for t, p in f.params:
            self.types[p] = t
        # allocate chunks
        first = f.order[0]
        self.roots = []
        self.rootset = set()
        self.want(first)
        chunks = {}
        while self.pending:
            lab = self.pending.pop()
            self.out = []
            self.block(lab, 0)
            chunks[self.index[lab]] = self.out
        ids = sorted(chunks)
        body = []
        single = len(ids) == 1 and not self.uses_goto
        body.append((1, 'b = %d' % self.index[first]))
        if self.allocas_pos():
            pass
        body.append((1, 'while True:'))
        self.tree(body, ids, chunks, 2)
        return head + '\n'.join(' ' * ind + s for ind, s in body) + '\n'

    uses_goto = True

    def allocas_pos(self):
        return None

    def tree(self, body, ids, chunks, ind):
        if len(ids) == 1:
            for i, s in chunks[ids[0]]:
                body.append((ind + i, s))
            return
        m = len(ids) // 2
        body.append((ind, 'if b < %d:' % ids[m]))
        self.tree(body, ids[:m], chunks, ind + 1)
        body.append((ind, 'else:'))
        self.tree(body, ids[m:], chunks, ind + 1)

    def want(self, lab):
        if lab not in self.rootset:
            self.rootset.add(lab)
            self.pending.append(lab)

    def split(self, s):
        # strip metadata tail for speed
        res = None
        if s[0] == '%':
            e = s.index(' = ')
            res = s[:e]
            s = s[e + 3:]
        m = re.match(r'(tail |musttail |notail )?([a-z_]+)', s)
        op = m.group(2)
        i = s.find(', !')
        if i > 0:
            # keep switch / landingpad bodies intact (metadata is last on the line)
            s = s[:i]
        return (res, op, s[m.end():])

    def parse_phi(self, s):
        st = S(toks(s), self.g.mod)
        while st.peek() in FLAGS:
            st.next()
        t = st.type()
        inc = []
        while True:
            st.expect('[')
            v = st.value(t)
            st.expect(',')
            lab = st.next()
            st.expect(']')
            inc.append((v, self.lab(lab)))
            if not st.eat(','):
                break
        return t, dict((l, v) for v, l in inc)

    def lab(self, l):
        if l in self.f.blocks:
            return l
        # implicit entry label
        if '%0entry' in self.f.blocks:
            return '%0entry'
        return l

    def succs(self, ins):
        res, op, s = ins
        if op in ('ret', 'unreachable', 'resume'):
            return []
        if op in ('br', 'switch', 'invoke', 'indirectbr'):
            out = []
            for m in re.finditer(r'label (%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))', s):
                out.append(m.group(1))
            return out
        raise Unsupported('terminator ' + op)

    # ------------------------------------------------------------ emission
    def block(self, lab, ind):
        o = self.out
        i = self.index[lab]
        ins = self.parsed[lab]
        o.append((ind, '%s[%d] = 1; S[0] += %d' % (self.hitk, i, len(ins))))
        for (res, op, s) in ins:
            if op == 'phi':
                self.types[res] = self.types.get(res)
                continue
            try:
                ind = self.instr(lab, ind, res, op, s)
            except (ParseError, Unsupported, IndexError, KeyError, AttributeError) as e:
                msg = 'cannot translate %s %s: %s' % (op, s[:120], e)
                o.append((ind, 'raise Unsupported(%r)' % msg))
                return

    def edge(self, src, dst, ind):
        """emit phi assignments and the transfer of control"""
        o = self.out
        ph = self.phis[dst]
        if ph:
            ls, rs = [], []
            for res, (t, inc) in ph:
                ls.append(self.nm(res))
                rs.append(self.ex(inc[src], t))
            if ls != rs:
                o.append((ind, '%s = %s' % (', '.join(ls), ', '.join(rs))))
        if self.preds[dst] == 1 and ind < MAXIND and dst not in self.rootset:
            self.block(dst, ind)
            return
        self.want(dst)
        if self.index[dst] <= self.index[src]:
            o.append((ind, 'if S[0] > LIM[0]: raise StepLimit()'))
        o.append((ind, 'b = %d; continue' % self.index[dst]))

    def instr(self, lab, ind, res, op, s):
        o = self.out
        st = S(toks(s), self.g.mod)
        v = self.nm(res) if res else None

        def put(e):
            o.append((ind, '%s = %s' % (v, e)))

        if op == 'br':
            if st.eat('label'):
                self.edge(lab, self.lab(st.next()), ind)
                return ind
            t = st.type()
            c = st.value(t)
            st.expect(',')
            st.expect('label')
            a = self.lab(st.next())
            st.expect(',')
            st.expect('label')
            b = self.lab(st.next())
            o.append((ind, 'if %s:' % self.ex(c, t)))
            self.edge(lab, a, ind + 1)
            # the true edge never falls through
            self.edge(lab, b, ind)
            return ind
        if op == 'ret':
            if self.allocas:
                o.append((ind, 'freeframe((%s,))' % ', '.join(self.allocas)))
            if st.peek() == 'void':
                o.append((ind, 'return'))
            else:
                t, x = st.tv()
                o.append((ind, 'return ' + self.ex(x, t)))
            return ind
        if op == 'unreachable':
            o.append((ind, 'raise Violation("ub", "unreachable code reached")'))
            return ind
        if op == 'switch':
            t, x = st.tv()
            st.expect(',')
            st.expect('label')
            d = self.lab(st.next())
            st.expect('[')
            cases = []
            while not st.eat(']'):
                ct = st.type()
                c = st.value(ct)
                st.expect(',')
                st.expect('label')
                cases.append((c, self.lab(st.next())))
            e = self.ex(x, t)
            if len(cases) > 6:
                # concretise, then look up
                o.append((ind, 'sw = conc(%s)' % e))
                e = 'sw'
            for c, l in cases:
                o.append((ind, 'if %s == %s:' % (e, self.ex(c, t))))
                self.edge(lab, l, ind + 1)
            self.edge(lab, d, ind)
            return ind
        if op == 'resume':
            t = st.type()
            x = st.value(t)
            o.append((ind, 'raise EXC[%s[0]]' % self.ex(x, t)))
            return ind
        if op in ('call', 'invoke'):
            return self.call(lab, ind, res, op, s, st)
        if op == 'landingpad':
            put('landing(exc_)')
            return ind
        if op == 'alloca':
            t = st.type()
            n = 1
            if st.eat(','):
                if st.peek() != 'align':
                    t2 = st.type()
                    c = st.value(t2)
                    n = self.g.const(c, t2)
            self.allocas.append(v)
            put('alloca(%d)' % (size_align(t)[0] * n))
            return ind
        if op == 'load':
            if st.eat('atomic'):
                pass
            st.eat('volatile')
            t = st.type()
            st.expect(',')
            st.type()
            p = self.ex(st.value(P), P)
            put(self.load(t, p))
            return ind
        if op == 'store':
            st.eat('atomic')
            st.eat('volatile')
            t = st.type()
            x = st.value(t)
            st.expect(',')
            st.type()
            p = self.ex(st.value(P), P)
            self.store(ind, t, self.ex(x, t), p)
            return ind
        if op == 'getelementptr':
            while st.peek() in FLAGS or st.peek() == 'inrange':
                st.next()
            sty = st.type()
            st.expect(',')
            bt = st.type()
            base = st.value(bt)
            idx = []
            while st.eat(','):
                it = st.type()
                idx.append((it, st.value(it)))
            if bt[0] == 'x' or any(t[0] == 'x' for t, _ in idx):
                raise Unsupported('vector gep')
            be = self.ex(base, P)
            coff = 0
            dyn = []
            t = sty
            for k, (it, iv) in enumerate(idx):
                if k > 0:
                    if t[0] == 's':
                        c = self.g.const(iv, it)
                        coff += field_off(t, c)
                        t = t[1][c]
                        continue
                    t = t[2]
                sz = size_align(t)[0]
                if iv[0] == 'c':
                    coff += R.sg(iv[2], it[1]) * sz
                else:
                    x = self.ex(iv, it)
                    if it[1] < 64:
                        x = 'sext(%s, %d, 64)' % (x, it[1])
                    dyn.append('%s * %d' % (x, sz) if sz != 1 else x)
            e = be
            if dyn:
                e = '(%s + %s%s) & M64' % (be, ' + '.join(dyn), ' + %d' % coff if coff else '')
            elif coff:
                e = '%s + %d' % (be, coff) if coff > 0 else '(%s - %d) & M64' % (be, -coff)
            put(e)
            return ind
        if op in BINOPS:
            while st.peek() in FLAGS:
                st.next()
            t = st.type()
            a = self.ex(st.value(t), t)
            st.expect(',')
            b = self.ex(st.value(t), t)
            if t[0] == 'x':
                put('tuple([%s for x_, y_ in zip(%s, %s)])' % (self.bin(op, t[2], 'x_', 'y_'), a, b))
            else:
                put(self.bin(op, t, a, b))
            return ind
        if op in FBIN:
            while st.peek() in FLAGS:
                st.next()
            t = st.type()
            a = self.ex(st.value(t), t)
            st.expect(',')
            b = self.ex(st.value(t), t)
            if t[0] == 'x':
                e = '%s(x_, y_)' % op
                if t[2][0] == 'f':
                    e = 'rnd32(%s)' % e
                put('tuple([%s for x_, y_ in zip(%s, %s)])' % (e, a, b))
            else:
                e = '%s(%s, %s)' % (op, a, b)
                put('rnd32(%s)' % e if t[0] == 'f' else e)
            return ind
        if op == 'fneg':
            while st.peek() in FLAGS:
                st.next()
            t = st.type()
            a = self.ex(st.value(t), t)
            put('fneg(%s)' % a if t[0] != 'x' else 'tuple([fneg(x_) for x_ in %s])' % a)
            return ind
        if op == 'icmp':
            while st.peek() in FLAGS:
                st.next()
            pred = st.next()
            t = st.type()
            a = self.ex(st.value(t), t)
            st.expect(',')
            b = self.ex(st.value(t), t)
            if t[0] == 'x':
                put('tuple([%s for x_, y_ in zip(%s, %s)])' % (self.icmp(pred, t[2], 'x_', 'y_'), a, b))
            else:
                put(self.icmp(pred, t, a, b))
            return ind
        if op == 'fcmp':
            while st.peek() in FLAGS:
                st.next()
            pred = st.next()
            t = st.type()
            a = self.ex(st.value(t), t)
            st.expect(',')
            b = self.ex(st.value(t), t)
            if t[0] == 'x':
                put('tuple([fcmp(%r, x_, y_) for x_, y_ in zip(%s, %s)])' % (pred, a, b))
            else:
                put('fcmp(%r, %s, %s)' % (pred, a, b))
            return ind
        if op == 'select':
            while st.peek() in FLAGS:
                st.next()
            ct = st.type()
            c = self.ex(st.value(ct), ct)
            st.expect(',')
            t = st.type()
            a = self.ex(st.value(t), t)
            st.expect(',')
            st.type()
            b = self.ex(st.value(t), t)
            if ct[0] == 'x':
                put('tuple([%s for c_, x_, y_ in zip(%s, %s, %s)])' % (self.select(t[2], 'c_', 'x_', 'y_'), c, a, b))
            else:
                put(self.select(t, c, a, b))
            return ind
        if op in CASTS:
            while st.peek() in FLAGS:
                st.next()
            t1 = st.type()
            x = self.ex(st.value(t1), t1)
            st.expect('to')
            t2 = st.type()
            put(self.cast(op, t1, t2, x))
            return ind
        if op == 'extractvalue':
            t = st.type()
            x = self.ex(st.value(t), t)
            while st.eat(','):
                x += '[%s]' % st.next()
            put(x)
            return ind
        if op == 'insertvalue':
            t = st.type()
            x = self.ex(st.value(t), t)
            st.expect(',')
            t2 = st.type()
            y = self.ex(st.value(t2), t2)
            path = []
            while st.eat(','):
                path.append(st.next())
            put('insval(%s, %s, (%s,))' % (x, y, ','.join(path)))
            return ind
        if op == 'extractelement':
            t = st.type()
            x = self.ex(st.value(t), t)
            st.expect(',')
            t2 = st.type()
            put('%s[conc(%s)]' % (x, self.ex(st.value(t2), t2)))
            return ind
        if op == 'insertelement':
            t = st.type()
            x = self.ex(st.value(t), t)
            st.expect(',')
            t2 = st.type()
            y = self.ex(st.value(t2), t2)
            st.expect(',')
            t3 = st.type()
            put('insval(%s, %s, (conc(%s),))' % (x, y, self.ex(st.value(t3), t3)))
            return ind
        if op == 'shufflevector':
            t = st.type()
            x = self.ex(st.value(t), t)
            st.expect(',')
            t2 = st.type()
            y = self.ex(st.value(t2), t2)
            st.expect(',')
            mt = st.type()
            m = st.value(mt)
            mk_ = self.g.const(m, mt)
            put('shuffle(%s, %s, %s)' % (x, y, self.K(mk_)))
            return ind
        if op == 'freeze':
            t = st.type()
            x = self.ex(st.value(t), t)
            if t[0] in 'asx':
                put(x)
            elif t[0] == 'i' and t[1] == 1:
                put('(False if %s is UND else %s)' % (x, x))
            elif t[0] in 'df':
                put('(0.0 if %s is UND else %s)' % (x, x))
            else:
                put('freeze(%s)' % x)
            return ind
        if op == 'fence':
            return ind
        if op == 'atomicrmw':
            st.eat('volatile')
            k = st.next()
            st.type()
            p = self.ex(st.value(P), P)
            st.expect(',')
            t = st.type()
            x = self.ex(st.value(t), t)
            o.append((ind, 'rp_ = %s' % p))
            o.append((ind, 'rx_ = %s' % x))
            put(self.load(t, 'rp_'))
            e = {'xchg': 'rx_', 'add': None, 'sub': None, 'and': None, 'or': None, 'xor': None,
                 'umax': 0, 'umin': 0, 'max': 0, 'min': 0}.get(k, 1)
            if e == 0:
                kk = {'max': 'smax', 'min': 'smin'}.get(k, k)
                e = 'minmax(%r, %s, rx_, %d)' % (kk, v, t[1])
            if e == 1:
                raise Unsupported('atomicrmw ' + k)
            self.store(ind, t, e or self.bin(k, t, v, 'rx_'), 'rp_')
            return ind
        if op == 'cmpxchg':
            st.eat('weak')
            st.eat('volatile')
            st.type()
            p = self.ex(st.value(P), P)
            st.expect(',')
            t = st.type()
            c = self.ex(st.value(t), t)
            st.expect(',')
            st.type()
            nw = self.ex(st.value(t), t)
            o.append((ind, 'rp_ = %s' % p))
            o.append((ind, 'ro_ = %s' % self.load(t, 'rp_')))
            o.append((ind, 'rc_ = ro_ == %s' % c))
            o.append((ind, 'if rc_:'))
            self.store(ind + 1, t, nw, 'rp_')
            put('(ro_, bool(rc_))')
            return ind
        raise Unsupported('instruction ' + op)

    def load(self, t, p):
        k = t[0]
        if k == 'p' or t == ('i', 64):
            return 'ld8(%s)' % p
        if k == 'd':
            return 'ldd(%s)' % p
        if k == 'f':
            return 'ldf(%s)' % p
        if k == 'i':
            if t[1] == 8:
                return 'ld1(%s)' % p
            if t[1] == 1:
                return 'ldb(%s)' % p
            if t[1] % 8:
                raise Unsupported('load of i%d' % t[1])
            return 'ldn(%s, %d)' % (p, t[1] // 8)
        if k == 'x' or k == 'a':
            if t == ('x', 16, ('i', 8)):
                return 'ldv16(%s)' % p
            s = size_align(t[2])[0]
            return '(%s,)' % ', '.join(self.load(t[2], '%s + %d' % (p, i * s)) for i in range(t[1]))
        if k == 's':
            return '(%s,)' % ', '.join(self.load(e, '%s + %d' % (p, field_off(t, i))) for i, e in enumerate(t[1]))
        raise Unsupported('load %r' % (t,))

    def store(self, ind, t, x, p):
        o = self.out
        k = t[0]
        if k == 'p' or t == ('i', 64):
            o.append((ind, 'st8(%s, %s)' % (p, x)))
        elif k == 'd':
            o.append((ind, 'std(%s, %s)' % (p, x)))
        elif k == 'f':
            o.append((ind, 'stf(%s, %s)' % (p, x)))
        elif k == 'i':
            if t[1] == 8:
                o.append((ind, 'st1(%s, %s)' % (p, x)))
            elif t[1] == 1:
                o.append((ind, 'stb(%s, %s)' % (p, x)))
            elif t[1] % 8:
                raise Unsupported('store of i%d' % t[1])
            else:
                o.append((ind, 'stn(%s, %s, %d)' % (p, x, t[1] // 8)))
        elif k in 'xa':
            s = size_align(t[2])[0]
            o.append((ind, 'sv_ = %s' % x))
            o.append((ind, 'sp_ = %s' % p))
            for i in range(t[1]):
                self.store(ind, t[2], 'sv_[%d]' % i, 'sp_ + %d' % (i * s))
        elif k == 's':
            o.append((ind, 'sv_ = %s' % x))
            o.append((ind, 'sp_ = %s' % p))
            for i, e in enumerate(t[1]):
                self.store(ind, e, 'sv_[%d]' % i, 'sp_ + %d' % field_off(t, i))
        else:
            raise Unsupported('store %r' % (t,))

    def bin(self, op, t, a, b):
        n = t[1]
        m = (1 << n) - 1
        if n == 1:
            if op in ('and', 'mul'):
                return '%s & %s' % (a, b)
            if op == 'or':
                return '%s | %s' % (a, b)
            if op in ('xor', 'add', 'sub'):
                return '%s ^ %s' % (a, b)
            raise Unsupported('i1 ' + op)
        if op == 'add':
            return '(%s + %s) & %d' % (a, b, m)
        if op == 'sub':
            return '(%s - %s) & %d' % (a, b, m)
        if op == 'mul':
            return '(%s * %s) & %d' % (a, b, m)
        if op == 'and':
            if n % 8 == 0 and n > 8 and re.match(r'[0-9]+$', str(b)) and any((int(b) >> k) & 255 == 0 for k in range(0, n, 8)):
                return 'and_(%s, %s, %d)' % (a, b, n)
            return '%s & %s' % (a, b)
        if op == 'or':
            return '%s | %s' % (a, b)
        if op == 'xor':
            return '%s ^ %s' % (a, b)
        return '%s(%s, %s, %d)' % (op, a, b, n)

    def icmp(self, pred, t, a, b):
        if t[0] == 'i' and t[1] == 1:
            if pred == 'eq':
                return '(%s == %s)' % (a, b)
            if pred == 'ne':
                return '(%s != %s)' % (a, b)
            # booleans as 0/1
            a, b, t = 'zext(%s, 8)' % a, 'zext(%s, 8)' % b, ('i', 8)
            if pred[0] == 's':
                a, b = b, a
                pred = 'u' + pred[1:]
        n = 64 if t[0] == 'p' else t[1]
        if pred == 'eq':
            return '%s == %s' % (a, b)
        if pred == 'ne':
            return '%s != %s' % (a, b)
        if pred[0] == 's':
            s = 1 << (n - 1)
            a, b = '(%s ^ %d)' % (a, s), '(%s ^ %d)' % (b, s)
        c = {'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}[pred[1:]]
        return '%s %s %s' % (a, c, b)

    def select(self, t, c, a, b):
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                return 'selb(%s, %s, %s)' % (c, a, b)
            return 'selN(%s, %s, %s, %d)' % (c, a, b, t[1])
        if k in 'df':
            return 'fselect(%s, %s, %s)' % (c, a, b)
        return 'selp(%s, %s, %s)' % (c, a, b)

    def cast(self, op, t1, t2, x):
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'):
            n = t2[1] if op == 'ptrtoint' else 64
            if n == 64:
                return x
            return 'trunc(%s, 64, %d)' % (x, n)
        if t1[0] == 'x' and op != 'bitcast':
            return 'tuple([%s for x_ in %s])' % (self.cast(op, t1[2], t2[2], 'x_'), x)
        if op == 'zext':
            return 'zext(%s, %d)' % (x, t2[1])
        if op == 'sext':
            return 'sext(%s, %d, %d)' % (x, t1[1], t2[1])
        if op == 'trunc':
            return 'trunc(%s, %d, %d)' % (x, t1[1], t2[1])
        if op == 'fpext':
            return x
        if op == 'fptrunc':
            return 'rnd32(%s)' % x
        if op == 'fptosi':
            return 'fptosi(%s, %d, False)' % (x, t2[1])
        if op == 'fptoui':
            return 'fptoui(%s, %d, False)' % (x, t2[1])
        if op == 'sitofp':
            e = 'sitofp(%s, %d)' % (x, t1[1])
            return 'rnd32(%s)' % e if t2[0] == 'f' else e
        if op == 'uitofp':
            e = 'uitofp(%s, %d)' % (x, t1[1])
            return 'rnd32(%s)' % e if t2[0] == 'f' else e
        if op == 'bitcast':
            if t1 == t2:
                return x
            if t1[0] == 'd' and t2 == ('i', 64):
                return 'f2b(%s)' % x
            if t2[0] == 'd' and t1 == ('i', 64):
                return 'b2f(%s)' % x
            if t1[0] == 'f' and t2 == ('i', 32):
                return 'f2b32(%s)' % x
            if t2[0] == 'f' and t1 == ('i', 32):
                return 'b2f32(%s)' % x
            if t1[0] == 'x' and t1[2][0] == 'i' and t2[0] == 'i':
                return 'vec_to_int(%s, %d)' % (x, t1[2][1])
            if t1[0] == 'i' and t2[0] == 'x' and t2[2][0] == 'i':
                return 'int_to_vec(%s, %d, %d)' % (x, t2[1], t2[2][1])
            if t1[0] == 'x' and t2[0] == 'x' and t1[2][0] == 'i' and t2[2][0] == 'i':
                n = size_align(t1)[0] * 8
                return 'int_to_vec(vec_to_int(%s, %d), %d, %d)' % (x, t1[2][1], t2[1], t2[2][1])
        raise Unsupported('cast %s %r %r' % (op, t1, t2))

    # ------------------------------------------------------------ calls
    def call(self, lab, ind, res, op, s, st):
        o = self.out
        while True:
            x = st.peek()
            k = st.peekk()
            if x in CCONV or x in FLAGS:
                st.next()
                continue
            before = st.i
            st.skip_attrs()
            if st.i == before:
                break
        rt = st.type()
        st.skip_attrs()
        if st.peek() == 'asm':
            # inline assembly: only barriers (empty template) are supported
            if '""' in s or 'asm sideeffect ""' in s:
                raise Unsupported('inline asm')
            raise Unsupported('inline asm')
        k, callee = st.t[st.i]
        st.i += 1
        st.expect('(')
        args = []
        if not st.eat(')'):
            while True:
                t = st.type()
                st.skip_attrs()
                if t[0] == 'm':
                    d = 0
                    # metadata operand: skip to , or )
                    while st.peek() not in (',', ')'):
                        if st.next() == '(':
                            while st.next() != ')':
                                pass
                    args.append((t, None))
                else:
                    args.append((t, st.value(t)))
                if st.eat(')'):
                    break
                st.expect(',')
        normal = unwind = None
        if op == 'invoke':
            m = re.search(r'to label (%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) unwind label (%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))', s)
            normal, unwind = self.lab(m.group(1)), self.lab(m.group(2))
        e = None
        if k == 'glb':
            name = unq(callee)
            if name.startswith('llvm.'):
                e = self.intrinsic(name, rt, args)
                if e is None:
                    if normal:
                        self.edge(lab, normal, ind)
                    return ind
            else:
                e = '%s(%s)' % (self.g.ident(name), ', '.join(self.ex(v, t) for t, v in args))
        else:
            e = 'callptr(%s)' % ', '.join([self.nm(callee)] + [self.ex(v, t) for t, v in args])
        if res and rt[0] != 'v':
            e = '%s = %s' % (self.nm(res), e)
        if op == 'call':
            o.append((ind, e))
            return ind
        o.append((ind, 'try:'))
        o.append((ind + 1, e))
        o.append((ind, 'except Unwind as e_:'))
        o.append((ind + 1, 'exc_ = e_'))
        sv = dict(self.preds)
        # leave the except block through a transfer, never inline in it
        ph = self.phis[unwind]
        if ph:
            ls, rs = [], []
            for r2, (t, inc) in ph:
                ls.append(self.nm(r2))
                rs.append(self.ex(inc[lab], t))
            o.append((ind + 1, '%s = %s' % (', '.join(ls), ', '.join(rs))))
        self.want(unwind)
        o.append((ind + 1, 'b = %d; continue' % self.index[unwind]))
        self.edge(lab, normal, ind)
        return ind

    def intrinsic(self, name, rt, args):
        A = [self.ex(v, t) if v is not None else None for t, v in args]
        T = [t for t, _ in args]
        b = name[5:]
        if b.startswith(('lifetime.end', 'experimental.noalias', 'dbg.', 'donothing', 'sideeffect', 'invariant.', 'prefetch', 'instrprof', 'x86.sse2.pause')):
            return None
        if b.startswith('lifetime.start'):
            return 'lifetime_start(%s)' % A[-1]
        if b == 'assume':
            return 'assume_(%s)' % A[0]
        if b.startswith(('memcpy.', 'memmove.')):
            return 'memcpy(%s, %s, %s)' % (A[0], A[1], A[2])
        if b.startswith('memset.'):
            return 'memset(%s, %s, %s)' % (A[0], A[1], A[2])
        if b.startswith('trap'):
            return 'trap_()'
        if b.startswith('threadlocal.address'):
            return A[0]
        if b.startswith(('expect.', 'ssa.copy', 'launder.', 'strip.', 'arithmetic.fence')):
            return A[0]
        if b.startswith('is.constant'):
            return 'False'
        if b.startswith('objectsize'):
            return str(R.M64)
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow\.i(\d+)', b)
        if m:
            return 'ovf(%r, %s, %s, %s, %s)' % (m.group(2), A[0], A[1], m.group(3), m.group(1) == 's')
        m = re.match(r'([us])(add|sub)\.sat\.i(\d+)', b)
        if m:
            return 'sat(%r, %s, %s, %s, %s)' % (m.group(2), A[0], A[1], m.group(3), m.group(1) == 's')
        m = re.match(r'(umin|umax|smin|smax)\.i(\d+)', b)
        if m:
            return 'minmax(%r, %s, %s, %s)' % (m.group(1), A[0], A[1], m.group(2))
        m = re.match(r'([us])cmp\.i(\d+)\.i(\d+)', b)
        if m:
            return 'threeway(%s, %s, %s, %s, %s)' % (A[0], A[1], m.group(3), m.group(1) == 's', m.group(2))
        m = re.match(r'abs\.i(\d+)', b)
        if m:
            return 'iabs(%s, %s)' % (A[0], m.group(1))
        m = re.match(r'fsh([lr])\.i(\d+)', b)
        if m:
            return 'fsh(%s, %s, %s, %s, %s)' % (A[0], A[1], A[2], m.group(2), m.group(1) == 'l')
        m = re.match(r'(ctlz|cttz)\.i(\d+)', b)
        if m:
            return '%s(%s, %s)' % (m.group(1), A[0], m.group(2))
        if b.startswith('ctpop.i'):
            return 'ctpop(%s)' % A[0]
        m = re.match(r'(bswap|bitreverse)\.i(\d+)', b)
        if m:
            return '%s(%s, %s)' % ({'bswap': 'bswap', 'bitreverse': 'bitrev'}[m.group(1)], A[0], m.group(2))
        if b.startswith('load.relative'):
            return 'load_relative(%s, %s)' % (A[0], A[1])
        if b.startswith('ptrmask'):
            return '%s & %s' % (A[0], A[1])
        m = re.match(r'vector\.reduce\.(add|or|and|xor|mul)\.v(\d+)i(\d+)', b)
        if m:
            opx = {'add': 'add', 'or': 'or', 'and': 'and', 'xor': 'xor', 'mul': 'mul'}[m.group(1)]
            e = '%s[0]' % A[0]
            for i in range(1, int(m.group(2))):
                e = '(%s)' % self.bin(opx, ('i', int(m.group(3))), e, '%s[%d]' % (A[0], i))
            return e
        # floating point
        if 'f32' in b and '.v' not in b:
            e = self.fp1(b.replace('f32', 'f64'), *A)
            if e:
                return 'rnd32(%s)' % e if b.split('.')[0] not in ('is', 'fptosi', 'fptoui') else e
        if '.v2f' in b or '.v4f' in b or 'f32' in b:
            m = re.match(r'([a-z0-9.]+?)\.v(\d+)f64$', b)
            if m and len(A) == 1:
                inner = self.fp1(m.group(1) + '.f64', 'x_')
                if inner:
                    return 'tuple([%s for x_ in %s])' % (inner, A[0])
            raise Unsupported('intrinsic ' + name)
        e = self.fp1(b, *A)
        if e:
            return e
        raise Unsupported('intrinsic ' + name)

    def fp1(self, b, *A):
        m = re.match(r'(fabs|sqrt|floor|ceil|trunc|round|rint|nearbyint|roundeven)\.f64', b)
        if m:
            fn = {'fabs': 'fabs', 'sqrt': 'fsqrt', 'floor': 'ffloor', 'ceil': 'fceil', 'trunc': 'ftrunc',
                  'round': 'fround', 'rint': 'frint', 'nearbyint': 'frint', 'roundeven': 'frint'}[m.group(1)]
            return '%s(%s)' % (fn, A[0])
        m = re.match(r'(exp|log|cos|sin|exp2|log2|log10|tan|tanh|sinh|cosh|atan|acos|asin)\.f64', b)
        if m:
            return 'uf(%r, %s)' % (m.group(1), A[0])
        if b.startswith('powi.f64'):
            return 'fpowi(%s, %s)' % (A[0], A[1])
        if b.startswith('pow.f64'):
            return 'fpow(%s, %s)' % (A[0], A[1])
        if b.startswith(('fma.f64', 'fmuladd.f64')):
            return 'fma(%s, %s, %s)' % (A[0], A[1], A[2])
        if b.startswith('copysign.f64'):
            return 'fcopysign(%s, %s)' % (A[0], A[1])
        if b.startswith(('maxnum.f64', 'maximumnum.f64')):
            return 'fmax(%s, %s)' % (A[0], A[1])
        if b.startswith(('minnum.f64', 'minimumnum.f64')):
            return 'fmin(%s, %s)' % (A[0], A[1])
        if b.startswith('maximum.f64'):
            return 'fmax(%s, %s, True)' % (A[0], A[1])
        if b.startswith('minimum.f64'):
            return 'fmin(%s, %s, True)' % (A[0], A[1])
        if b.startswith('is.fpclass.f64'):
            return 'is_fpclass(%s, %s)' % (A[0], A[1])
        m = re.match(r'fpto([su])i\.sat\.i(\d+)\.f64', b)
        if m:
            return 'fpto%si(%s, %s, True)' % (m.group(1), A[0], m.group(2))
        return None
