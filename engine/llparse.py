"""Textual LLVM IR reader.

Splits a module into globals / declarations / definitions quickly and parses a
function body only when asked for (most of a Rust whole-program module is never
executed by a harness).

Types are tuples:  ('i',n) ('d',) ('f',) ('p',) ('v',) ('a',n,T) ('x',n,T)
                   ('s',(T,..),packed) ('m',)
Operands are tuples:
  ('r',name)            SSA register
  ('c',T,value)         integer constant (already masked), bool for i1
  ('fc',T,bits)         double / float constant as 64-bit pattern
  ('g',name)            global address
  ('null',) ('undef',T) ('zero',T)
  ('agg',T,[ops])       constant aggregate / vector
  ('bytes',b)           c"..." constant
  ('ce',op,...)         constant expression
"""
import re
import struct

TOK = re.compile(
    r'''(?:\s|/\*.*?\*/)*(?:
      (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
     |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
     |(?P<glb>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
     |(?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
     |(?P<fsp>[-+](?:inf|qnan|nan|snan)(?:\(0x[0-9a-fA-F]+\))?)
     |(?P<num>-?(?:[fus]?0x[0-9A-Fa-fKLMHR]+|\d+\.\d*(?:[eE][-+]?\d+)?|\d+))
     |(?P<attr>\#\d+)
     |(?P<id>[a-zA-Z_][a-zA-Z0-9_.]*)
     |(?P<p>\.\.\.|[-=,(){}\[\]<>*:|])
    )''', re.X)


class ParseError(Exception):
    pass


def toks(s):
    out = []
    pos = 0
    n = len(s)
    m_ = TOK.match
    while pos < n:
        m = m_(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise ParseError('lex %r' % s[pos:pos + 40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    return out


INT = {}


def ity(n):
    t = INT.get(n)
    if t is None:
        t = INT[n] = ('i', n)
    return t


D = ('d',)
F32 = ('f',)
P = ('p',)
V = ('v',)

PARAM_ATTRS = {
    'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'zeroext',
    'signext', 'inreg', 'returned', 'immarg', 'nofree', 'swiftself', 'nest', 'noext', 'writable',
    'dead_on_unwind', 'allocptr', 'allocalign', 'nofpclass', 'dead_on_return', 'inalloca', 'swifterror',
}
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret',
               'byval', 'initializes', 'elementtype', 'nofpclass', 'alignstack', 'memory', 'byref',
               'preallocated', 'dead_on_return'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'samesign', 'inbounds', 'nusw', 'nneg', 'fast', 'nnan',
         'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'atomic', 'weak'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'tailcc', 'preserve_mostcc', 'preserve_allcc', 'preserve_nonecc'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
         'fpext', 'fptrunc', 'ptrtoaddr', 'addrspacecast'}


class S:
    """token stream"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, t, mod):
        self.t = t
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def peekk(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i][1] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise ParseError('expected %r at %r' % (x, self.t[self.i:self.i + 6]))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit():
                ty = ity(int(v[1:]))
            elif v == 'ptr':
                ty = P
                if self.peek() == 'addrspace':
                    self.next()
                    self.skip_parens()
            elif v == 'double':
                ty = D
            elif v == 'float':
                ty = F32
            elif v == 'void':
                ty = V
            elif v == 'metadata':
                ty = ('m',)
            else:
                raise ParseError('type %r' % v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('a', n, e)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                ty = self.struct_rest(True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('x', n, e)
        elif v == '{':
            ty = self.struct_rest(False)
        elif k == 'loc':
            ty = self.mod.named_type(v)
        else:
            raise ParseError('type tok %r' % (v,))
        # function type: T (args)
        if self.peek() == '(' and ty is not None and self._looks_fn():
            self.skip_parens()
        return ty

    def _looks_fn(self):
        # function types occur in calls as  "T (args...) @callee(" (varargs)
        j = self.i
        d = 0
        while j < len(self.t):
            x = self.t[j][1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] in ('glb', 'loc')

    def struct_rest(self, packed):
        el = []
        if self.eat('}'):
            return ('s', (), packed)
        while True:
            el.append(self.type())
            if self.eat('}'):
                break
            self.expect(',')
        return ('s', tuple(el), packed)

    def skip_attrs(self):
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == 'attr':
                self.i += 1
                continue
            if k == 'id':
                if v in PAREN_ATTRS:
                    self.i += 1
                    if self.peek() == '(':
                        self.skip_parens()
                    elif v in ('align', 'alignstack') and self.peekk() == 'num':
                        self.i += 1
                    continue
                if v in PARAM_ATTRS:
                    self.i += 1
                    continue
            if k == 'str':
                self.i += 1
                if self.eat('='):
                    self.i += 1
                continue
            return

    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('r', v)
        if k == 'glb':
            return ('g', unq(v))
        if k == 'fsp':
            b = 0x7ff0000000000000 if 'inf' in v else 0x7ff8000000000000
            if v[0] == '-':
                b |= 1 << 63
            return ('fc', ty, b)
        if k == 'num':
            if v.startswith('f0x'):
                return ('fc', ty, int(v[1:], 16))
            if ty[0] == 'i':
                if 'x' in v:
                    x = int(v.replace('u', '').replace('s', ''), 16)
                else:
                    x = int(v)
                if ty[1] == 1:
                    return ('c', ty, bool(x & 1))
                return ('c', ty, x & ((1 << ty[1]) - 1))
            if ty[0] == 'd':
                if v.startswith('0x'):
                    return ('fc', ty, int(v, 16))
                return ('fc', ty, struct.unpack('<Q', struct.pack('<d', float(v)))[0])
            if ty[0] == 'f':
                if v.startswith('0x'):
                    return ('fc', ty, int(v, 16))
                return ('fc', ty, struct.unpack('<Q', struct.pack('<d', float(v)))[0])
            raise ParseError('num for %r' % (ty,))
        if k == 'str' and v[0] == 'c':
            return ('bytes', cbytes(v[2:-1]))
        if k == 'id':
            if v == 'true':
                return ('c', ty, True)
            if v == 'false':
                return ('c', ty, False)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'none':
                return ('undef', ty)
            if v in ('inf', 'nan') or (v.startswith('f0x')):
                if v.startswith('f0x'):
                    return ('fc', ty, int(v[1:], 16))
                return ('fc', ty, 0x7ff0000000000000 if v == 'inf' else 0x7ff8000000000000)
            if v == 'splat':
                self.expect('(')
                ety = self.type()
                e = self.value(ety)
                self.expect(')')
                return ('agg', ty, [e] * ty[1])
            if v == 'getelementptr':
                while self.peek() in FLAGS or self.peek() == 'inrange':
                    if self.next() == 'inrange':
                        self.skip_parens()
                self.expect('(')
                sty = self.type()
                self.expect(',')
                self.type()
                base = self.value(P)
                idx = []
                while self.eat(','):
                    t2 = self.type()
                    idx.append((t2, self.value(t2)))
                self.expect(')')
                return ('ce', 'gep', sty, base, idx)
            if v in CASTS:
                self.expect('(')
                t1 = self.type()
                x = self.value(t1)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ce', 'cast', v, t1, x, t2)
            if v in BINOPS:
                while self.peek() in FLAGS:
                    self.next()
                self.expect('(')
                t1 = self.type()
                a = self.value(t1)
                self.expect(',')
                self.type()
                b = self.value(t1)
                self.expect(')')
                return ('ce', 'bin', v, t1, a, b)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
            raise ParseError('value id %r' % v)
        if v == '-' and self.peekk() == 'id':
            x = self.next()
            if x == 'inf':
                return ('fc', ty, 0xfff0000000000000)
            if x == 'nan':
                return ('fc', ty, 0xfff8000000000000)
        if v == '[' or v == '{' or (v == '<' and self.peek() != '{'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            el = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    el.append(self.value(t))
                    if self.eat(close):
                        break
                    self.expect(',')
            return ('agg', ty, el)
        if v == '<':
            self.expect('{')
            el = []
            if not self.eat('}'):
                while True:
                    t = self.type()
                    el.append(self.value(t))
                    if self.eat('}'):
                        break
                    self.expect(',')
            self.expect('>')
            return ('agg', ty, el)
        raise ParseError('value %r %r' % (k, v))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def unq(v):
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


def cbytes(s):
    out = bytearray()
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += c.encode('utf-8')
            i += 1
    return bytes(out)


class Fn:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'line0', 'line1', 'sp')


class Module:
    def __init__(self, path):
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            self.lines = f.read().split('\n')
        self.globals = {}
        self.declares = {}
        self.defines = {}
        self.mdlines = {}
        self.types = {}
        self._g = {}
        L = self.lines
        i = 0
        n = len(L)
        while i < n:
            s = L[i]
            if not s:
                i += 1
                continue
            c = s[0]
            if c == '@':
                e = s.index(' = ')
                self.globals[unq(s[:e])] = i
            elif c == '!':
                e = s.find(' = ')
                if e > 0:
                    self.mdlines[s[:e]] = i
            elif c == 'd':
                if s.startswith('define'):
                    nm = self._fname(s)
                    j = i + 1
                    while L[j] != '}':
                        j += 1
                    self.defines[nm] = (i, j)
                    i = j
                elif s.startswith('declare'):
                    self.declares[self._fname(s)] = i
            elif c == '%':
                e = s.index(' = type')
                self.types[s[:e]] = i
            i += 1

    @staticmethod
    def _fname(s):
        a = s.index('@')
        if s[a + 1] == '"':
            b = s.index('"', a + 2)
            return s[a + 2:b]
        b = s.index('(', a)
        return s[a + 1:b]

    def named_type(self, v):
        i = self.types[v]
        if isinstance(i, tuple):
            return i
        s = self.lines[i]
        st = S(toks(s[s.index(' = type') + 7:]), self)
        t = st.type()
        self.types[v] = t
        return t

    # -- globals ---------------------------------------------------------
    def global_(self, name):
        g = self._g.get(name)
        if g is None:
            g = self._g[name] = self._parse_global(name)
        return g

    def _parse_global(self, name):
        s = self.lines[self.globals[name]]
        e = s.index(' = ')
        st = S(toks(s[e + 3:]), self)
        const = False
        tls = False
        ext = False
        while True:
            x = st.peek()
            if x in ('private', 'internal', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'dso_local', 'linkonce_odr',
                     'weak', 'weak_odr', 'protected', 'default', 'available_externally', 'common', 'externally_initialized'):
                st.next()
            elif x in ('external', 'extern_weak'):
                ext = True
                st.next()
            elif x == 'thread_local':
                tls = True
                st.next()
                if st.peek() == '(':
                    st.skip_parens()
            elif x == 'alias':
                st.next()
                st.type()
                st.expect(',')
                st.type()
                return ('alias', st.value(P))
            elif x == 'constant':
                const = True
                st.next()
                break
            elif x == 'global':
                st.next()
                break
            else:
                raise ParseError('global %r in %s' % (x, s[:200]))
        ty = st.type()
        init = None
        if not ext:
            init = st.value(ty)
        return ('var', ty, init, const, tls)

    # -- functions -------------------------------------------------------
    def fn(self, name):
        i, j = self.defines[name]
        L = self.lines
        head = L[i]
        f = Fn()
        f.name = name
        f.line0, f.line1 = i, j
        m = re.search(r'!dbg (![0-9]+)', head)
        f.sp = m.group(1) if m else None
        st = S(toks(head[6:head.rindex('{')]), self)
        # skip linkage etc. up to return type
        while True:
            k, v = st.t[st.i]
            if k == 'id' and (v in ('internal', 'private', 'hidden', 'dso_local', 'unnamed_addr', 'local_unnamed_addr',
                                    'linkonce_odr', 'weak', 'weak_odr', 'protected', 'noundef') or v in CCONV):
                st.i += 1
            else:
                before = st.i
                st.skip_attrs()
                if st.i == before:
                    break
        f.ret = st.type()
        st.skip_attrs()
        nm = st.next()
        st.expect('(')
        params = []
        if not st.eat(')'):
            k = 0
            while True:
                if st.peek() == '...':
                    st.next()
                    st.expect(')')
                    break
                t = st.type()
                st.skip_attrs()
                if st.peekk() == 'loc':
                    pn = st.next()
                else:
                    pn = '%' + str(k)
                params.append((t, pn))
                k += 1
                if st.eat(')'):
                    break
                st.expect(',')
        f.params = params
        # unnamed params consume numbering only if all unnamed; handled by explicit names in rustc output
        blocks = {}
        order = []
        cur = None
        k = i + 1
        while k < j:
            s = L[k]
            k += 1
            if not s:
                continue
            if s[0] not in ' \t':
                if s[0] == ';':
                    continue
                # label
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
                if not m:
                    raise ParseError('label %r' % s[:100])
                lab = '%' + m.group(1)
                cur = []
                blocks[lab] = cur
                order.append(lab)
                continue
            if cur is None:
                cur = []
                blocks['%0entry'] = cur
                order.append('%0entry')
            t = s.lstrip()
            if t.startswith('#dbg') or t.startswith(';'):
                continue
            # multi-line
            if t.endswith('[') and 'switch ' in t:
                parts = [t]
                while True:
                    u = L[k].strip()
                    k += 1
                    parts.append(u)
                    if u.startswith(']'):
                        break
                t = ' '.join(parts)
            elif ('invoke ' in t[:200] or t.startswith('invoke')) and re.match(r'(%\S+ = )?(tail |musttail |notail )?invoke ', t):
                t = t + ' ' + L[k].strip()
                k += 1
            elif ' = landingpad ' in t or t.startswith('landingpad'):
                parts = [t]
                while re.match(r'\s+(cleanup|catch|filter)', L[k]):
                    parts.append(L[k].strip())
                    k += 1
                t = ' '.join(parts)
            cur.append(t)
        f.blocks = blocks
        f.order = order
        return f
