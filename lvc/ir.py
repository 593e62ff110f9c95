"""Parser for the textual LLVM IR that rustc emits (opaque pointers)."""
import re

TOK = re.compile(r'''
    c"(?:[^"])*" | "(?:[^"\\]|\\.)*" |
    [%@]"[^"]*" | [%@][-\w.$]+ |
    \#\d+ | !\w+ | ! |
    -?\d+\.\d+e[+-]\d+ | 0x[0-9A-Fa-f]+ | -?\d+ |
    [A-Za-z_][\w.]* | \.\.\. | [()\[\]{}<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


I1 = ('i', 1); I8 = ('i', 8); I32 = ('i', 32); I64 = ('i', 64)
PTR = ('ptr',); VOID = ('void',)


class IRError(Exception):
    pass


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %r at %r' % (x, self.t[max(0, self.i - 6):self.i + 6]))

    def end(self):
        return self.i >= len(self.t)

    def type(self):
        x = self.next()
        if x == 'ptr':
            return PTR
        if x == 'void':
            return VOID
        if x[0] == 'i' and x[1:].isdigit():
            return ('i', int(x[1:]))
        if x in ('float', 'double', 'half', 'fp128', 'bfloat'):
            # only moved and shuffled, never computed with (floating-point instructions are not in the engine)
            return ('i', {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'fp128': 128}[x])
        if x == '[':
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            return ('arr', n, e)
        if x == '<':
            if self.accept('{'):
                fs = []
                while not self.accept('}'):
                    fs.append(self.type()); self.accept(',')
                self.expect('>')
                return ('st', tuple(fs), True)
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect('>')
            return ('vec', n, e)
        if x == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type()); self.accept(',')
            return ('st', tuple(fs), False)
        if x[0] == '%':
            return self.m.named(x)
        if x in ('metadata', 'token', 'label', 'opaque'):
            return (x,)
        raise IRError('type? %r in %r' % (x, self.t[self.i - 3:self.i + 5]))

    def attrs(self):
        """skip parameter / return attributes"""
        while True:
            x = self.peek()
            if x is None:
                return
            if x in ATTR_ARG:
                self.next()
                if self.peek() == '(':
                    self.parens()
                elif x == 'align':
                    self.next()
            elif x in ATTR or (x and x[0] == '"'):
                self.next()
                if self.accept('='):
                    self.next()
            elif x[0] == '#':
                self.next()
            else:
                return

    def parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def value(self, ty):
        """-> operand:  ('r',name) ('g',name) ('c',int) ('undef',) ('zero',) ('agg',[..]) ('str',bytes) ('ce',op,...)"""
        x = self.next()
        c0 = x[0]
        if c0 == '%':
            return ('r', x)
        if c0 == '@':
            return ('g', x)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if c0 == 'c' and x[1:2] == '"':
            return ('str', cstr(x[2:-1]))
        if c0.isdigit() or c0 == '-':
            if '.' in x or x.startswith('0x'):
                return ('fpc', x)
            return ('c', int(x))
        if x == 'splat':
            self.expect('(')
            t = self.type(); v = self.value(t); self.expect(')')
            return ('agg', [(t, v)] * ty[1])
        if x in ('<', '[', '{'):
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
            else:
                close = {'<': '>', '[': ']', '{': '}'}[x]
            out = []
            while not self.accept(close):
                t = self.type()
                out.append((t, self.value(t)))
                self.accept(',')
            if x == '<' and close == '}':
                self.expect('>')
            return ('agg', out)
        if x == 'getelementptr':
            while self.peek() != '(':
                if self.next() == 'inrange':
                    self.parens()
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('ce', 'gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ce', x, t, v, t2)
        if x in ('sub', 'add', 'xor'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type(); v = self.value(t); self.expect(','); t2 = self.type(); v2 = self.value(t2); self.expect(')')
            return ('ce', x, t, v, v2)
        raise IRError('value? %r %r' % (x, self.t))


ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval',
            'allocsize', 'memory', 'initializes', 'nofpclass', 'alignstack', 'vscale_range', 'elementtype', 'preallocated',
            'allockind', 'byref', 'inalloca', 'nocreateundeforpoison'}
ATTR = {'noundef', 'zeroext', 'signext', 'noalias', 'nofree', 'nonnull', 'readonly', 'readnone', 'writeonly', 'nocapture',
        'writable', 'dead_on_unwind', 'dead_on_return', 'immarg', 'inreg', 'nest', 'returned', 'swiftself', 'nounwind', 'unnamed_addr',
        'local_unnamed_addr', 'inlinehint', 'cold', 'noreturn', 'willreturn', 'uwtable', 'nonlazybind', 'alwaysinline',
        'allocptr', 'noinline', 'minsize', 'optsize', 'mustprogress', 'nosync', 'nocallback', 'speculatable', 'norecurse',
        'fastcc', 'coldcc', 'ccc', 'preserve_mostcc', 'preserve_allcc', 'tailcc', 'nomerge', 'builtin', 'nobuiltin'}


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'a', 'ty', 'text')

    def __init__(self, op, dst, a, ty=None):
        self.op = op; self.dst = dst; self.a = a; self.ty = ty


class Block:
    __slots__ = ('name', 'phis', 'ins', 'term', 'idx')


class Func:
    def __init__(self, mod, name, header, pretty):
        self.mod = mod
        self.name = name
        self.header = header
        self.pretty = pretty
        self.lines = None
        self.blocks = None
        self._parsed_header = False

    def __repr__(self):
        return '<fn %s>' % self.pretty

    def parse_header(self):
        if self._parsed_header:
            return
        self._parsed_header = True
        i = self.header.index(self.name)
        pre = self.header[:i]
        toks = tokenize(pre)
        p = P(toks, self.mod)
        while p.peek() in ('define', 'declare', 'internal', 'private', 'hidden', 'dso_local', 'linkonce_odr', 'weak',
                           'weak_odr', 'external', 'available_externally', 'protected', 'default', 'linkonce', 'extern_weak'):
            p.next()
        p.attrs()
        self.rty = p.type()
        rest = self.header[i + len(self.name):]
        p = P(tokenize(rest), self.mod)
        p.expect('(')
        self.args = []
        self.sret = False
        n = 0
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            a0 = p.i
            p.attrs()
            if 'sret' in p.t[a0:p.i]:
                self.sret = True
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%%%d' % n
            self.args.append((t, nm))
            n += 1
            p.accept(',')

    @property
    def defined(self):
        return self.lines is not None

    def parse(self):
        if self.blocks is not None:
            return
        self.parse_header()
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.lines
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            i += 1
            if not s or s[0] == ';':
                continue
            if s[0] != ' ':
                m = LABEL.match(s)
                if m:
                    cur = Block()
                    nm = m.group(1)
                    cur.name = '%' + nm
                    cur.phis = []; cur.ins = []; cur.term = None
                    self.blocks[cur.name] = cur
                    self.order.append(cur)
                    continue
                continue
            s = s.strip()
            if s.startswith(';'):
                continue
            # multi-line constructs
            if s.startswith('switch') or (' switch ' in s and s.startswith('switch')):
                while ']' not in s.split('[', 1)[1]:
                    s += ' ' + lines[i].strip(); i += 1
            elif ' invoke ' in ' ' + s[:60]:
                while ' unwind label ' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in s:
                while i < n and re.match(r'\s+(cleanup|catch|filter)', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            if cur is None:
                cur = Block(); cur.name = '%entry!'; cur.phis = []; cur.ins = []; cur.term = None
                self.blocks[cur.name] = cur; self.order.append(cur)
            ins = self.instr(s)
            if ins is None:
                continue
            ins.text = s
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in TERMS:
                cur.term = ins
            else:
                cur.ins.append(ins)
        for k, b in enumerate(self.order):
            b.idx = k

    def instr(self, s):
        # strip trailing metadata
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        p = P(tokenize(s), self.mod)
        dst = None
        if p.peek(1) == '=' and p.peek()[0] == '%':
            dst = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        f = getattr(self, 'i_' + op, None)
        if f:
            return f(p, dst, op)
        if op in BIN:
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next())
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Instr('bin', dst, (op, a, b, fl), t)
        if op in CAST:
            while p.peek() in ('nuw', 'nsw', 'nneg'):
                p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return Instr('cast', dst, (op, t, a), t2)
        return Instr('unsupported', dst, (op,))

    def i_alloca(self, p, dst, op):
        t = p.type()
        align = 1
        while p.accept(','):
            if p.accept('align'):
                align = int(p.next())
            else:
                p.type(); p.next()
        return Instr('alloca', dst, (t, align))

    def i_load(self, p, dst, op):
        p.accept('atomic'); p.accept('volatile')
        t = p.type(); p.expect(','); p.type(); a = p.value(PTR)
        al = 1
        while p.peek() is not None:
            x = p.next()
            if x == 'align':
                al = int(p.next())
        return Instr('load', dst, (a, al), t)

    def i_store(self, p, dst, op):
        p.accept('atomic'); p.accept('volatile')
        t = p.type(); v = p.value(t); p.expect(','); p.type(); a = p.value(PTR)
        al = 1
        while p.peek() is not None:
            x = p.next()
            if x == 'align':
                al = int(p.next())
        return Instr('store', None, (v, a, al), t)

    def i_getelementptr(self, p, dst, op):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type(); p.expect(',')
        p.type(); base = p.value(PTR)
        idx = []
        while p.accept(','):
            it = p.type(); idx.append((it, p.value(it)))
        return Instr('gep', dst, (t, base, idx))

    def i_icmp(self, p, dst, op):
        p.accept('samesign')
        c = p.next()
        if c == 'samesign':
            c = p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr('icmp', dst, (c, a, b), t)

    def i_select(self, p, dst, op):
        ct = p.type(); c = p.value(ct); p.expect(',')
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t)
        return Instr('select', dst, (ct, c, a, b), t)

    def i_extractvalue(self, p, dst, op):
        t = p.type(); a = p.value(t)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        return Instr('extractvalue', dst, (a, ix), t)

    def i_insertvalue(self, p, dst, op):
        t = p.type(); a = p.value(t); p.expect(',')
        t2 = p.type(); v = p.value(t2)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        return Instr('insertvalue', dst, (a, t2, v, ix), t)

    def i_extractelement(self, p, dst, op):
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); i = p.value(t2)
        return Instr('extractelement', dst, (a, t2, i), t)

    def i_insertelement(self, p, dst, op):
        t = p.type(); a = p.value(t); p.expect(','); t1 = p.type(); v = p.value(t1); p.expect(','); t2 = p.type(); i = p.value(t2)
        return Instr('insertelement', dst, (a, t1, v, t2, i), t)

    def i_shufflevector(self, p, dst, op):
        t = p.type(); a = p.value(t); p.expect(','); t1 = p.type(); b = p.value(t1); p.expect(',')
        mt = p.type(); m = p.value(mt)
        if m[0] == 'zero':
            mask = [0] * mt[1]
        elif m[0] == 'undef':
            mask = [None] * mt[1]
        else:
            mask = [v[1] if v[0] == 'c' else None for _, v in m[1]]
        return Instr('shufflevector', dst, (a, b, mask), t)

    def i_freeze(self, p, dst, op):
        t = p.type(); return Instr('freeze', dst, (p.value(t),), t)

    def i_phi(self, p, dst, op):
        t = p.type()
        inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Instr('phi', dst, inc, t)

    def i_br(self, p, dst, op):
        if p.accept('label'):
            return Instr('br', None, (p.next(),))
        p.type(); c = p.value(I1); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label')
        return Instr('condbr', None, (c, a, p.next()))

    def i_switch(self, p, dst, op):
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cs = []
        while not p.accept(']'):
            t2 = p.type(); c = p.value(t2); p.expect(','); p.expect('label'); cs.append((c[1], p.next()))
        return Instr('switch', None, (t, v, d, cs))

    def i_ret(self, p, dst, op):
        t = p.type()
        return Instr('ret', None, (None if t == VOID else p.value(t),), t)

    def i_unreachable(self, p, dst, op):
        return Instr('unreachable', None, ())

    def i_resume(self, p, dst, op):
        return Instr('resume', None, ())

    def i_landingpad(self, p, dst, op):
        return Instr('landingpad', dst, ())

    def i_fence(self, p, dst, op):
        return None

    def call(self, p, dst, op):
        p.attrs()
        while p.peek() in ('fastcc', 'coldcc', 'ccc'):
            p.next()
        p.attrs()
        t = p.type()
        # function type form: ret (args...) — varargs
        if p.peek() == '(':
            p.parens()
        if p.peek() == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            s = p.next(); p.expect(','); c = p.next()
            callee = ('asm', s, c)
        else:
            callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            if at == ('metadata',):
                d = 0
                while not (p.peek() in (',', ')') and d == 0):
                    x = p.next()
                    d += x == '('; d -= x == ')'
                p.accept(',')
                continue
            p.attrs()
            args.append((at, p.value(at)))
            p.accept(',')
        return t, callee, args

    def i_call(self, p, dst, op):
        t, callee, args = self.call(p, dst, op)
        return Instr('call', dst, (callee, args), t)

    def i_invoke(self, p, dst, op):
        t, callee, args = self.call(p, dst, op)
        while not p.accept('to'):
            p.next()
        p.expect('label'); n = p.next(); p.expect('unwind'); p.expect('label'); u = p.next()
        return Instr('invoke', dst, (callee, args, n, u), t)

    def i_cmpxchg(self, p, dst, op):
        return Instr('unsupported', dst, (op,))

    def i_atomicrmw(self, p, dst, op):
        return Instr('unsupported', dst, (op,))


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
TERMS = {'br', 'condbr', 'switch', 'ret', 'unreachable', 'resume', 'invoke'}
LABEL = re.compile(r'^("?[-\w.$!]+"?):')


class Module:
    def __init__(self, text):
        self.types = {}
        self.typetext = {}
        self.globals = {}
        self.funcs = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        pretty = None
        while i < n:
            s = lines[i]
            if s.startswith('; '):
                pretty = s[2:]
            elif s.startswith('%'):
                nm, d = s.split(' = type ', 1)
                self.typetext[nm] = d
            elif s.startswith('@'):
                nm = TOK.match(s).group(0)
                self.globals[nm] = s[len(nm) + 3:]
            elif s.startswith('define'):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\s*\(', s)
                f = Func(self, m.group(1), s, self._nm(lines, i))
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f.lines = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j
            elif s.startswith('declare'):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\s*\(', s)
                f = Func(self, m.group(1), s, m.group(1))
                self.funcs.setdefault(f.name, f)
            i += 1

    @staticmethod
    def _nm(lines, i):
        """rustc prints the demangled name, then 'Function Attrs', then define"""
        for j in (i - 1, i - 2):
            s = lines[j]
            if s.startswith('; ') and not s.startswith('; Function Attrs'):
                return s[2:]
        return ''

    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            d = self.typetext[nm]
            if d.strip() == 'opaque':
                t = ('st', (), False)
            else:
                t = P(tokenize(d), self).type()
            self.types[nm] = t
        return t

    def global_init(self, nm):
        """-> (type, operand or None if external, align)"""
        s = self.globals[nm]
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        p = P(tokenize(s), self)
        external = False
        while p.peek() not in ('global', 'constant'):
            if p.next() == 'external':
                external = True
        const = p.next() == 'constant'
        t = p.type()
        v = None
        if not external:
            v = p.value(t)
        al = 1
        while p.peek() is not None:
            if p.next() == 'align':
                al = int(p.next())
        return t, v, al, const


def sizeof(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        if n <= 8:
            return 1
        if n <= 16:
            return 2
        if n <= 32:
            return 4
        if n <= 64:
            return 8
        return (n + 127) // 128 * 16
    if k == 'ptr':
        return 8
    if k == 'arr':
        return t[1] * sizeof(t[2])
    if k == 'vec':
        return (t[1] * (t[2][1] if t[2][0] in ('i', 'fp') else 64) + 7) // 8
    if k == 'fp':
        return t[1] // 8
    if k == 'st':
        return layout(t)[1]
    raise IRError('sizeof %r' % (t,))


def alignof(t):
    k = t[0]
    if k == 'i':
        return min(sizeof(t), 16)
    if k == 'ptr':
        return 8
    if k == 'fp':
        return t[1] // 8
    if k == 'arr':
        return alignof(t[2])
    if k == 'vec':
        return sizeof(t)
    if k == 'st':
        if t[2] or not t[1]:
            return 1
        return max(alignof(f) for f in t[1])
    raise IRError('alignof %r' % (t,))


_lay = {}


def layout(t):
    r = _lay.get(t)
    if r is None:
        off = 0
        offs = []
        al = 1
        for f in t[1]:
            if not t[2]:
                a = alignof(f)
                al = max(al, a)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += sizeof(f)
        if not t[2]:
            off = (off + al - 1) // al * al
        r = (offs, off)
        _lay[t] = r
    return r
