"""Parser for the textual LLVM IR that clang-18 prints for the code under /repo.

Only what the verifier executes is kept: types, globals, functions, blocks and
instructions.  Metadata, attributes, alignment and debug info are dropped; the
flags nsw/nuw/exact, atomic orderings and GEP inbounds are kept.
"""
import re

TOK = re.compile(r'''
    "(?:[^"\\]|\\.)*"                |
    c"(?:[^"\\]|\\.)*"               |
    [%@\$][-a-zA-Z$._0-9]+           |
    [%@\$]"(?:[^"\\]|\\.)*"          |
    ![-a-zA-Z$._0-9]*                |
    \#[0-9]+                         |
    -?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|
    0x[KLMHR]?[0-9a-fA-F]+           |
    -?[0-9]+                         |
    [a-zA-Z_][-a-zA-Z_0-9.]*         |
    \.\.\.                           |
    [=,(){}\[\]<>*|:]
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n':
            i += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('token: ' + s[i:i + 40])
        out.append(m.group(0))
        i = m.end()
    return out


def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


# ---- types -------------------------------------------------------------

class Ty:
    __slots__ = ()


class IntTy(Ty):
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return 'i%d' % self.w


class PtrTy(Ty):
    __slots__ = ()

    def __repr__(self):
        return 'ptr'


class FloatTy(Ty):
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return self.k


class VoidTy(Ty):
    __slots__ = ()

    def __repr__(self):
        return 'void'


class ArrTy(Ty):
    __slots__ = ('n', 'el')

    def __init__(self, n, el):
        self.n = n
        self.el = el

    def __repr__(self):
        return '[%d x %r]' % (self.n, self.el)


class VecTy(Ty):
    __slots__ = ('n', 'el')

    def __init__(self, n, el):
        self.n = n
        self.el = el


class StructTy(Ty):
    __slots__ = ('els', 'packed', '_lay')

    def __init__(self, els, packed):
        self.els = els
        self.packed = packed
        self._lay = None

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.els))


class NamedTy(Ty):
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod

    def __repr__(self):
        return self.name


class OtherTy(Ty):
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


PTR = PtrTy()
VOID = VoidTy()
FLOATS = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16, 'bfloat': 2}


def resolve(t):
    while isinstance(t, NamedTy):
        t = t.mod.types[t.name]
    return t


def align_of(t):
    t = resolve(t)
    if isinstance(t, IntTy):
        b = (t.w + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return min(p, 16)
    if isinstance(t, PtrTy):
        return 8
    if isinstance(t, FloatTy):
        return FLOATS[t.k]
    if isinstance(t, ArrTy):
        return align_of(t.el)
    if isinstance(t, StructTy):
        if t.packed or not t.els:
            return 1
        return max(align_of(e) for e in t.els)
    if isinstance(t, VecTy):
        return size_of(t)
    raise IRError('align of %r' % t)


def size_of(t):
    t = resolve(t)
    if isinstance(t, IntTy):
        b = (t.w + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if isinstance(t, PtrTy):
        return 8
    if isinstance(t, FloatTy):
        return FLOATS[t.k]
    if isinstance(t, ArrTy):
        return t.n * size_of(t.el)
    if isinstance(t, VecTy):
        return t.n * size_of(t.el)
    if isinstance(t, StructTy):
        return layout(t)[1]
    raise IRError('size of %r' % t)


def layout(t):
    if t._lay:
        return t._lay
    off = 0
    offs = []
    al = 1
    for e in t.els:
        a = 1 if t.packed else align_of(e)
        al = max(al, a)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(e)
    off = (off + al - 1) // al * al
    t._lay = (offs, off)
    return t._lay


# ---- values ------------------------------------------------------------
# ('reg', name) ('int', value, width) ('null',) ('undef',) ('poison',) ('zero',)
# ('global', name) ('cexpr', op, ...) ('agg', [(ty, val)...]) ('str', bytes) ('float', text)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'text')

    def __init__(self, op, res, ty, a, flags=(), text=''):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.flags = flags
        self.text = text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []
        self.succ = []


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'entry', 'defined', '_loops', 'text')

    def __init__(self, name):
        self.name = name
        self.ret = None
        self.params = []
        self.blocks = {}
        self.order = []
        self.entry = None
        self.defined = False
        self._loops = None
        self.text = []


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}


ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly returned signext zeroext
inreg immarg nofree nosync swiftself nest dead_on_unwind writable zeroext noext allocalign allocptr'''.split())
LINK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr
weak_odr external dso_local dso_preemptable hidden protected default dllimport dllexport unnamed_addr
local_unnamed_addr thread_local externally_initialized global constant'''.split())
CCONV = {'ccc', 'fastcc', 'coldcc', 'tail', 'musttail', 'notail'}
FASTM = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        if x == 'void':
            t = VOID
        elif x == 'ptr':
            t = PTR
            if self.accept('addrspace'):
                self.skip_paren()
        elif re.fullmatch(r'i[0-9]+', x):
            t = IntTy(int(x[1:]))
        elif x in FLOATS:
            t = FloatTy(x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = ArrTy(n, el)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                els = []
                while self.peek() != '}':
                    els.append(self.type())
                    self.accept(',')
                self.expect('}')
                self.expect('>')
                t = StructTy(els, True)
            else:
                n = int(self.next())
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = VecTy(n, el)
        elif x == '{':
            els = []
            while self.peek() != '}':
                els.append(self.type())
                self.accept(',')
            self.expect('}')
            t = StructTy(els, False)
        elif x[0] == '%':
            t = NamedTy(unq(x), self.mod)
        elif x in ('label', 'metadata', 'token', 'opaque'):
            t = OtherTy(x)
        else:
            raise IRError('type %s in %s' % (x, ' '.join(self.t)))
        # function type
        if self.peek() == '(' and not isinstance(t, OtherTy):
            j = self.i
            # only a function type when used as a call's type; caller handles
            pass
        return t

    def attrs(self):
        while True:
            x = self.peek()
            if x in ATTRS:
                self.next()
            elif x in ('align',):
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                       'preallocated', 'inalloca', 'memory', 'nofpclass', 'range', 'captures', 'initializes'):
                self.next()
                self.skip_paren()
            elif x and x[0] == '"' and x != '"':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return

    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('reg', unq(x))
        if x[0] == '@':
            return ('global', unq(x))
        if re.fullmatch(r'-?[0-9]+', x):
            rt = resolve(ty)
            if isinstance(rt, IntTy):
                return ('int', int(x), rt.w)
            return ('float', x)
        if x in ('true', 'false'):
            return ('int', 1 if x == 'true' else 0, 1)
        if x == 'null':
            return ('null',)
        if x == 'undef':
            return ('undef',)
        if x == 'poison':
            return ('poison',)
        if x in ('zeroinitializer', 'none'):
            return ('zero',)
        if x[0] == 'c' and len(x) > 1 and x[1] == '"':
            return ('str', cstr(x[2:-1]))
        if x.startswith('0x') or re.match(r'-?[0-9]+\.', x):
            return ('float', x)
        if x in CASTS:
            self.expect('(')
            t1 = self.type()
            v = self.value(t1)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cexpr', 'cast', x, t1, v, t2)
        if x == 'getelementptr':
            inb = self.accept('inbounds')
            if self.accept('inrange'):
                self.skip_paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            pt = self.type()
            pv = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('cexpr', 'gep', bt, pv, idx)
        if x in BINOPS:
            while self.peek() in ('nsw', 'nuw', 'exact'):
                self.next()
            self.expect('(')
            t1 = self.type()
            v1 = self.value(t1)
            self.expect(',')
            t2 = self.type()
            v2 = self.value(t2)
            self.expect(')')
            return ('cexpr', 'bin', x, t1, v1, v2)
        if x in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            else:
                packed = False
            els = []
            while self.peek() != close:
                t = self.type()
                els.append((t, self.value(t)))
                self.accept(',')
            self.expect(close)
            if packed:
                self.expect('>')
            return ('agg', els)
        if x in ('blockaddress', 'dso_local_equivalent', 'no_cfi', 'asm'):
            raise IRError('value ' + x)
        if x == 'metadata' or x[0] == '!':
            return ('meta',)
        raise IRError('value %s in %s' % (x, ' '.join(self.t)))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


ORDERINGS = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}


def parse_instr(line, mod):
    p = P(tokenize(line), mod)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    while op in CCONV:
        op = p.next()
    flags = []
    if op in BINOPS:
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in FASTM:
            flags.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (a, b), tuple(flags), line)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            flags.append(p.next())
        t1 = p.type()
        a = p.value(t1)
        p.expect('to')
        t2 = p.type()
        return Instr('cast', res, t2, (op, t1, a), tuple(flags), line)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FASTM or p.peek() == 'samesign':
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, IntTy(1), (pred, t, a, b), (), line)
    if op == 'fneg':
        while p.peek() in FASTM:
            p.next()
        t = p.type()
        a = p.value(t)
        return Instr('fneg', res, t, (a,), (), line)
    if op == 'select':
        while p.peek() in FASTM:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return Instr('select', res, t, (c, a, b), (), line)
    if op == 'phi':
        while p.peek() in FASTM:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = unq(p.next())
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Instr('phi', res, t, inc, (), line)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('br', None, None, (unq(p.next()),), (), line)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        b = unq(p.next())
        return Instr('cbr', None, None, (c, a, b), (), line)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while p.peek() != ']':
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, unq(p.next())))
        return Instr('switch', None, t, (v, d, cases), (), line)
    if op == 'ret':
        t = p.type()
        if isinstance(t, VoidTy):
            return Instr('ret', None, t, (None,), (), line)
        return Instr('ret', None, t, (p.value(t),), (), line)
    if op == 'unreachable':
        return Instr('unreachable', None, None, (), (), line)
    if op == 'alloca':
        t = p.type()
        n = None
        while p.accept(','):
            if p.peek() == 'align':
                p.next()
                p.next()
            elif p.peek() and p.peek()[0] == '!':
                p.next()
                p.accept(p.peek())
            elif p.peek() == 'addrspace':
                p.next()
                p.skip_paren()
            else:
                nt = p.type()
                n = (nt, p.value(nt))
        return Instr('alloca', res, PTR, (t, n), (), line)
    if op == 'load':
        at = p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        p.type()
        a = p.value(PTR)
        order = None
        if at:
            while p.peek() not in ORDERINGS:
                p.next()
            order = p.next()
        return Instr('load', res, t, (a,), (order,), line)
    if op == 'store':
        at = p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        a = p.value(PTR)
        order = None
        if at:
            while p.peek() not in ORDERINGS:
                p.next()
            order = p.next()
        return Instr('store', None, t, (v, a), (order,), line)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            flags.append(p.next())
        bt = p.type()
        p.expect(',')
        p.type()
        b = p.value(PTR)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            it = p.type()
            idx.append((it, p.value(it)))
        return Instr('gep', res, PTR, (bt, b, idx), tuple(flags), line)
    if op == 'atomicrmw':
        p.accept('volatile')
        k = p.next()
        p.type()
        a = p.value(PTR)
        p.expect(',')
        t = p.type()
        v = p.value(t)
        order = p.next()
        return Instr('atomicrmw', res, t, (k, a, v), (order,), line)
    if op == 'cmpxchg':
        weak = p.accept('weak')
        p.accept('volatile')
        p.type()
        a = p.value(PTR)
        p.expect(',')
        t = p.type()
        c = p.value(t)
        p.expect(',')
        t2 = p.type()
        n = p.value(t2)
        o1 = p.next()
        o2 = p.next()
        return Instr('cmpxchg', res, t, (a, c, n), (o1, o2, weak), line)
    if op == 'fence':
        return Instr('fence', None, None, (), (p.next(),), line)
    if op == 'freeze':
        t = p.type()
        return Instr('freeze', res, t, (p.value(t),), (), line)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('extractvalue', res, t, (v, idx), (), line)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(','):
            if not re.fullmatch(r'[0-9]+', p.peek() or ''):
                break
            idx.append(int(p.next()))
        return Instr('insertvalue', res, t, (v, t2, v2, idx), (), line)
    if op in ('call', 'invoke'):
        while p.peek() in FASTM:
            p.next()
        while p.peek() in CCONV:
            p.next()
        p.attrs()
        t = p.type()
        if p.peek() == '(':   # full function type
            p.skip_paren()
        if p.peek() == 'asm':
            return Instr('asm', res, t, (), (), line)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while p.peek() != ')':
            at = p.type()
            p.attrs()
            if isinstance(at, OtherTy) and at.k == 'metadata':
                # skip metadata operand
                d = 0
                while True:
                    x = p.peek()
                    if d == 0 and x in (',', ')'):
                        break
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                    p.next()
                args.append((at, ('meta',)))
            else:
                args.append((at, p.value(at)))
            p.accept(',')
        p.expect(')')
        tgt = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            n1 = unq(p.next())
            p.expect('unwind')
            p.expect('label')
            n2 = unq(p.next())
            tgt = (n1, n2)
        return Instr(op, res, t, (callee, args, tgt), (), line)
    if op in ('landingpad', 'resume', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
        return Instr('unsupported', res, None, (op,), (), line)
    raise IRError('instr %s: %s' % (op, line))


def parse(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        s = ln.strip()
        if not s or s[0] in ';!$' or s.startswith(('source_filename', 'target ', 'attributes ', 'module asm', 'declare !')):
            continue
        if s.startswith('%') and ' = type ' in s:
            nm, _, rest = s.partition(' = type ')
            p = P(tokenize(rest), mod)
            if p.peek() == 'opaque':
                mod.types[unq(nm)] = StructTy([], False)
            else:
                mod.types[unq(nm)] = p.type()
            continue
        if s.startswith('@'):
            toks = tokenize(s)
            p = P(toks, mod)
            nm = unq(p.next())
            p.expect('=')
            if 'alias' in toks[:12]:
                tail = [t for t in toks if t[0] == '@']
                mod.aliases[nm] = unq(tail[-1])
                continue
            const = False
            ext = False
            while p.peek() in LINK or p.peek() in ('addrspace',):
                x = p.next()
                if x == 'constant':
                    const = True
                if x in ('external', 'extern_weak'):
                    ext = True
                if x in ('thread_local', 'addrspace') and p.peek() == '(':
                    p.skip_paren()
            t = p.type()
            init = None
            if not ext and p.peek() not in (',', None):
                init = p.value(t)
            mod.globals[nm] = (t, init, const)
            continue
        if s.startswith('declare') or s.startswith('define'):
            header = s
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', header)
            nm = unq('@' + m.group(1))
            f = mod.funcs.get(nm) or Func(nm)
            mod.funcs[nm] = f
            pre = header[:m.start()]
            toks = tokenize(pre)
            p = P(toks, mod)
            p.next()
            while p.peek() in LINK or p.peek() in CCONV:
                p.next()
            p.attrs()
            f.ret = p.type()
            # params
            j = m.end() - 1
            d = 0
            k = j
            inq = False
            while True:
                c = header[k]
                if c == '"':
                    inq = not inq
                elif not inq:
                    if c == '(':
                        d += 1
                    elif c == ')':
                        d -= 1
                        if d == 0:
                            break
                k += 1
            p = P(tokenize(header[j + 1:k]), mod)
            f.params = []
            cnt = 0
            while p.peek():
                if p.peek() == '...':
                    p.next()
                    continue
                t = p.type()
                p.attrs()
                if p.peek() and p.peek()[0] == '%':
                    pn = unq(p.next())
                else:
                    pn = '%%%d' % cnt
                cnt += 1
                f.params.append((t, pn))
                p.accept(',')
            if s.startswith('define'):
                f.defined = True
                cur = None
                while True:
                    ln = lines[i]
                    i += 1
                    f.text.append(ln)
                    s2 = ln.strip()
                    if s2 == '}':
                        break
                    if not s2 or s2[0] == ';':
                        continue
                    mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                    if mm and not ln.startswith(' '):
                        bn = unq('%' + mm.group(1))
                        cur = Block(bn)
                        f.blocks[bn] = cur
                        f.order.append(bn)
                        if f.entry is None:
                            f.entry = bn
                        continue
                    if cur is None:
                        bn = '%%%d' % cnt
                        cur = Block(bn)
                        f.blocks[bn] = cur
                        f.order.append(bn)
                        f.entry = bn
                    if s2.startswith('switch') and not s2.endswith(']') and ']' not in s2:
                        while True:
                            nx = lines[i].strip()
                            i += 1
                            s2 += ' ' + nx
                            if nx.startswith(']'):
                                break
                    s2 = re.sub(r',?\s*!(?:[a-zA-Z_.]+) ![0-9]+', '', s2)
                    s2 = re.sub(r',?\s*!srcloc ![0-9]+', '', s2)
                    ins = parse_instr(s2, mod)
                    if ins.op == 'phi':
                        cur.phis.append(ins)
                    else:
                        cur.ins.append(ins)
                for b in f.blocks.values():
                    t = b.ins[-1]
                    if t.op == 'br':
                        b.succ = [t.a[0]]
                    elif t.op == 'cbr':
                        b.succ = [t.a[1], t.a[2]]
                    elif t.op == 'switch':
                        b.succ = [t.a[1]] + [c[1] for c in t.a[2]]
                    elif t.op == 'invoke':
                        b.succ = [t.a[2][0]]
            continue
        # ignore anything else
    return mod


def loops(f):
    """natural loops: header -> set of block names (merged per header)."""
    if f._loops is not None:
        return f._loops
    preds = {b: [] for b in f.blocks}
    for b in f.blocks.values():
        for s in b.succ:
            preds[s].append(b.name)
    # reachable, rpo
    order = []
    seen = set()
    stack = [(f.entry, iter(f.blocks[f.entry].succ))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    res = {}
    for b in order:
        for s in f.blocks[b].succ:
            if dom(s, b):
                body = res.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(q for q in preds[x] if q in idx)
    f._loops = res
    return res
