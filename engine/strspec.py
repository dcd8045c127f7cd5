"""Comparison, search, decimal text and string literals."""
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, ULT, ULE, UGT, UGE, Implies, BoolVal, simplify, ZeroExt, SignExt, Extract, Concat
from sym import EngineError
from mem import Base, Store, Copy, Fill, bv, tb, const_of
import contracts as C
import vecspec as VS
from vecspec import ELEMS, Piece, old, z64, n64, I0, finish
from viewspec import source, view_struct, Src


class Job:
    def __init__(self, op, ename, kinds, fn, args=()):
        self.op, self.ename, self.kinds, self.args = op, ename, kinds, args
        self.fn = fn
        self.case = 'in'

    def title(self):
        return '%s<%s>(%s)' % (self.op, ELEMS[self.ename].T, ','.join(k for k in self.kinds if k))


def kinds_of(E, k):
    return E.kinds() if k in ('v', 'rc', 'rm') else ['']


def inside(cx, name, of):
    """a view of items of the same array another view has"""
    a = of.reg
    s = Src()
    s.kind, s.E, s.v, s.r, s.off = 'w', cx.E, None, None, bv(0)
    s.n = cx.i32('n_' + name)
    lo = cx.i32('at_' + name)
    cx.st.pc.append(And(s.n >= 0, lo >= 0, lo <= of.n, s.n <= of.n - lo))
    s.ptr = simplify(of.ptr + z64(lo) * cx.E.size)
    s.reg = view_struct(cx, 'w' + name, s.ptr, s.n)
    lo64 = z64(lo)
    s.item = lambda j: of.item(simplify(lo64 + j))
    return s


def pair(cx, ka, kb, va, vb):
    cx.eng.memcmp_gran = cx.E.size
    a = source(cx, ka, va or None, '_a')
    b = inside(cx, '_b', a) if vb == 'inside' else source(cx, kb, vb or None, '_b')
    return a, b


def first_diff(cx, fa, na, fb, nb, name='firstdiff'):
    """the first position where two sequences differ (the length of the shorter one if there is none): it always exists"""
    st = cx.st
    na, nb = z64(na), z64(nb)
    d = cx.eng.ranged(st, name, 0, 1 << 32)
    m = simplify(If(ULT(na, nb), na, nb))
    st.pc.append(ULE(d, m))
    st.pc.append(Or(d == m, fa(d) != fb(d)))
    st.schemas.append((d, lambda j: fa(j) == fb(j)))
    return d, m


def insts(cx, s, d):
    """terms the quantified facts are used at: every position that bounds one of them"""
    ts = []
    for k in [d] + [k for k, fn in s.schemas] + [k for w, k in s.ghost.get('memcmp', [])]:
        t = simplify(k)
        if not any(t.eq(x) for x in ts):
            ts.append(t)
    return tuple(ts)


def done(cx, outs, srcs, chk):
    """nothing may be written; chk(s) states the result"""
    eng = cx.eng
    vs = [(x.v, [old(x.v, I0, x.v.n, 'the array is unchanged')]) for x in srcs if x.v is not None]

    def post(s, ds):
        chk(s)
    finish(cx, outs, vs, need=bv(0), post=post)


def job_eq(fn, ka, kb, neg):
    def f(cx, va, vb):
        a, b = pair(cx, ka, kb, va, vb)
        d, m = first_diff(cx, a.item, a.n, b.item, b.n)
        outs = cx.run(fn, [a.reg.base, b.reg.base])

        def chk(s):
            eq = And(a.n == b.n, d == m)
            cx.eng.oblige(s, 'compare', 'equal exactly if lengths and all items are equal',
                          s.retval == (Not(eq) if neg else eq), inst=insts(cx, s, d))
        done(cx, outs, [a, b], chk)
    return f


def job_ord(fn, ka, kb, rel):
    def f(cx, va, vb):
        a, b = pair(cx, ka, kb, va, vb)
        d, m = first_diff(cx, a.item, a.n, b.item, b.n)
        outs = cx.run(fn, [a.reg.base, b.reg.base])
        x, y = a.item(d), b.item(d)
        lt = Or(And(d == m, a.n < b.n), And(d != m, ULT(x, y)))
        eq = And(d == m, a.n == b.n)
        want = {'lt': lt, 'le': Or(lt, eq), 'gt': And(Not(lt), Not(eq)), 'ge': Not(lt)}[rel]

        def chk(s):
            cx.eng.oblige(s, 'compare', 'the order is that of the first differing byte, a proper prefix comes first',
                          s.retval == want, inst=insts(cx, s, d))
        done(cx, outs, [a, b], chk)
    return f


def clampz(i, lo, hi):
    return simplify(If(i < lo, lo, If(i > hi, hi, i)))


def job_find(fn, ka, kb, nargs):
    """the first position >= start where the needle occurs (and ends by `end`)"""
    def f(cx, va, vb):
        a, b = pair(cx, ka, kb, va, vb)
        args = []
        st = cx.st
        start, end = I0, a.n
        if nargs >= 1:
            i = cx.i32('start')
            args.append(i)
            start = clampz(i, I0, a.n)
        if nargs == 2:
            j = cx.i32('end')
            args.append(j)
            st.pc.append(And(j >= start, j <= a.n))   # asserted by the debug build
            end = j
        outs = cx.run(fn, [a.reg.base, b.reg.base] + args)

        def chk(s):
            eng = cx.eng
            r = s.retval
            base = a.ptr if a.v is None else None
            ra = [x for x in eng.bases(simplify(a.ptr)) if x in s.regions][0]
            rb = [x for x in eng.bases(simplify(b.ptr)) if x in s.regions][0]
            ho = simplify(a.ptr - s.regions[ra].base)
            no = simplify(b.ptr - s.regions[rb].base)
            occ = eng.ghost_occurs(s, s.mem[ra], s.mem[rb], no, z64(b.n))
            p = eng.ranged(s, 'p', 0, 1 << 32)
            ins = (simplify(p - z64(start)),) + insts(cx, s, simplify(p - z64(start)))
            room = And(ULE(z64(start), p), ULE(p + z64(b.n), z64(end)))
            for neg, s2 in eng.fork(s, r == -1):
                if neg:
                    eng.oblige(s2, 'search', 'not found exactly if there is no occurrence', Not(And(room, occ(simplify(ho + p)))), inst=ins)
                else:
                    eng.oblige(s2, 'search', 'a found position is inside the part searched',
                               And(r >= start, z64(r) + z64(b.n) <= z64(end)))
                    eng.oblige(s2, 'search', 'the needle occurs at the found position', occ(simplify(ho + z64(r))))
                    eng.oblige(s2, 'search', 'it does not occur before the found position',
                               Not(And(room, ULT(p, z64(r)), occ(simplify(ho + p)))), inst=ins)
        done(cx, outs, [a, b], chk)
    return f


def job_match(fn, ka, kb, right, nargs):
    def f(cx, va, vb):
        a, b = pair(cx, ka, kb, va, vb)
        args = []
        start = I0
        if nargs:
            i = cx.i32('start')
            args.append(i)
            start = clampz(i, I0, a.n)
        fits = b.n <= a.n - start
        at = z64(simplify(a.n - start - b.n if right else start))
        # where it fits, compare the needle with that part of the text
        fa = lambda j: a.item(simplify(at + j))
        d = cx.eng.ranged(cx.st, 'firstdiff', 0, 1 << 32)
        nb = z64(b.n)
        cx.st.pc.append(ULE(d, nb))
        cx.st.pc.append(Or(d == nb, Not(fits), fa(d) != b.item(d)))
        cx.st.schemas.append((simplify(If(fits, d, bv(0))), lambda j: fa(j) == b.item(j)))
        outs = cx.run(fn, [a.reg.base, b.reg.base] + args)

        def chk(s):
            cx.eng.oblige(s, 'search', 'true exactly if the text has the needle there', s.retval == And(fits, d == nb),
                          inst=insts(cx, s, d))
        done(cx, outs, [a, b], chk)
    return f


EQS = [(e, t, a, b) for e in ('c1', 'c2', 'c8', 'b24') for t, a, b in
       (('vv', 'v', 'v'), ('vw', 'v', 'w'), ('wv', 'w', 'v'), ('ww', 'w', 'w'), ('rcw', 'rc', 'w'), ('vrm', 'v', 'rm'))]
EQS += [('c1', 'vs', 'v', 'l'), ('c1', 'sw', 'l', 'w'), ('c1', 'wmw', 'wm', 'w')]
ORD = [('vv', 'v', 'v'), ('vs', 'v', 'l'), ('sw', 'l', 'w'), ('ww', 'w', 'w')]
FIND = [('ww', 'w', 'w'), ('vs', 'v', 'l'), ('vv', 'v', 'v')]


def shapes(E, ka, kb, small=False):
    out = []
    for x in kinds_of(E, ka):
        for y in kinds_of(E, kb):
            if small and ka == kb == 'v' and 'shared' in (x, y):
                continue
            out.append((x, y))
    if ka == kb == 'w':
        out.append(('', 'inside'))
    return out


def compare_jobs(elems):
    out = []
    for e, t, a, b in EQS:
        if e not in elems:
            continue
        for sh in shapes(ELEMS[e], a, b, e != 'c1'):
            for neg in (0, 1):
                n = '%s_%s' % ('ne' if neg else 'eq', t)
                out.append(Job(n, e, sh, job_eq('@%s_%s' % (e, n), a, b, neg)))
    for t, a, b in ORD:
        for sh in shapes(ELEMS['c1'], a, b):
            for rel in ('lt', 'le', 'gt', 'ge'):
                out.append(Job('%s_%s' % (rel, t), 'c1', sh, job_ord('@ord_%s_%s' % (rel, t), a, b, rel)))
    return out


def search_jobs():
    out = []
    for t, a, b in FIND:
        for sh in shapes(ELEMS['c1'], a, b):
            for n, nm in ((0, 'find'), (1, 'find1'), (2, 'find2')):
                out.append(Job('%s_%s' % (nm, t), 'c1', sh, job_find('@%s_%s' % (nm, t), a, b, n)))
            for nm, right in (('lmatch', False), ('rmatch', True)):
                for n, x in ((0, ''), (1, '1')):
                    out.append(Job('%s%s_%s' % (nm, x, t), 'c1', sh, job_match('@%s%s_%s' % (nm, x, t), a, b, right, n)))
    return out


# ---- decimal text

def uquot(a, c):
    """a / c with the nested quotients by constants folded into one"""
    w = a.size()
    a = simplify(a)
    if c >= 1 << w:
        return BitVecVal(0, w)
    k = const_of(a)
    if k is not None:
        return BitVecVal(k // c, w)
    if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
        c0 = const_of(a.arg(1))
        if c0:
            if c0 * c >= 1 << w:
                return BitVecVal(0, w)
            return simplify(z3.UDiv(a.arg(0), BitVecVal(c0 * c, w)))
    return simplify(z3.UDiv(a, BitVecVal(c, w))) if c > 1 else a


def div_hook(eng, st, op, a, b):
    c = const_of(b)
    if not c or op not in ('udiv', 'urem'):
        return None
    q = uquot(a, c)
    return q if op == 'udiv' else simplify(a - BitVecVal(c, a.size()) * q)


def digits(x):
    """number of decimal digits of x (64 bits)"""
    r = bv(20)
    for k in range(19, 0, -1):
        r = If(ULT(x, bv(10 ** k)), bv(k), r)
    return r


def digit(x, k):
    """the character of the digit of x that counts 10^k"""
    return simplify(BitVecVal(48, 8) + Extract(7, 0, simplify(uquot(x, 10 ** k) - 10 * uquot(x, 10 ** (k + 1)))))


def text_at(cx, s, d, i):
    return simplify(cx.eng.reader(s).load(s.mem[d['region']], simplify(d['off'] + i), 1))


def text_len(cx, s, d, hi):
    """-> [(state, length)]: the length, case by case if the path does not fix it"""
    k = const_of(d['n'])
    if k is not None:
        return [(s, k)]
    out = []
    for k in range(hi + 1):
        s2 = s.clone()
        s2.pc.append(d['n'] == k)
        if cx.eng.feasible(s2):
            out.append((s2, k))
    return out


def job_dec(fn, signed):
    def f(cx, part):
        eng = cx.eng
        eng.unroll_limit = 24
        eng.hooks['div'] = div_hook
        n = BitVec('n', 64)
        cx.show('n', n)
        o = cx.raw_struct('o')
        neg = signed and part == 'negative'
        if signed:
            cx.st.pc.append(n < 0 if neg else n >= 0)
        x = simplify(-n) if neg else n
        outs = cx.run(fn, [o.base, n])
        ln = digits(x) + (1 if neg else 0)

        def post(s, ds):
            d = ds[0]
            for s2, L in text_len(cx, s, d, 21):
                first = 0
                if neg:
                    eng.oblige(s2, 'text', 'a negative number starts with a minus sign', text_at(cx, s2, d, 0) == 45)
                    first = 1
                for i in range(first, L):
                    eng.oblige(s2, 'text', 'each character is the decimal digit of its place', text_at(cx, s2, d, i) == digit(x, L - 1 - i))
        finish(cx, outs, [(o, [Piece(ln, None, 'the digits')])], need=bv(21), post=post)
    return f


def c_snprintf(eng, st, a, ins):
    """"%f" of a double writes a text of at least 3 and at most 317 characters, cut to the buffer and ended by a zero"""
    fmt = cstring(eng, st, a[2])
    if fmt != '%f':
        raise EngineError('snprintf with a format other than %f')
    x = a[3]
    F = z3.Function('ftext', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
    Ln = z3.Function('ftextlen', z3.BitVecSort(64), z3.BitVecSort(32))
    ln = Ln(x)
    st.pc.append(And(ln >= 3, ln <= 317))
    size = simplify(a[1])
    w = simplify(If(size == 0, bv(0), If(ULT(ZeroExt(32, ln), size), ZeroExt(32, ln), size - 1)))
    eng.oblige(st, 'mem', 'snprintf into a buffer that is not empty', size != 0)
    r, off = eng.resolve(st, a[0], simplify(w + 1), True, 'snprintf')
    if r is not None:
        st.mem[r.name] = Store(Copy(st.mem[r.name], off, w, Base(lambda o: F(x, o)), bv(0)), simplify(off + w), 1, BitVecVal(0, 8))
    return [(st, ln)]


def cstring(eng, st, p):
    """the text a pointer to a constant global points at"""
    p = simplify(p)
    rn = [b for b in eng.bases(p) if b in st.regions]
    if len(rn) != 1:
        raise EngineError('a text that is not one constant')
    r = st.regions[rn[0]]
    off = const_of(simplify(p - r.base))
    t = ''
    while off is not None and len(t) < 4096:
        c = const_of(simplify(eng.reader(st).load(st.mem[r.name], bv(off + len(t)), 1)))
        if c is None:
            break
        if c == 0:
            return t
        t += chr(c)
    raise EngineError('a text that is not constant')


def c_strlen(eng, st, a, ins):
    p = simplify(a[0])
    rn = [b for b in eng.bases(p) if b in st.regions]
    if len(rn) == 1 and 'cstr' in (st.regions[rn[0]].tag or {}):
        r = st.regions[rn[0]]
        off = simplify(p - r.base)
        n = r.tag['cstr']
        eng.oblige(st, 'mem', 'strlen of a text in bounds', ULE(off, n))
        eng.resolve(st, p, simplify(n - off + 1), False, 'strlen')
        return [(st, simplify(n - off))]
    return [(st, bv(len(cstring(eng, st, p))))]


def job_fdec(fn, single):
    def f(cx):
        eng = cx.eng
        n = BitVec('n', 32 if single else 64)
        o = cx.raw_struct('o')
        F = z3.Function('ftext', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
        Ln = z3.Function('ftextlen', z3.BitVecSort(64), z3.BitVecSort(32))
        eng.contracts['@snprintf'] = c_snprintf
        x = n
        if single:
            x = z3.Function('fpext_32_64', z3.BitVecSort(32), z3.BitVecSort(64))(n)
        outs = cx.run(fn, [o.base, n])
        finish(cx, outs, [(o, [Piece(z64(Ln(x)), lambda j: F(x, j), 'the text of the number')])], need=bv(400))
    return f


def job_booldec(fn):
    def f(cx, b):
        o = cx.raw_struct('o')
        outs = cx.run(fn, [o.base, BoolVal(b)])
        finish(cx, outs, [(o, [Piece(bv(1), lambda j: BitVecVal(49 if b else 48, 8), 'the digit')])], need=bv(1))
    return f


# ---- literals and C strings

def job_lit_str(fn):
    def f(cx):
        a = source(cx, 'l', None, '_a')
        o = cx.raw_struct('o')
        outs = cx.run(fn, [o.base, a.reg.base])
        finish(cx, outs, [(o, [Piece(a.n, a.item, 'the characters of the literal')])], need=z64(a.n))
    return f


def job_lit_make(fn):
    def f(cx):
        n = cx.i32('n')
        cx.st.pc.append(n >= 0)
        t, it = cx.array('text', n)
        o = cx.raw_struct('o')
        outs = cx.run(fn, [o.base, t.base, z64(n)])

        def post(s, ds):
            rd = cx.eng.reader(s)
            cx.eng.oblige(s, 'literal', 'the literal is at the text', rd.load(s.mem[o.name], bv(0), 8) == t.base)
            cx.eng.oblige(s, 'literal', 'the literal has the length of the text', rd.load(s.mem[o.name], bv(8), 4) == n)
        finish(cx, outs, [], need=bv(0), post=post)
    return f


def cstr(cx):
    """a text that ends with a zero byte, its length without it"""
    n = cx.i32('n')
    cx.st.pc.append(And(n >= 0, n <= 0x7ffffffe))
    item, _ = cx.items('text', n)
    f = Base(lambda o: If(o == z64(n), BitVecVal(0, 8), item(o)))
    r = cx.eng.new_region(cx.st, 'text', simplify(z64(n) + 1), 'obj', f, dict(write=False), tag=dict(cstr=z64(n)))
    return r, n, item


def job_cstr_str(fn):
    def f(cx, null):
        cx.eng.contracts['@strlen'] = c_strlen
        o = cx.raw_struct('o')
        if null:
            outs = cx.run(fn, [o.base, bv(0)])
            finish(cx, outs, [(o, [Piece(bv(0), None, '')])], need=bv(0))
            return
        r, n, item = cstr(cx)
        outs = cx.run(fn, [o.base, r.base])
        finish(cx, outs, [(o, [Piece(n, item, 'the characters of the text')])], need=z64(n))
    return f


def job_cstr_view(fn):
    def f(cx, k):
        v = cx.vec('v', k)
        r, n, item = cstr(cx)
        o = cx.raw_struct('o')
        outs = cx.run(fn, [o.base, v.reg.base, r.base, n])

        def post(s, ds):
            rd = cx.eng.reader(s)
            cx.eng.oblige(s, 'literal', 'the view is at the text', rd.load(s.mem[o.name], bv(0), 8) == r.base)
            cx.eng.oblige(s, 'literal', 'the view has the length given', rd.load(s.mem[o.name], bv(8), 4) == n)
        finish(cx, outs, [(v, [old(v, I0, v.n, 'the array is unchanged')])], need=bv(0), post=post)
    return f


def job_cstr_copy(fn):
    def f(cx, k):
        v = cx.vec('v', k)
        r, n, item = cstr(cx)
        VS.lim(cx, v.n, n)
        outs = cx.run(fn, [v.reg.base, r.base, n])
        finish(cx, outs, [(v, [Piece(n, item, 'the characters of the text')])], need=n64(v) + z64(n))
    return f


def text_jobs():
    J = lambda op, kinds, fn: Job(op, 'c1', kinds, fn)
    E = ELEMS['c1']
    out = [J('u64dec', ('any',), job_dec('@dec_u64', False)), J('i64dec', ('not negative',), job_dec('@dec_i64', True)),
           J('i64dec', ('negative',), job_dec('@dec_i64', True))]
    for x in (False, True):
        b = Job('booldec', 'c1', (), lambda cx, x=x: job_booldec('@dec_bool')(cx, x))
        out.append(b)
    out += [J('f64dec', (), job_fdec('@dec_f64', False)), J('f32dec', (), job_fdec('@dec_f32', True))]
    out += [J('literal to string', (), job_lit_str('@lit_str')), J('literal', (), job_lit_make('@lit_make')),
            J('literal view', (), job_lit_make('@lit_view'))]
    out += [Job('C string to string', 'c1', (), lambda cx, x=x: job_cstr_str('@cstr_str')(cx, x)) for x in (False, True)]
    out += [J('C string view', (k,), job_cstr_view('@cstr_view')) for k in E.kinds()]
    out += [J('C string into string', (k,), job_cstr_copy('@cstr_copy')) for k in E.kinds()]
    return out
