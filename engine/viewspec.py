"""Functional specifications of element access and of taking slices and views (see rangespec for slices as a type)."""
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, ULT, ULE, UGT, UGE, Implies, BoolVal, simplify, ZeroExt, SignExt, Extract, Concat
from mem import Base, Store, Copy, Fill, bv, tb
import vecspec as VS
import rangespec as RS
from vecspec import ELEMS, Piece, old, z64, n64, I0, finish, clamp, lim
from rangespec import R, rng, run

SLATE = 5


class Src:
    """something with items: base address of the items (now), number of items, mutable-data rule"""
    __slots__ = ('kind', 'reg', 'ptr', 'n', 'v', 'r', 'off', 'E', 'item')


def view_struct(cx, name, ptr, n):
    f = cx.eng.freshfn('viewpad')
    node = Base(lambda o: f(o))
    node = Store(node, bv(0), 8, ptr)
    node = Store(node, bv(8), 4, n)
    return cx.eng.new_region(cx.st, name, 16, 'obj', node)


def source(cx, kind, vk=None, name=''):
    """kind: v (array), w/wm (view), rc/rm (slice), s (fixed literal), l (string literal)"""
    s = Src()
    s.kind, s.E, s.v, s.r, s.off = kind, cx.E, None, None, bv(0)
    if kind == 'v':
        s.v = cx.vec('v' + name, vk)
        s.reg, s.ptr, s.n = s.v.reg, s.v.ptr, s.v.n
    elif kind in ('rc', 'rm'):
        s.v = cx.vec('v' + name, vk)
        s.r = rng(cx, s.v, 'r' + name)
        s.reg, s.n = s.r.reg, s.r.w
        s.off = simplify(z64(s.r.L) * cx.E.size)
        s.ptr = simplify(s.v.ptr + s.off) if s.v.ptr is not None else None
    elif kind in ('w', 'wm', 'l'):
        n = cx.i32('n_w' + name)
        cx.st.pc.append(And(n >= 0, ULE(z64(n) * cx.E.size, bv((1 << 31) - 16))))
        a, s.item = cx.array('items' + name, n, kind == 'wm')
        s.ptr, s.n = a.base, n
        s.reg = view_struct(cx, 'w' + name, a.base, n)
    elif kind == 's':
        n = BitVecVal(SLATE, 32)
        a, s.item = cx.array('literal' + name, n, True)
        s.reg, s.ptr, s.n = a, a.base, n
    else:
        raise KeyError(kind)
    if s.v is not None:
        lo = z64(s.r.L) if s.r is not None else bv(0)
        s.item = lambda j: s.v.item(simplify(lo + j))
    return s


def srckinds(E, kind):
    return [(k,) for k in E.kinds()] if kind in ('v', 'rc', 'rm') else [()]


def where_items(cx, s, src, ds):
    """address of the first item of src in the final state"""
    if src.v is None:
        return src.ptr
    d = ds[0]
    if d['region'] is None:
        return None
    return simplify(s.regions[d['region']].base + d['off'] + src.off)


def fin(cx, src, outs, chk, mut=False, trap=None):
    eng = cx.eng

    def post(s, ds):
        if src.r is not None:
            RS.same_slice(cx, src.r)(s, ds)
        if mut and src.v is not None:
            VS.unique_post(cx, src.v)(s, ds)
        chk(s, where_items(cx, s, src, ds))
    finish(cx, outs, [(src.v, [old(src.v, I0, src.v.n, 'the array is unchanged')])] if src.v is not None else [],
           need=n64(src.v) if src.v is not None else bv(0), post=post)


def eqp(got, want):
    return BoolVal(True) if want is None else got == want


class Job:
    def __init__(self, op, ename, kinds, fn):
        self.op, self.ename, self.kinds, self.fn, self.case = op, ename, kinds, fn, 'in'

    def title(self):
        return '%s<%s>(%s)' % (self.op, ELEMS[self.ename].T, ','.join(self.kinds))


# ---- access

def job_index(fn, kind, mut):
    def f(cx, k):
        src = source(cx, kind, *k)
        i = cx.i32('idx')
        outs = run(cx, fn, [src.reg.base, i])
        inr = ULT(i, src.n)

        def chk(s, base):
            eng = cx.eng
            if base is not None:
                eng.oblige(s, 'index', 'an index in range selects that item',
                           Implies(inr, s.retval == base + z64(i) * cx.E.size))
            else:
                eng.oblige(s, 'index', 'an array without storage has no items', Not(inr))
            eng.oblige(s, 'index', 'an index out of range selects the trap address', Implies(Not(inr), s.retval == 1))
        fin(cx, src, outs, chk, mut)
    return f


def job_val(fn, kind, what, mut=False):
    def f(cx, k):
        src = source(cx, kind, *k)
        outs = run(cx, fn, [src.reg.base])

        def chk(s, base):
            eng = cx.eng
            r = s.retval
            if what == 'size':
                eng.oblige(s, 'index', 'size() is the number of items', r == src.n)
            elif what == 'bytesize':
                eng.oblige(s, 'index', 'bytesize() is the number of bytes', r == z64(src.n) * cx.E.size)
            elif what == 'bool':
                eng.oblige(s, 'index', 'true iff there are items', r == (src.n != 0))
            elif what == 'data':
                eng.oblige(s, 'index', 'data() points at the first item', Implies(src.n != 0, eqp(r, base)))
            elif what == 'end':
                eng.oblige(s, 'index', 'end() points past the last item',
                           Implies(src.n != 0, eqp(r, None if base is None else base + z64(src.n) * cx.E.size)))
        fin(cx, src, outs, chk, mut)
    return f


ACCESS = {}
for _p, _k in (('r', 'rm'), ('rc', 'rc'), ('w', 'w'), ('wm', 'wm'), ('v', 'v'), ('s', 's')):
    ACCESS[_p + '_at'] = (_k, job_index(_p + '_at', _k, False))
for _p, _k in (('r', 'rm'), ('wm', 'wm'), ('v', 'v'), ('s', 's')):
    ACCESS[_p + '_mutref'] = (_k, job_index(_p + '_mutref', _k, True))
for _p, _k, _ws in (('r', 'rm', 'size bytesize bool data data_mut'), ('rc', 'rc', 'size bool data'),
                    ('w', 'w', 'size bool data begin end'), ('wm', 'wm', 'size bool data data_mut begin end'),
                    ('s', 's', 'size bool data data_mut')):
    for _w in _ws.split():
        ACCESS[_p + '_' + _w] = (_k, job_val(_p + '_' + _w, _k, {'data_mut': 'data', 'begin': 'data'}.get(_w, _w),
                                             _w == 'data_mut'))


# ---- taking views and slices

def bounds(cx, n, form):
    """form '2' start,end; '1' start; '0' end; '' whole.  yields (args, start', end') with the bounds cut to the items,
    one case per side of the items each bound can be on"""
    st0 = cx.st
    i, j = BitVec('start', 32), BitVec('end', 32)
    if form in ('2', '1'):
        cx.show('start', i)
    if form in ('2', '0'):
        cx.show('end', j)
    ends = [(j < 0, I0), (And(j >= 0, j <= n), j), (j > n, n)] if form in ('2', '0') else [(None, n)]
    for ce, b in ends:
        starts = [(i < 0, I0), (And(i >= 0, i <= b), i), (And(i >= 0, i > b), b)] if form in ('2', '1') else [(None, I0)]
        for cs, a in starts:
            cx.st = st0.clone()
            cx.st.pc += [c for c in (ce, cs) if c is not None]
            if not cx.eng.feasible(cx.st):
                continue
            yield ([i] if form in ('2', '1') else []) + ([j] if form in ('2', '0') else []), a, b


def job_view(fn, kind, form, mut):
    def f(cx, k):
        src = source(cx, kind, *k)
        o = cx.raw_struct('o')
        for args, a, b in bounds(cx, src.n, form):
            one(cx, src, o, args, a, b)

    def one(cx, src, o, args, a, b):
        outs = run(cx, fn, [o.base, src.reg.base] + args)

        def chk(s, base):
            eng = cx.eng
            rd = eng.reader(s)
            m = s.mem[o.name]
            p, n = rd.load(m, bv(0), 8), rd.load(m, bv(8), 4)
            eng.oblige(s, 'slice', 'the view has the items between the bounds, cut to what there is', n == b - a)
            if base is not None:
                eng.oblige(s, 'slice', 'the view starts at its first item', Or(n == 0, p == base + z64(a) * cx.E.size))
                eng.oblige(s, 'slice', 'an empty view stays inside the items',
                           Implies(n == 0, And(UGE(p, base), ULE(p, base + z64(src.n) * cx.E.size))))
        fin(cx, src, outs, chk, mut)
    return f


def job_range(fn, kind, form, srckind):
    def f(cx, k):
        src = source(cx, kind, *k)
        o = cx.raw_struct('o')
        for args, a, b in bounds(cx, src.n, form):
            one(cx, src, o, args, a, b)

    def one(cx, src, o, args, a, b):
        outs = run(cx, fn, [o.base, src.reg.base] + args)
        L = src.r.L if src.r else I0
        Rr = src.r.R if src.r else I0

        def chk(s, base):
            eng = cx.eng
            rd = eng.reader(s)
            m = s.mem[o.name]
            eng.oblige(s, 'slice', 'the slice is of the same array', rd.load(m, bv(0), 8) == src.v.reg.base)
            eng.oblige(s, 'slice', 'the slice leaves out the items before its start', rd.load(m, bv(8), 4) == L + a)
            eng.oblige(s, 'slice', 'the slice leaves out the items after its end', rd.load(m, bv(12), 4) == Rr + (src.n - b))
        fin(cx, src, outs, chk)
    return f


TAKE = {}
for _t, _k in (('v', 'v'), ('w', 'w'), ('wm', 'wm'), ('rc', 'rc'), ('rm', 'rm'), ('s', 's')):
    for _f, _m in (('w2', '2'), ('w1', '1'), ('w0', '0'), ('wof', '')):
        TAKE['%s_%s' % (_f, _t)] = (_k, job_view('%s_%s' % (_f, _t), _k, _m, False))
for _t, _k in (('v', 'v'), ('wm', 'wm'), ('rm', 'rm'), ('s', 's')):
    for _f, _m in (('wm2', '2'), ('wm1', '1'), ('wm0', '0'), ('wmof', '')):
        TAKE['%s_%s' % (_f, _t)] = (_k, job_view('%s_%s' % (_f, _t), _k, _m, True))
TAKE['wmx2'] = ('wm', job_view('wmx2', 'wm', '2', True))
TAKE['wmx1'] = ('wm', job_view('wmx1', 'wm', '1', True))
TAKE['wptr'] = ('w', job_view('wptr', 'w', '', False))
TAKE['wmptr'] = ('wm', job_view('wmptr', 'wm', '', False))
TAKE['vmut'] = ('v', job_view('vmut', 'v', '', True))
for _f, _k in (('rm_of_v', 'v'), ('rc_of_v', 'v'), ('rc_of_rm', 'rm'), ('rm_copy', 'rm'), ('rm_ptr', 'rm'), ('rc_ptr', 'rc')):
    TAKE[_f] = (_k, job_range(_f, _k, '', _k))
for _p, _k in (('rc', 'rc'), ('rcv', 'v'), ('rcm', 'rm'), ('rm', 'rm'), ('rmv', 'v')):
    for _m in '210':
        TAKE[_p + _m] = (_k, job_range(_p + _m, _k, _m, _k))


def job_slice(fn, form, move):
    """copying / moving slices of an array.  The end (start+count) of the move form must be representable."""
    def f(cx, k):
        v = cx.vec('v', k[0])
        o = cx.raw_struct('o')
        if form == 'n':
            i, c = cx.i32('start'), cx.i32('count')
            cx.st.pc.append(And(i >= 0, c >= 0, c <= 0x7fffffff - i))
            args = [i, c]
            j = simplify(i + c)
        else:
            i = cx.i32('start')
            args = [i]
            j = v.n
            if form == '2':
                j = cx.i32('end')
                args.append(j)
                # end - start and size - end are computed as they are
                cx.st.pc.append(j >= 0)
        case = k[1]
        n = v.n
        if case == 'in':
            cx.st.pc.append(And(i >= 0, i <= j, j <= n))
            a, b = i, j
        elif case == 'empty':
            cx.st.pc.append(Or(i >= j, i >= n))
            a, b = I0, I0
        elif case == 'low':
            cx.st.pc.append(And(i < 0, j <= n))
            a, b = I0, j
        else:
            cx.st.pc.append(And(i >= 0, i <= n, j > n))
            a, b = i, n
        if not cx.eng.feasible(cx.st):
            cx.eng.oblige(cx.st, 'slice', 'this combination does not exist', BoolVal(True))
            return
        outs = run(cx, fn, [o.base, v.reg.base] + args)
        ps = [(o, [old(v, a, simplify(b - a), 'the items between the bounds')])]
        if not move:
            ps.append((v, [old(v, I0, v.n, 'the source is unchanged')]))
        finish(cx, outs, ps, need=n64(v))
    return f


SLICE = {}
for _f, _m, _mv in (('slice2', '2', False), ('slice1', '1', False), ('substr', 'n', False),
                    ('slicem2', '2', True), ('slicem1', '1', True), ('substrm', 'n', True)):
    SLICE[_f] = ('v', job_slice(_f, _m, _mv))
SLICECASE = ('in', 'empty', 'low', 'high')


def job_into(fn, kind, dsize, mut):
    def f(cx, k):
        src = source(cx, kind, *k)
        o = cx.raw_struct('o')
        # an exact fit and an aligned start, as the debug build asserts
        tot = simplify(z64(src.n) * cx.E.size)
        cx.st.pc.append(z3.URem(tot, bv(dsize)) == 0)
        outs = run(cx, fn, [o.base, src.reg.base])

        def chk(s, base):
            eng = cx.eng
            rd = eng.reader(s)
            m = s.mem[o.name]
            p, n = rd.load(m, bv(0), 8), rd.load(m, bv(8), 4)
            eng.oblige(s, 'slice', 'the reinterpreted view covers the same bytes', And(n >= 0, z64(n) * dsize == tot))
            if base is not None:
                eng.oblige(s, 'slice', 'the reinterpreted view starts at the same byte', Or(n == 0, p == base))
        fin(cx, src, outs, chk, mut)
    return f


def into_ops(dsize):
    return {'into': ('w', job_into('into', 'w', dsize, False)), 'into_v': ('v', job_into('into_v', 'v', dsize, False)),
            'into_m': ('wm', job_into('into_m', 'wm', dsize, True)), 'into_vm': ('v', job_into('into_vm', 'v', dsize, True))}


def jobs(elems, table):
    out = []
    for en in elems:
        E_ = ELEMS[en]
        for name, (kind, f) in table.items():
            if name in ('slice2', 'slice1', 'substr') and not E_.share:
                continue
            for ks in srckinds(E_, kind):
                if name in SLICE:
                    for c in SLICECASE:
                        if c == 'low' and name.startswith('substr') or c == 'high' and name in ('slice1', 'slicem1'):
                            continue
                        out.append(Job(name, en, ks + (c,), f))
                else:
                    out.append(Job(name, en, ks, f))
    return out
