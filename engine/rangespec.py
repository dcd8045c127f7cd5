"""Functional specifications of the slices (fu::vec_range, fu::vec_range_mut) and views.

A slice is a pointer to an array and the numbers L and R of items it leaves out at either end; its invariant is
L, R >= 0 and L + R <= size.  What it denotes is the window [L, size-R) of the array.
"""
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, ULT, ULE, UGT, UGE, Implies, BoolVal, simplify, ZeroExt, SignExt, Extract, Concat
from mem import Base, Store, Copy, Fill, bv, tb
import contracts as C
import vecspec as VS
from vecspec import ELEMS, Piece, old, z64, n64, I0, finish, clamp, zero_items, junk_items, lim, at_most, two, MAXN, item_base

OPS = {}
CASES = {}


def op(name, nvec=1, kinds=None, only=None, cases=None):
    def d(f):
        OPS[name] = (f, nvec, kinds, only)
        if cases:
            CASES[name] = cases
        return f
    return d


class R:
    """a slice of vector v"""
    __slots__ = ('v', 'reg', 'L', 'R', 'w')


def rng(cx, v, name='r', trim=None):
    """trim: None any, 'none' the whole array, 'some' not the whole array"""
    r = R()
    r.v = v
    if trim == 'none':
        r.L = r.R = I0
        r.w = v.n
    else:
        r.L = cx.i32('L_' + name)
        r.R = cx.i32('R_' + name)
        cx.st.pc.extend([r.L >= 0, r.R >= 0, r.L <= v.n, r.R <= v.n - r.L])
        if trim == 'some':
            cx.st.pc.append(Or(r.L != 0, r.R != 0))
        r.w = simplify(v.n - (r.L + r.R))
    node = Base(lambda o: BitVecVal(0, 8))
    node = Store(node, bv(0), 8, v.reg.base)
    node = Store(node, bv(8), 4, r.L)
    node = Store(node, bv(12), 4, r.R)
    r.reg = cx.eng.new_region(cx.st, name, 16, 'obj', node)
    return r


def before(r):
    return old(r.v, I0, r.L, 'items before the slice')


def after(r):
    return old(r.v, simplify(r.L + r.w), r.R, 'items after the slice')


def win(r, lo=None, cnt=None, name='items of the slice'):
    return old(r.v, simplify(r.L + lo) if lo is not None else r.L, r.w if cnt is None else cnt, name)


def same_slice(cx, *rs):
    def post(s, ds):
        for r in rs:
            rd = cx.eng.reader(s)
            m = s.mem[r.reg.name]
            cx.eng.oblige(s, 'slice', 'the slice still leaves out the same items',
                          And(rd.load(m, bv(0), 8) == r.v.reg.base, rd.load(m, bv(8), 4) == r.L,
                              rd.load(m, bv(12), 4) == r.R))
    return post


def run(cx, fn, args):
    return cx.run('@%s_%s' % (cx.E.name, fn), args)


def edit(cx, r, outs, mid, extra=(), arrays=(), need=None):
    finish(cx, outs, [(r.v, [before(r)] + mid + [after(r)])] + list(extra), arrays, need=need, post=same_slice(cx, r))


@op('r_push')
def _(cx, k):
    r = rng(cx, cx.vec('v', k[0]))
    x, it = cx.elem()
    lim(cx, r.v.n, I0 + 1)
    edit(cx, r, run(cx, 'r_push', [r.reg.base, x.base]), [win(r), Piece(bv(1), it, 'the pushed item')],
         arrays=[(x, bv(1))], need=n64(r.v) + 1)


@op('r_unshift')
def _(cx, k):
    r = rng(cx, cx.vec('v', k[0]))
    x, it = cx.elem()
    lim(cx, r.v.n, I0 + 1)
    edit(cx, r, run(cx, 'r_unshift', [r.reg.base, x.base]), [Piece(bv(1), it, 'the unshifted item'), win(r)],
         arrays=[(x, bv(1))], need=n64(r.v) + 1)


class W:
    """what vecspec.one_idx & co need to know about a window"""

    def __init__(self, r):
        self.n = r.w


@op('r_insert', cases=VS.IDX)
def _(cx, k):
    r = rng(cx, cx.vec('v', k[0]))
    x, it = cx.elem()
    i, i0 = VS.one_idx(cx, W(r))
    lim(cx, r.v.n, I0 + 1)
    edit(cx, r, run(cx, 'r_insert', [r.reg.base, i0, x.base]),
         [win(r, I0, i, 'items before'), Piece(bv(1), it, 'the inserted item'), win(r, i, simplify(r.w - i), 'items after')],
         arrays=[(x, bv(1))], need=n64(r.v) + 1)


def resize_like(fn, junk, lo, hi):
    def f(cx, k):
        r = rng(cx, cx.vec('v', k[0]))
        m = cx.i32('newsize', lambda a: And(a >= 0, a <= MAXN))
        c = cx.case
        # one case per direction
        if c == 'in':
            cx.st.pc.append(m <= r.w)
            keep, add = (m if lo else r.w), I0
        else:
            cx.st.pc.append(m > r.w)
            keep, add = r.w, (simplify(m - r.w) if hi else I0)
        lim(cx, r.v.n, add)
        outs = run(cx, fn, [r.reg.base, m])
        ps = [win(r, I0, keep)]
        if hi:
            ps.append(junk_items(cx.E, add) if junk else zero_items(cx.E, add))
        edit(cx, r, outs, ps, need=simplify(n64(r.v) + z64(add)))
    return f


SZ = ('in', 'more')
VS.CASENAME['more'] = 'larger'
VS.CASENAME['neg'] = 'negative'
for _fn, _j, _l, _h in (('r_resize', False, True, True), ('r_resize_junk', True, True, True), ('r_grow', False, False, True),
                        ('r_grow_junk', True, False, True), ('r_shrink', False, True, False)):
    op(_fn, cases=SZ)(resize_like(_fn, _j, _l, _h))


@op('r_shrink_neg')
def _(cx, k):
    r = rng(cx, cx.vec('v', k[0]))
    m = cx.i32('newsize', lambda a: a < 0)
    edit(cx, r, run(cx, 'r_shrink', [r.reg.base, m]), [], need=n64(r.v))


@op('r_clear')
def _(cx, k):
    r = rng(cx, cx.vec('v', k[0]))
    edit(cx, r, run(cx, 'r_clear', [r.reg.base]), [], need=n64(r.v))


@op('r_pop')
def _(cx, k):
    r = rng(cx, cx.vec('v', k[0]))
    d = simplify(If(r.w > 0, I0 + 1, I0))
    edit(cx, r, run(cx, 'r_pop', [r.reg.base]), [win(r, I0, simplify(r.w - d))], need=n64(r.v))


@op('r_splice', cases=VS.IDXDEL)
def _(cx, k):
    r = rng(cx, cx.vec('v', k[0]))
    i, d, i0, d0 = VS.idx_del(cx, W(r))
    edit(cx, r, run(cx, 'r_splice', [r.reg.base, i0, d0]),
         [win(r, I0, i, 'items before'), win(r, simplify(i + d), simplify(r.w - i - d), 'items after')], need=n64(r.v))


@op('r_splice_mv', 2, cases=VS.IDXDEL)
def _(cx, k):
    v, w = two(cx, k)
    r = rng(cx, v)
    i, d, i0, d0 = VS.idx_del(cx, W(r))
    lim(cx, v.n, w.n)
    edit(cx, r, run(cx, 'r_splice_mv', [r.reg.base, i0, d0, w.reg.base]),
         [win(r, I0, i, 'items before'), old(w, I0, w.n, 'spliced items'),
          win(r, simplify(i + d), simplify(r.w - i - d), 'items after')], need=n64(v) + n64(w))


@op('r_append_mv', 2, cases=VS.DEL)
def _(cx, k):
    v, w = two(cx, k)
    r = rng(cx, v)
    d, d0 = VS.any_del(cx, W(r))
    lim(cx, v.n, w.n)
    edit(cx, r, run(cx, 'r_append_mv', [r.reg.base, d0, w.reg.base]),
         [win(r, I0, simplify(r.w - d), 'items before'), old(w, I0, w.n, 'appended items')], need=n64(v) + n64(w))


@op('r_append0_mv', 2)
def _(cx, k):
    v, w = two(cx, k)
    r = rng(cx, v)
    lim(cx, v.n, w.n)
    edit(cx, r, run(cx, 'r_append0_mv', [r.reg.base, w.reg.base]),
         [win(r), old(w, I0, w.n, 'appended items')], need=n64(v) + n64(w))


@op('r_assign_mv', 2)
def _(cx, k):
    v, w = two(cx, k)
    r = rng(cx, v)
    lim(cx, v.n, w.n)
    edit(cx, r, run(cx, 'r_assign_mv', [r.reg.base, w.reg.base]), [old(w, I0, w.n, 'assigned items')],
         need=n64(v) + n64(w))


@op('r_splice_cp', 1, ('ext', 'self'), only='share', cases=VS.IDXDEL)
def _(cx, k):
    v = cx.vec('v', k[0])
    p, m, it = VS.source(cx, k[1], v)
    r = rng(cx, v)
    i, d, i0, d0 = VS.idx_del(cx, W(r))
    lim(cx, v.n, m)
    edit(cx, r, run(cx, 'r_splice_cp', [r.reg.base, i0, d0, p, m]),
         [win(r, I0, i, 'items before'), Piece(m, it, 'spliced items'),
          win(r, simplify(i + d), simplify(r.w - i - d), 'items after')], need=n64(v) + z64(m))


@op('r_append_cp', 1, ('ext', 'self'), only='share', cases=VS.DEL)
def _(cx, k):
    v = cx.vec('v', k[0])
    p, m, it = VS.source(cx, k[1], v)
    r = rng(cx, v)
    d, d0 = VS.any_del(cx, W(r))
    lim(cx, v.n, m)
    edit(cx, r, run(cx, 'r_append_cp', [r.reg.base, d0, p, m]),
         [win(r, I0, simplify(r.w - d), 'items before'), Piece(m, it, 'appended items')], need=n64(v) + z64(m))


@op('r_append0_cp', 1, ('ext', 'self'), only='share')
def _(cx, k):
    v = cx.vec('v', k[0])
    p, m, it = VS.source(cx, k[1], v)
    r = rng(cx, v)
    lim(cx, v.n, m)
    edit(cx, r, run(cx, 'r_append0_cp', [r.reg.base, p, m]), [win(r), Piece(m, it, 'appended items')],
         need=n64(v) + z64(m))


@op('r_assign_vec', 2, ('none', 'some'), only='share')
def _(cx, k):
    v, w = two(cx, k)
    r = rng(cx, v, trim=k[2])
    lim(cx, v.n, w.n)
    edit(cx, r, run(cx, 'r_assign_vec', [r.reg.base, w.reg.base]), [old(w, I0, w.n, 'assigned items')],
         [(w, [old(w, I0, w.n, 'the source is unchanged')])], need=n64(v) + n64(w))


def assign_from(fn):
    @op(fn, 2, ('none', 'some'), only='share')
    def _(cx, k):
        v, w = two(cx, k)
        r = rng(cx, v, trim=k[2])
        q = rng(cx, w, 'q')
        lim(cx, v.n, w.n)
        outs = run(cx, fn, [r.reg.base, q.reg.base])
        finish(cx, outs, [(v, [before(r), win(q, name='assigned items'), after(r)]),
                          (w, [old(w, I0, w.n, 'the source is unchanged')])], need=n64(v) + n64(w), post=same_slice(cx, r, q))

    @op(fn + '_self', 1, ('none', 'some'), only='share')
    def _(cx, k):
        # both slices are of the same array
        v = cx.vec('v', k[0])
        r = rng(cx, v, trim=k[1])
        q = rng(cx, v, 'q')
        lim(cx, v.n, v.n)
        outs = run(cx, fn, [r.reg.base, q.reg.base])
        finish(cx, outs, [(v, [before(r), win(q, name='assigned items'), after(r)])], need=n64(v) + n64(v),
               post=same_slice(cx, r, q))


assign_from('r_assign_rm')
assign_from('r_assign_rc')


def to_vec(fn):
    @op(fn, only='share')
    def _(cx, k):
        v = cx.vec('v', k[0])
        r = rng(cx, v)
        o = cx.raw_struct('o')
        outs = run(cx, fn, [o.base, r.reg.base])
        finish(cx, outs, [(o, [win(r)]), (v, [old(v, I0, v.n, 'the source is unchanged')])], need=n64(v),
               post=same_slice(cx, r))


to_vec('r_to_vec')
to_vec('rc_to_vec')


def dmove(fn):
    @op(fn)
    def _(cx, k):
        v = cx.vec('v', k[0])
        r = rng(cx, v)
        o = cx.raw_struct('o')
        finish(cx, run(cx, fn, [o.base, r.reg.base]), [(o, [win(r)])], need=n64(v))


dmove('r_dmove')
dmove('r_dmove_def')


def c_memswap(eng, st, a, ins):
    """swaps n bytes of two ranges that do not overlap (proved against mem/memswap.cpp for C13)"""
    p, q, n = a
    v, nz = C.ne0(n)
    if v is False:
        return [(st, None)]
    guard = nz if v is None and eng.decide(st, nz) is None else None
    if v is None and guard is None and eng.decide(st, nz) is False:
        return [(st, None)]
    rp, po = eng.resolve(st, p, n, True, 'memswap left', guard)
    rq, qo = eng.resolve(st, q, n, True, 'memswap right', guard)
    if rp is None or rq is None:
        return [(st, None)]
    if rp is rq:
        eng.oblige(st, 'mem', 'swapped ranges do not overlap',
                   Or(n == 0, po == qo, And(UGE(qo - po, n), UGE(po - qo, n))))
        m = st.mem[rp.name]
        st.mem[rp.name] = Copy(Copy(m, po, n, m, qo), qo, n, m, po)
        return [(st, None)]
    mp, mq = st.mem[rp.name], st.mem[rq.name]
    st.mem[rp.name] = Copy(mp, po, n, mq, qo)
    st.mem[rq.name] = Copy(mq, qo, n, mp, po)
    return [(st, None)]


def swap_ctx(cx):
    cx.eng.contracts['@_ZN2fu7memswapEPhS0_m'] = c_memswap


@op('r_swap_vec', 2)
def _(cx, k):
    swap_ctx(cx)
    v, w = two(cx, k)
    r = rng(cx, v)
    lim(cx, v.n, w.n)
    outs = run(cx, 'r_swap_vec', [r.reg.base, w.reg.base])
    finish(cx, outs, [(v, [before(r), old(w, I0, w.n, 'the other items'), after(r)]), (w, [win(r)])],
           need=n64(v) + n64(w), post=same_slice(cx, r))


@op('v_swap_rm', 2)
def _(cx, k):
    swap_ctx(cx)
    v, w = two(cx, k)
    r = rng(cx, v)
    lim(cx, v.n, w.n)
    outs = run(cx, 'v_swap_rm', [w.reg.base, r.reg.base])
    finish(cx, outs, [(v, [before(r), old(w, I0, w.n, 'the other items'), after(r)]), (w, [win(r)])],
           need=n64(v) + n64(w), post=same_slice(cx, r))


def swap2(fn):
    @op(fn, 2, ('shorter', 'not shorter'))
    def _(cx, k):
        swap_ctx(cx)
        v, w = two(cx, k)
        r = rng(cx, v)
        q = rng(cx, w, 'q')
        cx.st.pc.append(r.w < q.w if k[-1] == 'shorter' else r.w >= q.w)
        lim(cx, v.n, w.n)
        outs = run(cx, fn, [r.reg.base, q.reg.base])
        finish(cx, outs, [(v, [before(r), win(q, name='items of the other slice'), after(r)]),
                          (w, [before(q), win(r, name='items of the other slice'), after(q)])],
               need=n64(v) + n64(w), post=same_slice(cx, r, q))


swap2('r_swap_rm')
swap2('r_swap_rmv')


def jobs(elems=None, ops=None, table=None):
    table = table or (OPS, CASES)
    save = (VS.OPS, VS.CASES)
    try:
        VS.OPS, VS.CASES = table
        # an array without storage has no proper part
        return [j for j in VS.jobs(elems, ops) if not (j.kinds[-1] == 'some' and j.kinds[0] == 'null' or
                                                       j.kinds[-1] == 'shorter' and len(j.kinds) > 1 and j.kinds[1] == 'null')]
    finally:
        VS.OPS, VS.CASES = save
