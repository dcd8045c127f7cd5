"""Bulk swap and assignment: memswap.cpp itself, view_assign, view_swap."""
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, ULT, ULE, UGT, UGE, Implies, BoolVal, simplify, ZeroExt, Extract
from mem import Base, Store, Copy, bv, tb
import contracts as C
import vecspec as VS
import rangespec as RS
import arcspec
from vecspec import ELEMS, Piece, old, z64, n64, I0, finish, lim
from viewspec import source, SLATE
from catspec import BEHIND


class Job:
    def __init__(self, op, ename, kinds, fn, args=()):
        self.op, self.ename, self.kinds, self.args = op, ename, kinds, args
        self.fn = fn
        self.case = 'in'

    def title(self):
        return '%s<%s>(%s)' % (self.op, ELEMS[self.ename].T, ','.join(k for k in self.kinds if k))


# ---- memswap

def job_memswap(cx, how):
    """how: two objects, the same bytes, or two separate stretches of one object"""
    eng, st = cx.eng, cx.st
    n = cx.var('bytes')
    st.pc.append(ULE(n, bv(1 << 32)))
    fa, fb = eng.freshfn('a'), eng.freshfn('b')
    if how == 'two objects':
        ra = cx.obj('a', simplify(n + 16), Base(lambda o: fa(o)))
        rb = cx.obj('b', simplify(n + 16), Base(lambda o: fb(o)))
        oa, ob = bv(8), bv(8)
    else:
        size = cx.var('size')
        oa, ob = cx.var('left'), cx.var('right')
        st.pc.append(ULE(size, bv((1 << 33) - 1)))
        for o in (oa, ob):
            st.pc += [ULE(o, size), ULE(n, size - o)]
        st.pc.append(oa == ob if how == 'the same bytes' else Or(ULE(oa + n, ob), ULE(ob + n, oa)))
        ra = rb = cx.obj('a', size, Base(lambda o: fa(o)))
        fb = fa
        if how == 'the same bytes':
            ob = oa
    outs = cx.run('@_ZN2fu7memswapEPhS0_m', [simplify(ra.base + oa), simplify(rb.base + ob), n])
    eng.cover(outs)
    for s in outs:
        if s.outcome:
            eng.oblige(s, 'trap', 'swapping does not end the program', BoolVal(False))
            continue
        for r, f, g, o, p in ((ra, fa, fb, oa, ob), (rb, fb, fa, ob, oa)):
            s2 = s.clone()
            j = eng.ranged(s2, 'j', 0, 1 << 43)
            s2.pc.append(ULT(j, r.size))
            got = eng.reader(s2).load(s2.mem[r.name], j, 1)
            if r is not rb or ra is not rb:
                ins = ULT(simplify(j - o), n)
                for yes, s3 in eng.fork(s2, ins):
                    if yes:
                        eng.oblige(s3, 'content', 'swapped bytes are those of the other stretch', got == g(simplify(j - o + p)))
                    else:
                        eng.oblige(s3, 'frame', 'bytes outside of the stretches are unchanged', got == f(j))
                continue
            for yes, s3 in eng.fork(s2, ULT(simplify(j - oa), n)):
                if yes:
                    eng.oblige(s3, 'content', 'swapped bytes are those of the other stretch', got == f(simplify(j - oa + ob)))
                    continue
                for yes2, s4 in eng.fork(s3, ULT(simplify(j - ob), n)):
                    if yes2:
                        eng.oblige(s4, 'content', 'swapped bytes are those of the other stretch', got == f(simplify(j - ob + oa)))
                    else:
                        eng.oblige(s4, 'frame', 'bytes outside of the stretches are unchanged', got == f(j))


MEMSWAP = ('two objects', 'the same bytes', 'separate stretches of one object')


# ---- views

def region_of(cx, ptr):
    return [cx.st.regions[b] for b in cx.eng.bases(simplify(ptr)) if b in cx.st.regions][0]


def array_is(cx, s, reg, total, cases):
    """item j of the array in region reg is, in the first case whose condition holds, the value given"""
    eng, E = cx.eng, cx.E
    s = s.clone()
    j = eng.ranged(s, 'j', 0, 1 << 32)
    s.pc.append(ULT(j, z64(total)))
    if not eng.feasible(s):
        return
    got = eng.reader(s).load(s.mem[reg.name], simplify(j * E.size), E.size)
    work = [s]
    for name, cond, val in cases:
        nxt = []
        for x in work:
            for yes, y in eng.fork(x, cond(j)):
                if yes:
                    eng.oblige(y, 'content', name, got == val(j), inst=(j,))
                else:
                    nxt.append(y)
        work = nxt
    for x in work:
        eng.oblige(x, 'content', 'case analysis', BoolVal(False))


def job_swap2(fn, f, how):
    def run(cx, k):
        kind = {'m': 'wm'}.get(f, f)
        src = source(cx, kind, k or None)
        i, j = cx.i32('i'), cx.i32('j')
        st = cx.st
        st.pc.append({'below': i < j, 'above': i > j, 'equal': i == j}[how])
        if how == 'equal':
            j = i
        ok = And(ULT(i, src.n), ULT(j, src.n))
        outs = cx.run('@%s_%s' % (cx.E.name, fn), [src.reg.base, i, j])
        lo, hi = (i, j) if how != 'above' else (j, i)
        one = I0 + 1
        if src.v is not None:
            v = src.v
            base = src.r.L if src.r is not None else I0
            if how == 'equal':
                ps = [old(v, I0, v.n, 'items')]
            else:
                p, q = simplify(base + lo), simplify(base + hi)
                ps = [old(v, I0, p, 'items before'), old(v, q, one, 'the item swapped in'),
                      old(v, simplify(p + 1), simplify(q - p - 1), 'items between'), old(v, p, one, 'the item swapped in'),
                      old(v, simplify(q + 1), simplify(v.n - q - 1), 'items after')]
            finish(cx, outs, [(v, ps)], need=n64(v), trap=Not(ok), post=RS.same_slice(cx, src.r) if src.r is not None else None)
            return
        reg = region_of(cx, src.ptr)

        def chk(s, ds):
            array_is(cx, s, reg, src.n,
                     [('the item swapped in', lambda x: x == z64(i), lambda x: src.item(z64(j))),
                      ('the item swapped in', lambda x: x == z64(j), lambda x: src.item(z64(i))),
                      ('other items are unchanged', lambda x: BoolVal(True), lambda x: src.item(x))])
        finish(cx, outs, [], need=bv(0), trap=Not(ok), post=chk)
    return run


def job_assign(fn, fa, fb):
    """items of one size on both sides; the number assigned is that of the shorter one"""
    def run(cx, ka, kb):
        a = source(cx, {'m': 'wm', 'mv': 'wm'}.get(fa, fa), ka or None, '_a')
        if kb == 'inside':
            b = inside_m(cx, a)
        else:
            b = source(cx, {'m': 'wm'}.get(fb, fb), kb or None, '_b')
        outs = cx.run('@%s_%s' % (cx.E.name, fn), [a.reg.base, b.reg.base])
        m = simplify(If(a.n < b.n, a.n, b.n))
        fin = []
        rs = [x.r for x in (a, b) if x.r is not None]
        if a.v is not None:
            v = a.v
            base = a.r.L if a.r is not None else I0
            end = simplify(base + m)
            fin.append((v, [old(v, I0, base, 'items before'), Piece(z64(m), b.item, 'items assigned'),
                            old(v, end, simplify(v.n - end), 'items after')]))
        if b.v is not None:
            fin.append((b.v, [old(b.v, I0, b.v.n, 'the source is unchanged')]))
        ra = region_of(cx, a.ptr) if a.v is None else None
        rb = region_of(cx, b.ptr) if b.v is None else None

        def chk(s, ds):
            if rs:
                RS.same_slice(cx, *rs)(s, ds)
            if ra is not None:
                array_is(cx, s, ra, a.n, [('items assigned', lambda x: ULT(x, z64(m)), b.item),
                                          ('other items are unchanged', lambda x: BoolVal(True), a.item)])
            if rb is not None and rb is not ra:
                array_is(cx, s, rb, b.n, [('the source is unchanged', lambda x: BoolVal(True), b.item)])
        finish(cx, outs, fin, need=n64(a.v) if a.v is not None else bv(0), post=chk)
    return run


def inside_m(cx, a):
    import strspec
    return strspec.inside(cx, '_b', a)


def job_bytes(fn, sa, sb):
    """items of different sizes: byte by byte"""
    def run(cx):
        eng, st = cx.eng, cx.st
        na, nb = cx.var('left_items', 32), cx.var('right_items', 32)
        fa, fb = eng.freshfn('a'), eng.freshfn('b')
        for n, sz in ((na, sa), (nb, sb)):
            st.pc += [n >= 0, ULE(z64(n) * sz, bv((1 << 31) - 16))]
        ra = cx.obj('a', simplify(z64(na) * sa), Base(lambda o: fa(o)))
        rb = cx.obj('b', simplify(z64(nb) * sb), Base(lambda o: fb(o)), info=dict(write=False))
        ws = []
        for nm, r, n in (('wa', ra, na), ('wb', rb, nb)):
            node = Store(Store(Base(lambda o: BitVecVal(0, 8)), bv(0), 8, r.base), bv(8), 4, n)
            ws.append(cx.obj(nm, 16, node))
        outs = cx.run(fn, [w.base for w in ws])
        eng.cover(outs)
        for s in outs:
            if s.outcome:
                eng.oblige(s, 'trap', 'assigning does not end the program', BoolVal(False))
                continue
            for r, src in ((ra, True), (rb, False)):
                s2 = s.clone()
                j = eng.ranged(s2, 'j', 0, 1 << 32)
                s2.pc.append(ULT(j, r.size))
                if not eng.feasible(s2):
                    continue
                got = eng.reader(s2).load(s2.mem[r.name], j, 1)
                if not src:
                    eng.oblige(s2, 'frame', 'the source is unchanged', got == fb(j))
                    continue
                for yes, s3 in eng.fork(s2, ULT(j, rb.size)):
                    eng.oblige(s3, 'content', 'bytes assigned' if yes else 'other bytes are unchanged', got == (fb(j) if yes else fa(j)))
    return run


def jobs(elems, plain):
    out = []
    for e in elems:
        E = ELEMS[e]
        for f in ('v', 'rm', 'm', 's'):
            if not E.trivial and f not in BEHIND:
                continue
            for k in (E.kinds() if f in BEHIND else ['']):
                for how in ('below', 'above', 'equal'):
                    fn = job_swap2('vswap_' + f, f, how)
                    out.append(Job('vswap_' + f, e, (k, how), lambda cx, k, how, fn=fn: fn(cx, k)))
    for e in plain:
        E = ELEMS[e]
        for a, b in (('m', 'w'), ('mv', 'w'), ('m', 'v'), ('m', 'rc'), ('v', 'w'), ('rm', 'w'), ('s', 'w'), ('m', 's')):
            for ka in (E.kinds() if a in BEHIND else ['']):
                for kb in (E.kinds() if b in BEHIND else ['']) + (['inside'] if (a, b) in (('m', 'w'), ('mv', 'w')) else []):
                    out.append(Job('vset_%s_%s' % (a, b), e, (ka, kb), job_assign('vset_%s_%s' % (a, b), a, b)))
    return out
