"""Concatenation: the result holds the items of the operands in order; operands kept are unchanged, those given away consumed."""
import z3
from z3 import BitVecVal, And, Or, Not, ULE, ULT, simplify, BoolVal
from mem import bv
import vecspec as VS
import rangespec as RS
from vecspec import ELEMS, Piece, old, z64, n64, I0, finish, lim
from viewspec import source, SLATE
from strspec import inside


class Job:
    def __init__(self, op, ename, kinds, fn, args=()):
        self.op, self.ename, self.kinds, self.args = op, ename, kinds, args
        self.fn = fn
        self.case = 'in'

    def title(self):
        return '%s<%s>(%s)' % (self.op, ELEMS[self.ename].T, ','.join(k for k in self.kinds if k))


class Op:
    """an operand: n (BV32), item(j), pieces, what it is afterwards"""
    __slots__ = ('f', 'src', 'v', 'r', 'n', 'item', 'ptr', 'reg', 'arr')


def operand(cx, f, k, name, other=None):
    """f: the form; k: the storage form of the array behind it, 'same' (shares the block of the other operand's array),
    'inside' (a view of items of the other operand), 'own' (the other operand itself)"""
    o = Op()
    o.f, o.v, o.r, o.arr = f, None, None, None
    if f == 'x':
        x, o.item = cx.elem()
        o.reg, o.n, o.ptr = x, I0 + 1, x.base
        o.arr = (x, bv(1))
        return o
    kind = {'V': 'v', 'm': 'wm'}.get(f, f)
    if k == 'own':
        # the operand is (a slice of, a view of) the array of the other operand
        v = other.v
        if kind == 'v':
            s = None
            o.v, o.n, o.ptr, o.reg = v, v.n, v.ptr, v.reg
            o.item = v.item
            return o
        o.v = v
        o.r = RS.rng(cx, v, 'r' + name)
        o.n, o.reg = o.r.w, o.r.reg
        lo = z64(o.r.L)
        o.item = lambda j: v.item(simplify(lo + j))
        return o
    if k == 'same':
        if kind == 'v':
            o.v = cx.vec('v' + name, 'shared', share=other.v)
            o.n, o.ptr, o.reg, o.item = o.v.n, o.v.ptr, o.v.reg, o.v.item
            return o
        v = cx.vec('v' + name, 'shared', share=other.v)
        o.v = v
        o.r = RS.rng(cx, v, 'r' + name)
        o.n, o.reg = o.r.w, o.r.reg
        lo = z64(o.r.L)
        o.item = lambda j: v.item(simplify(lo + j))
        return o
    if k == 'inside':
        s = inside(cx, name, other.src if other.src is not None else other)
    else:
        s = source(cx, kind, k or None, name)
    o.src = s
    o.v, o.r, o.n, o.item, o.ptr, o.reg = s.v, s.r, s.n, s.item, s.ptr, s.reg
    return o


def all_items(o, name):
    return Piece(z64(o.n), lambda j: o.item(j), name)


def kept(o):
    """an operand that is kept: its array is unchanged"""
    return [(o.v, [old(o.v, I0, o.v.n, 'the operand is unchanged')])] if o.v is not None else []


def slices(cx, *os):
    rs = [o.r for o in os if o.r is not None]
    return RS.same_slice(cx, *rs) if rs else None


def forms(cx, fa, fb, ka, kb):
    cx.eng.short = True
    a = operand(cx, fa, ka, '_a')
    b = operand(cx, fb, kb, '_b', a)
    return a, b


def job_cat(fn, fa, fb):
    def f(cx, ka, kb):
        o = cx.raw_struct('o')
        a, b = forms(cx, fa, fb, ka, kb)
        lim(cx, a.n, b.n)
        outs = cx.run('@%s_%s' % (cx.E.name, fn), [o.base, a.reg.base, b.reg.base])
        fin = [(o, [all_items(a, 'items of the left operand'), all_items(b, 'items of the right operand')])]
        for x in (a,) if a.v is not None and b.v is a.v else (a, b):
            if x.f != 'V':
                fin += kept(x)
        # a result may not fit although the sum does: an array given away keeps its spare room
        room = z64(a.n) + z64(b.n)
        for x in (a, b):
            if x.v is not None and x.f == 'V':
                room = simplify(room + n64(x.v))
        finish(cx, outs, fin, [x.arr for x in (a, b) if x.arr], need=room, post=slices(cx, a, b))
    return f


def job_add(fn, fa, fb):
    def f(cx, ka, kb):
        a, b = forms(cx, fa, fb, ka, kb)
        lim(cx, a.v.n, b.n)
        outs = cx.run('@%s_%s' % (cx.E.name, fn), [a.reg.base, b.reg.base])
        add = all_items(b, 'items added')
        if a.r is None:
            fin = [(a.v, [old(a.v, I0, a.v.n, 'items before'), add])]
        else:
            fin = [(a.v, [RS.before(a.r), RS.win(a.r), add, RS.after(a.r)])]
        if b.f != 'V' and b.v is not a.v:
            fin += kept(b)
        finish(cx, outs, fin, [x.arr for x in (b,) if x.arr], need=simplify(n64(a.v) + z64(b.n)), post=slices(cx, a, b))
    return f


def job_set(fn, fb):
    def f(cx, ka, kb):
        a, b = forms(cx, 'v', fb, ka, kb)
        outs = cx.run('@%s_%s' % (cx.E.name, fn), [a.reg.base, b.reg.base])
        fin = [(a.v, [all_items(b, 'items assigned')])]
        if b.v is not a.v:
            fin += kept(b)
        # assigning a slice of the array itself destroys the array the slice belongs to, the slice's own limits then mean nothing
        finish(cx, outs, fin, need=simplify(n64(a.v) + z64(b.n)), post=slices(cx, a, b))
    return f


def job_lit(fn):
    def f(cx):
        o = cx.raw_struct('o')
        n = BitVecVal(SLATE, 32)
        s, it = cx.array('literal', n, True)
        outs = cx.run('@%s_%s' % (cx.E.name, fn), [o.base, s.base])
        finish(cx, outs, [(o, [Piece(z64(n), it, 'items of the literal')])], [(s, z64(n))], need=z64(n))
    return f


MOVES = [('V', 'V'), ('V', 'x'), ('x', 'V')]
COPIES = [('V', 'v'), ('V', 'w'), ('V', 'rc'), ('V', 'rm'), ('V', 's'),
          ('v', 'V'), ('w', 'V'), ('rc', 'V'), ('rm', 'V'), ('s', 'V'),
          ('v', 'v'), ('v', 'w'), ('v', 'rc'), ('v', 's'), ('w', 'v'), ('rc', 'v'), ('s', 'v'),
          ('w', 'w'), ('w', 'rc'), ('rc', 'w'), ('rm', 'w'), ('rc', 'rm'), ('m', 'w'), ('w', 's'), ('s', 'w'),
          ('v', 'x'), ('w', 'x'), ('rc', 'x'), ('rm', 'x'), ('s', 'x'), ('x', 'v'), ('x', 'w'), ('x', 'rc'), ('x', 'rm'), ('x', 's')]
LITS = [('V', 'l'), ('l', 'V'), ('v', 'l'), ('l', 'v'), ('l', 'w'), ('l', 'l'), ('l', 'x'), ('x', 'l')]
BEHIND = ('v', 'V', 'rc', 'rm', 'rmv')


def shapes(E, fa, fb, add=False):
    ka = E.kinds() if fa in BEHIND else ['']
    kb = E.kinds() if fb in BEHIND else ['']
    out = [(x, y) for x in ka for y in kb]
    if fa in BEHIND and fb in BEHIND and E.share:
        out.append(('shared', 'same'))
    # an operand that is kept may be (a part of) the other one
    if fb in ('v', 'rc', 'rm') and fa in ('v', 'rc') and not add:
        out += [(x, 'own') for x in ka if fa == 'v']
    if add and fb in ('v', 'rc', 'rm'):
        out += [(x, 'own') for x in ka]
    return out


def jobs(ename, light=False):
    E = ELEMS[ename]
    out = []
    cats = MOVES + (COPIES if E.share else []) + (LITS if ename == 'c1' else [])
    adds = ['V', 'x'] + (['v', 'w', 'rc', 'rm', 's'] if E.share else []) + (['l'] if ename == 'c1' else [])
    for a, b in cats:
        for sh in shapes(E, a, b):
            out.append(Job('cat_%s_%s' % (a, b), ename, sh, job_cat('cat_%s_%s' % (a, b), a, b)))
    for a in ('v', 'rm', 'rmv'):
        for b in adds:
            for sh in shapes(E, a, b, True):
                out.append(Job('add_%s_%s' % (a, b), ename, sh, job_add('add_%s_%s' % (a, b), 'rm' if a == 'rmv' else a, b)))
    if E.share:
        for b in ('rc', 'rm'):
            for sh in shapes(E, 'v', b, True):
                out.append(Job('set_v_%s' % b, ename, sh, job_set('set_v_%s' % b, b)))
    for n in ('lit', 'lit_c'):
        out.append(Job(n, ename, (), job_lit(n)))
    return out
