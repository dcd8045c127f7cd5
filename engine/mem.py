"""Functional byte memories.

A region's content is a persistent chain of nodes over offsets (BV64 -> BV8).  Nothing is ever
quantified: copies, fills and whole loops are functional nodes that are evaluated lazily at the
offset a load or a skolemised postcondition asks for.
"""
import z3
from z3 import BitVecVal, BitVec, BV2Int, Concat, Extract, If, And, Or, Not, ULT, ULE, UGE, UGT, BoolVal, simplify, is_bv_value, is_true, is_false

B64 = 64
ZERO8 = BitVecVal(0, 8)


def bv(v, w=64):
    return BitVecVal(v, w)


def const_of(e):
    if is_bv_value(e):
        return e.as_long()
    return None


class Node:
    __slots__ = ()


class Base(Node):
    """initial content: fn(offset)->BV8;  wide(offset, n)->BV(8n) or None."""
    __slots__ = ('fn', 'wide')

    def __init__(self, fn, wide=None):
        self.fn = fn
        self.wide = wide


class Store(Node):
    __slots__ = ('prev', 'off', 'n', 'val')

    def __init__(self, prev, off, n, val):
        self.prev = prev
        self.off = off
        self.n = n
        self.val = val


class Copy(Node):
    __slots__ = ('prev', 'off', 'n', 'src', 'soff')

    def __init__(self, prev, off, n, src, soff):
        self.prev = prev
        self.off = off
        self.n = n
        self.src = src
        self.soff = soff


class Fill(Node):
    __slots__ = ('prev', 'off', 'n', 'byte')

    def __init__(self, prev, off, n, byte):
        self.prev = prev
        self.off = off
        self.n = n
        self.byte = byte


class Seq(Node):
    """k iterations of a loop, iteration j storing the w bytes val(j) at o0 + j*stride (stride != 0)."""
    __slots__ = ('prev', 'o0', 'stride', 'w', 'val', 'k')

    def __init__(self, prev, o0, stride, w, val, k):
        self.prev = prev
        self.o0 = o0
        self.stride = stride
        self.w = w
        self.val = val
        self.k = k

    def locate(self, off):
        """-> (hit, j, byte index r) for one byte"""
        w, s = self.w, self.stride
        if s > 0:
            rel = simplify(off - self.o0)
            j = udivc(rel, s)
            r = simplify(rel - j * s)
            if s == w:
                hit = ULT(j, self.k)
            else:
                hit = And(ULT(j, self.k), ULT(r, bv(w)))
            return hit, j, r
        S = -s
        rel = simplify(self.o0 + (w - 1) - off)
        j = udivc(rel, S)
        q = simplify(rel - j * S)
        hit = ULT(j, self.k) if S == w else And(ULT(j, self.k), ULT(q, bv(w)))
        return hit, j, simplify(bv(w - 1) - q)


def divlin(e, s):
    """e == s*J + r with a constant r in [0, s), read off the terms of a sum -> (J, r) or None"""
    e = simplify(e)
    adds = e.children() if e.decl().kind() == z3.Z3_OP_BADD else [e]
    acc, J = 0, None
    for t in adds:
        c = const_of(t)
        if c is not None:
            acc += c
            continue
        if t.decl().kind() != z3.Z3_OP_BMUL or const_of(t.arg(0)) is None:
            return None
        c = const_of(t.arg(0))
        if c >= 1 << 63:
            c -= 1 << 64
        if c % s:
            return None
        x = t.arg(1)
        for i in range(2, t.num_args()):
            x = x * t.arg(i)
        x = x * BitVecVal((c // s) % (1 << 64), 64)
        J = x if J is None else J + x
    if J is None:
        return None
    if acc >= 1 << 63:
        acc -= 1 << 64
    return simplify(J + BitVecVal((acc // s) % (1 << 64), 64)), acc % s


def udivc(x, c):
    if c == 1:
        return x
    if c & (c - 1) == 0:
        return simplify(z3.LShR(x, bv(c.bit_length() - 1)))
    return simplify(z3.UDiv(x, bv(c)))


def pick_byte(val, w, r):
    if w == 1:
        return val
    c = const_of(simplify(r))
    if c is not None:
        return Extract(8 * c + 7, 8 * c, val)
    W = 8 * w
    rr = Extract(W - 1, 0, r) if W <= 64 else z3.ZeroExt(W - 64, r)
    return Extract(7, 0, z3.LShR(val, rr * 8))


def diff_const(a, b):
    if a.eq(b):
        return 0
    d = simplify(a - b)
    c = const_of(d)
    if c is None:
        return None
    if c >= 1 << 63:
        c -= 1 << 64
    return c


def tb(e):
    """simplified bool -> True/False/None, expr"""
    e = simplify(e)
    if is_true(e):
        return True, e
    if is_false(e):
        return False, e
    return None, e


def whole(bs):
    """the bytes of one value, in order -> the value"""
    v = None
    for i, b in enumerate(bs):
        if b.decl().kind() != z3.Z3_OP_EXTRACT or b.params() != [8 * i + 7, 8 * i]:
            return None
        if v is None:
            v = b.arg(0)
        elif not b.arg(0).eq(v):
            return None
    return v if v is not None and v.size() == 8 * len(bs) else None


class Reader:
    """decide: optional callback(cond)->True/False/None using the path condition."""

    def __init__(self, decide=None):
        self.decide = decide
        self.memo = {}
        self.keep = []

    def cond(self, c):
        r, e = tb(c)
        if r is None and self.decide:
            r = self.decide(e)
        return r, e

    def byte(self, node, off):
        key = (id(node), off.get_id(), 1)
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._byte(node, off)
        self.memo[key] = r
        self.keep.append((node, off))
        return r

    def _byte(self, node, off):
        # iterative over definite misses
        while True:
            if isinstance(node, Base):
                return node.fn(off)
            if isinstance(node, Store):
                d = diff_const(off, node.off)
                if d is not None:
                    if 0 <= d < node.n:
                        return Extract(8 * d + 7, 8 * d, node.val) if node.n > 1 else node.val
                    node = node.prev
                    continue
                rel = simplify(off - node.off)
                r, c = self.cond(ULT(rel, bv(node.n)))
                if r is False:
                    node = node.prev
                    continue
                if node.n == 1:
                    hit = node.val
                else:
                    hit = Extract(7, 0, z3.LShR(node.val, z3.ZeroExt(node.val.size() - 64, rel) * 8 if node.val.size() > 64
                                                else Extract(node.val.size() - 1, 0, rel) * 8))
                if r is True:
                    return hit
                return If(c, hit, self.byte(node.prev, off))
            if isinstance(node, Copy):
                rel = simplify(off - node.off)
                r, c = self.cond(ULT(rel, node.n))
                if r is False:
                    node = node.prev
                    continue
                if r is True:
                    off = simplify(node.soff + rel)
                    node = node.src
                    continue
                return If(c, self.byte(node.src, simplify(node.soff + rel)), self.byte(node.prev, off))
            if isinstance(node, Fill):
                rel = simplify(off - node.off)
                r, c = self.cond(ULT(rel, node.n))
                if r is False:
                    node = node.prev
                    continue
                if r is True:
                    return node.byte
                return If(c, node.byte, self.byte(node.prev, off))
            if isinstance(node, Seq):
                h = self.period(node, off, 1)
                if h == 'miss':
                    node = node.prev
                    continue
                if h is not None:
                    return pick_byte(node.val(h[0]), node.w, bv(h[1]))
                hit, j, r = node.locate(off)
                d, c = self.cond(hit)
                if d is False:
                    node = node.prev
                    continue
                v = pick_byte(node.val(j), node.w, r)
                if d is True:
                    return v
                return If(c, v, self.byte(node.prev, off))
            raise Exception('node')

    def period(self, node, off, n):
        """n bytes that lie at a known place of one period of the sequence: (iteration, place), 'miss' or None"""
        S = abs(node.stride)
        if S <= node.w:
            return None
        d = divlin(off - node.o0, S)
        if d is None:
            return None
        J, r = d
        if r + n <= node.w:
            if node.stride < 0:
                J = simplify(-J)
            return (J, r) if self.cond(ULT(J, node.k))[0] is True else None
        if r >= node.w and r + n <= S:
            # between two items, or right outside of them (sequences do not wrap around)
            e = ULE(simplify(-J), node.k) if node.stride < 0 else ULE(simplify(J + 1), node.k)
            return 'miss' if self.cond(e)[0] is True else None
        return None

    def load(self, node, off, n):
        """n bytes little endian -> BV(8n)"""
        if n == 1:
            return self.byte(node, off)
        key = (id(node), off.get_id(), n)
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._load(node, off, n)
        self.memo[key] = r
        self.keep.append((node, off))
        return r

    def _load(self, node, off, n):
        n0, o0 = node, off
        while True:
            if isinstance(node, Base):
                if node.wide:
                    w = node.wide(off, n)
                    if w is not None:
                        return w
                break
            if isinstance(node, Store):
                d = diff_const(off, node.off)
                if d is not None:
                    if d >= node.n or d <= -n:
                        node = node.prev
                        continue
                    if d >= 0 and d + n <= node.n:
                        if n == node.n:
                            return node.val
                        return simplify(Extract(8 * (d + n) - 1, 8 * d, node.val))
                    break
                rel = simplify(off - node.off)
                # disjoint: rel >= n_store and rel <= -n
                r, c = self.cond(And(UGE(rel, bv(node.n)), ULE(rel, bv(-n))))
                if r is True:
                    node = node.prev
                    continue
                if n == node.n:
                    r2, c2 = self.cond(rel == 0)
                    if r2 is True:
                        return node.val
                    r3, c3 = self.cond(Or(c, c2))
                    if r3 is True:
                        return If(c2, node.val, self.load(node.prev, off, n))
                break
            if isinstance(node, (Copy, Fill)):
                rel = simplify(off - node.off)
                inside = And(UGE(node.n, bv(n)), ULE(rel, node.n - n))
                r, ci = self.cond(inside)
                if r is True:
                    if isinstance(node, Copy):
                        off = simplify(node.soff + rel)
                        node = node.src
                        continue
                    return Concat(*([node.byte] * n))
                out = And(UGE(rel, node.n), ULE(rel, bv(-n)))
                r2, co = self.cond(out)
                if r2 is True:
                    node = node.prev
                    continue
                r3, c3 = self.cond(Or(ci, co))
                if r3 is True:
                    if isinstance(node, Copy):
                        a = self.load(node.src, simplify(node.soff + rel), n)
                    else:
                        a = Concat(*([node.byte] * n))
                    return If(ci, a, self.load(node.prev, off, n))
                break
            if isinstance(node, Seq):
                h = self.period(node, off, n)
                if h == 'miss':
                    node = node.prev
                    continue
                if h is not None:
                    v = node.val(h[0])
                    return v if n == node.w else simplify(Extract(8 * (h[1] + n) - 1, 8 * h[1], v))
                hit, j, r = node.locate(off)
                if n == node.w:
                    full = And(hit, r == 0)
                    d, cf = self.cond(full)
                    if d is True:
                        return node.val(j)
                else:
                    cf = z3.BoolVal(False)
                # certainly disjoint from the whole span?
                S = abs(node.stride)
                if node.stride > 0:
                    lo = node.o0
                else:
                    lo = simplify(node.o0 - (node.k - 1) * S)
                span = simplify(node.k * S)          # covers gaps too: conservative
                rel = simplify(off - lo)
                miss = Or(node.k == 0, And(UGE(rel, span), ULE(rel, bv(-n))))
                d2, cm = self.cond(miss)
                if d2 is True:
                    node = node.prev
                    continue
                if n == node.w:
                    d3, _ = self.cond(Or(cf, cm))
                    if d3 is True:
                        return If(cf, node.val(j), self.load(node.prev, off, n))
                break
            raise Exception('node')
        bs = [self.byte(node, simplify(off + k)) for k in range(n)]
        w = whole(bs)
        return w if w is not None else simplify(Concat(*reversed(bs)))
